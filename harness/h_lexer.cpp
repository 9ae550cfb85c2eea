// Lexers with several symbols: the complete stream of lexemes of every input is the one given by longest match, lowest symbol id
// first, one rejected character when nothing matches; nothing is lost, and every representation gives the same stream.
//   args: L table(0 flat, 1 compact, 2 compacted+merged, 3 minimised by first action, 4 copied regexes) tokens_1 tokens_2 ... (0: pinned keyword "ab")  ids are n, n-1, .. when order=1
#include <cstdlib>
#include "regex_ref.h"
#include "TameParse/Dfa/lexer.h"
using namespace dfa;
struct src : lexer_symbol_stream { const int* s; int p, n; src(const int* a, int k) : s(a), p(0), n(k) {} virtual lexer_symbol_stream& operator>>(int& r) { r = p < n ? s[p++] : (int) symbol_set::end_of_input; return *this; } };
int sym_main(int argc, char** argv) {
    int L = atoi(argv[1]), table = atoi(argv[2]), m = argc - 3;
    std::vector<ref::node*> ast; std::vector<int> ids;
    ndfa_regex* nfa = new ndfa_regex();
    int order = sym_split(sym_int("order", 0, 1), 0, 1);
    for (int i = 0; i < m; ++i) {
        int k = atoi(argv[3 + i]), id = 3 + 2 * (order ? m - 1 - i : i);
        std::string rx = k > 0 ? ref::choose(k, true, false) : std::string("ab");
        ref::parser* p = new ref::parser(*new std::string(rx));
        __sym_note(rx.c_str());
        ast.push_back(p->alternatives()); ids.push_back(id);
        if (k > 0) nfa->add_regex(0, ndfa_regex::convert(rx), accept_action(id)); else nfa->add_literal(0, ndfa_regex::convert(rx), accept_action(id));
    }
    basic_lexer* lex;
    if (table == 4) { ndfa_regex* c = new ndfa_regex(*nfa); delete nfa; nfa = c; }
    if (table < 2 || table == 4) { lexer* l = new lexer(nfa); l->compile(table == 1); lex = l; }
    else {
        ndfa* u = nfa->to_ndfa_with_unique_symbols(); ndfa* d = u->to_dfa(); ndfa* c = d->to_compact_dfa(0, table == 3);
        ndfa* g = c->to_ndfa_with_merged_symbols();
        lex = new lexer(*g);
        delete u; delete d; delete c; delete g; delete nfa;
    }
    int s[ref::MAXLEN];
    for (int i = 0; i < L; ++i) s[i] = sym_int("c", 96, 100);
    lexeme_stream* str = lex->create_stream(new src(s, L));
    int at = 0, count = 0;
    while (at < L) {
        lexeme* x = NULL; (*str) >> x;
        sym_assert(x != NULL, "lexemes cover the whole input");
        int len = (int) x->content().size(), id = x->matched();
        sym_assert(len >= 1 && at + len <= L, "a lexeme is not empty");
        bool ok = true;
        for (int i = 0; i < len; ++i) ok = ok & (x->content()[i] == s[at + i]);
        sym_assert(ok, "the lexeme's text is the input");
        sym_assert(x->pos().offset() == at, "the lexeme's position");
        // the expected lexeme
        bool any = false, good = true, lower = false, mine = false;
        for (int k = 0; k < m; ++k) {
            ref::posset e = ref::match_from(ast[k], at, s, L);
            for (int i = at + len + 1; i <= L; ++i) any = any | e.p[i];
            if (ids[k] == id) mine = mine | e.p[at + len];
            else if (ids[k] < id || id < 0) lower = lower | e.p[at + len];
        }
        good = id >= 0 ? (mine & !lower & !any) : (!lower & !any & (len == 1));
        sym_assert(good, "longest match, then the lowest symbol");
        at += len; ++count;
        delete x;
    }
    lexeme* x = NULL; (*str) >> x;
    sym_assert(x == NULL, "end of input after the last lexeme");
    delete str; delete lex;
    sym_reach("end");
    if (count > 1) sym_reach("several");
    return 0;
}

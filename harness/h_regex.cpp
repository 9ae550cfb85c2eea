// For every regular expression of up to N tokens and every input of L characters: the first lexeme the compiled lexer
// returns is exactly the longest non-empty prefix that the regular expression denotes (or one rejected character).
//   args: tokens inputlen mode(0 flat, 1 compact table, 2 compacted dfa + merged symbols) multi lo hi base  (input characters lo..hi; the two literals are base and base+1)
#include <cstdlib>
#include "regex_ref.h"
#include "TameParse/Dfa/lexer.h"
using namespace dfa;

class sym_stream : public lexer_symbol_stream {
    const int* m_S; int m_Pos, m_Len;
public:
    sym_stream(const int* s, int n) : m_S(s), m_Pos(0), m_Len(n) {}
    virtual lexer_symbol_stream& operator>>(int& result) { result = m_Pos < m_Len ? m_S[m_Pos++] : (int) symbol_set::end_of_input; return *this; }
};

int sym_main(int argc, char** argv) {
    int n = atoi(argv[1]), L = atoi(argv[2]), mode = atoi(argv[3]), multi = atoi(argv[4]), clo = atoi(argv[5]), chi = atoi(argv[6]), base = atoi(argv[7]);
    std::string rx = ref::choose(n, true, multi);
    __sym_note(rx.c_str());
    ref::parser p(rx, base);
    ref::node* ast = p.alternatives();
    symbol_string rs;
    for (size_t i = 0; i < rx.size(); ++i) rs += (rx[i] == 'a' || rx[i] == 'b') ? base + (rx[i] - 'a') : (int) rx[i];

    // The real pipeline
    basic_lexer* lex;
    if (mode < 2) {
        lexer* l = new lexer();
        l->add_symbol(rs, 7);
        l->compile(mode == 1);
        lex = l;
    } else {
        ndfa_regex nfa;
        nfa.add_regex(0, rs, accept_action(7));
        ndfa* uniq = nfa.to_ndfa_with_unique_symbols();
        ndfa* dfa = uniq->to_dfa();
        ndfa* small = dfa->to_compact_dfa();
        ndfa* merged = small->to_ndfa_with_merged_symbols();
        lex = new lexer(*merged);
    }
    int s[ref::MAXLEN];
    for (int i = 0; i < L; ++i) s[i] = sym_int("c", clo, chi);

    lexeme_stream* str = lex->create_stream(new sym_stream(s, L));
    lexeme* lx = NULL;
    (*str) >> lx;
    sym_assert(lx != NULL, "a lexeme is returned for non-empty input");
    int matched = lx->matched();
    int len = (int) lx->content<int>().size();
    __sym_note(matched == 7 ? "accepted" : "rejected");

    ref::posset e = ref::match_from(ast, 0, s, L);
    bool ok;
    if (matched == 7) {
        ok = len >= 1 && len <= L && e.p[len];
        for (int i = len + 1; i <= L; ++i) ok = ok & !e.p[i];
    } else {
        ok = (matched == -1) & (len == 1);
        for (int i = 1; i <= L; ++i) ok = ok & !e.p[i];
    }
    sym_assert(ok, "the first lexeme is the longest prefix in the language of the expression");
    sym_reach(matched == 7 ? "accepted" : "rejected");
    return 0;
}

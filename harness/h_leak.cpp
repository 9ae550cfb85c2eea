// Everything that is built from a small grammar, a parse with it, or an expression and its lexer, is gone when it has been destroyed: the second
// time the same is done there are as many objects afterwards as before it.
//   args: mode(0 BNF, 1 EBNF, 2 guard, 3 nested EBNF, 4 weak and ignored symbols, 5 expressions) nonterminals terminals rules length K [EBNF inner length]
#include <cstdlib>
#include "parse_ref.h"
#include "TameParse/Lr/weak_symbols.h"
#include "TameParse/Lr/ignored_symbols.h"
#include "regex_ref.h"
#include "TameParse/Dfa/lexer.h"
static int s[8], K, NT, kind, tables_kind; static bool special; static gram* G; static std::string re[2];
struct src : lexer_symbol_stream { const int* s; int p, n; src(const int* a, int k) : s(a), p(0), n(k) {} virtual lexer_symbol_stream& operator>>(int& r) { r = p < n ? s[p++] : (int) symbol_set::end_of_input; return *this; } };
static void parse_with(const ast_parser& p, int start, bool copy) {
    ast_parser::state* st = p.create_parser(new ast_parser_actions(new tokens(s, K, NT)), start);
    if (copy) { st->process(); ast_parser::state* c = new ast_parser::state(*st); c->parse(); delete c; }
    if (st->parse()) sym_reach("accepted"); else sym_reach("rejected");
    delete st;
}
static void grammars() {
    grammar lib; std::vector<int> ids; build(lib, *G, ids);
    if (special) { grammar copy(lib); grammar other; other = copy; other.first(item_container(new nonterminal(ids[0]), true)); other.follow(item_container(new nonterminal(ids[0]), true));
        if (tables_kind == 0) { { terminal_dictionary d; lalr_builder b(other, d); b.add_initial_state(item_container(new nonterminal(ids[0]), true)); b.complete_parser(); } other = copy; } }
    terminal_dictionary dict; item_container root(new nonterminal(ids[0]), true);
    lalr_builder b(lib, dict); int start = b.add_initial_state(root);
    weak_symbols ws(&lib);
    if (kind == 4) {
        item_set w(&lib); w.insert(item_container(new terminal(NT), true)); ws.add_symbols(item_container(new terminal(0), true), w);
        b.add_rewriter(action_rewriter_container(new weak_symbols(ws), true));
        ignored_symbols* ig = new ignored_symbols(); ig->add_item(item_container(new terminal(NT + 1), true)); b.add_rewriter(action_rewriter_container(ig, true));
    }
    b.complete_parser();
    conflict_list c; conflict::find_conflicts(b, c); if (!c.empty()) { sym_reach("conflict"); return; }
    parser_tables t(b, &ws);
    if (tables_kind == 0) { ast_parser p(t); parse_with(p, start, special); }
    if (tables_kind == 1) { parser_tables u(t); u = t; ast_parser p(b, &ws); ast_parser q(p); q = p; parse_with(q, start, special); }
    if (tables_kind == 2) {
        parser_tables f(t.count_states(), t.end_of_input(), t.end_of_guard(), const_cast<parser_tables::action**>(t.terminal_actions()), const_cast<parser_tables::action**>(t.nonterminal_actions()), const_cast<parser_tables::action_count*>(t.action_counts()),
            const_cast<int*>(t.end_of_guard_states()), t.count_end_of_guards(), t.count_reduce_rules(), const_cast<parser_tables::reduce_rule*>(t.reduce_rules()), t.count_weak_to_strong(), const_cast<parser_tables::symbol_equivalent*>(t.weak_to_strong()));
        parser_tables h(f), i(t); i = f; ast_parser p(h); parse_with(p, start, special);
    }
}
static void expressions() {
    ndfa_regex* n = new ndfa_regex(); n->define_expression(L"x", L"ab|c"); n->define_expression_literal(L"y", L"ab");
    for (int i = 0; i < 2; ++i) n->add_regex(0, ndfa_regex::convert(re[i]), accept_action(i + 1));
    if (special) { ndfa_regex* c = new ndfa_regex(*n); delete n; n = c; }
    basic_lexer* lex;
    if (tables_kind < 2) { lexer* l = new lexer(n); l->compile(tables_kind == 1); lex = l; }
    else {
        ndfa* u = n->to_ndfa_with_unique_symbols(); ndfa* d = u->to_dfa(); ndfa* c = d->to_compact_dfa(0, tables_kind == 3); ndfa* g = c->to_ndfa_with_merged_symbols(); ndfa copy(*g);
        lex = new lexer(copy);
        delete u; delete d; delete c; delete g; delete n;
    }
    lexeme_stream* str = lex->create_stream(new src(s, K));
    for (;;) { lexeme* x = NULL; (*str) >> x; if (!x) break; lexeme_container a(x, true), b(a); }
    delete str; delete lex;
}
static void scenario() { if (kind == 5) expressions(); else grammars(); }
int sym_main(int argc, char** argv) {
    kind = atoi(argv[1]); int NN = atoi(argv[2]); NT = atoi(argv[3]); int R = atoi(argv[4]), len = atoi(argv[5]); K = atoi(argv[6]); int in = argc > 7 ? atoi(argv[7]) : 1;
    gram g;
    if (kind < 5) {
        g = choose_bnf(NN, NT, R, len);
        if (kind == 1 || kind == 3) { it e = choose_ebnf(g, in); if (kind == 3) { it f = choose_ebnf(g, 1); seq& q = e.rules[pick("inside", (int) e.rules.size())]; q.insert(q.begin() + pick("place", (int) q.size() + 1), f); } seq& r = g.rules[0].rhs; r.insert(r.begin() + pick("where", (int) r.size() + 1), e); }
        if (kind == 2) { it x(GUARD, NT); seq look; look.push_back(plain(g)); x.rules.push_back(look); seq& r = g.rules[pick("rule", R)].rhs; r.insert(r.begin() + pick("place", (int) r.size() + 1), x); if (guarded(g, look, 0)) return 0;
            g.NT = NT + 1; reference ref(g, 5); prefixes pre(ref); bool good = pre.sound() && !ref.of(look)[0]; g.NT = NT; if (!good) return 0;
            for (size_t i = 0; i < ref.st.s.size(); ++i) if (pre.nt[0][i]) for (size_t k = 1; k < ref.st.s[i].size(); ++k) if (ref.st.s[i][k] == NT && ref.st.s[i][k - 1] == NT) return 0;      // a guard follows itself
        }
        if (kind == 1) tables_kind = 1; else tables_kind = pick("tables", 3);
        special = pick("copies", 2);
        __sym_note(g.text().c_str());
        for (int i = 0; i < K; ++i) s[i] = sym_int("t", 0, NT);
    }
    else { for (int i = 0; i < 2; ++i) { re[i] = ref::choose(i ? 1 : in, true, false); __sym_note(re[i].c_str()); } tables_kind = pick("tables", 4); special = pick("copies", 2); for (int i = 0; i < K; ++i) s[i] = sym_int("c", 96, 100); }
    G = &g;
    scenario();
    int before = __sym_live();
    scenario();
    sym_assert(__sym_live() == before, "nothing is left of what was destroyed");
    sym_reach("end");
    return 0;
}

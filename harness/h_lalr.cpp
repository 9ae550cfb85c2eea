// Every small grammar whose tables have no reported conflict, with the real builder, tables and parser: the parser accepts exactly the
// strings the grammar derives, and the tree is a derivation of the input by the grammar's rules.
//   args: mode(0 BNF, 1 EBNF item in the first rule, 2 EBNF items in each other, 'length' deep, 'rules' 1: a terminal after it) nonterminals terminals rules length K [inner length]
#include <cstdlib>
#include "parse_ref.h"
static int leaves;
// an EBNF item of EBNF items, every terminal once
static it nest(int depth) {
    it x(OPT + pick("kind", 4));
    for (int i = 0; i < (x.kind == ALT ? 2 : 1); ++i) {
        if (depth && pick("nested", 2)) x.rules.push_back(seq(1, nest(depth - 1))); else x.rules.push_back(seq(1, it(TERM, leaves++)));
    }
    return x;
}
int sym_main(int argc, char** argv) {
    int mode = atoi(argv[1]), NN = atoi(argv[2]), NT = atoi(argv[3]), R = atoi(argv[4]), len = atoi(argv[5]), K = atoi(argv[6]), in = argc > 7 ? atoi(argv[7]) : 1;
    gram g;
    if (mode == 2) {
        g.NN = 1; rl r; r.lhs = 0; r.id = 0; it n = nest(len); r.rhs.push_back(n); if (leaves > NT) return 0; g.NT = NT = leaves; if (R) { r.rhs.push_back(it(TERM, leaves)); g.NT = ++NT; }
        g.rules.push_back(r);
    } else g = choose_bnf(NN, NT, R, len);
    if (mode == 1) { it e = choose_ebnf(g, in); int where = pick("where", (int) g.rules[0].rhs.size() + 1); g.rules[0].rhs.insert(g.rules[0].rhs.begin() + where, e); }
    __sym_note(g.text().c_str());
    grammar lib; std::vector<int> ids; build(lib, g, ids);
    terminal_dictionary dict;
    lalr_builder b(lib, dict);
    int start = b.add_initial_state(item_container(new nonterminal(ids[0]), true));
    b.complete_parser();
    conflict_list conflicts; conflict::find_conflicts(b, conflicts);
    if (!conflicts.empty()) { sym_reach("conflict"); return 0; }
    reference ref(g, K);
    int s[8]; for (int i = 0; i < K; ++i) s[i] = sym_int("t", 0, NT);
    ast_parser p(b, NULL);
    ast_parser::state* st = p.create_parser(new ast_parser_actions(new tokens(s, K, NT)), start);
    bool accepted = st->parse();
    bool expect = false;
    for (size_t i = 0; i < ref.st.s.size(); ++i) if (ref.nt[0][i]) {
        const std::vector<int>& v = ref.st.s[i]; bool same = true;
        for (size_t k = 0; k < v.size(); ++k) same = same & (s[k] == v[k]);
        if ((int) v.size() < K) same = same & (s[v.size()] == NT);
        expect = expect | same;
    }
    sym_assert(accepted == expect, accepted ? "an accepted input is derived by the grammar" : "an input the grammar derives is accepted");
    if (accepted) {
        tree t(lib, s);
        t.node(*st->get_item(), item_container(new nonterminal(ids[0]), true));
        sym_assert(t.at == K || s[t.at] == NT, "the tree covers the whole input");
        sym_reach("accepted");
    } else sym_reach("rejected");
    delete st;
    sym_reach("end");
    return 0;
}

// Guards on every small conflict-free grammar: the guard symbol is there exactly when the language allows it and the tokens that follow begin
// with something the guard looks for, and the input is accepted exactly when the tokens with these symbols added are in the language.
//   args: mode(0 BNF, 1 guard inside an EBNF item) nonterminals terminals rules length K guard-length second(0, 1 the guard may be in two places)
#include <cstdlib>
#include "parse_ref.h"
static void place(gram& g, const it& x, int mode, bool again) {
    int r = pick("rule", (int) g.rules.size()); seq& s = g.rules[r].rhs;
    if (mode == 1 && !again) { seq e; e.push_back(x); int n = pick("inner length", 2); for (int i = 0; i < n; ++i) e.push_back(plain(g)); it o(OPT + pick("kind", 4)); o.rules.push_back(e); if (o.kind == ALT) o.rules.push_back(inner(g, 1)); s.insert(s.begin() + pick("place", (int) s.size() + 1), o); }
    else s.insert(s.begin() + pick("place", (int) s.size() + 1), x);
}
int sym_main(int argc, char** argv) {
    int mode = atoi(argv[1]), NN = atoi(argv[2]), NT = atoi(argv[3]), R = atoi(argv[4]), len = atoi(argv[5]), K = atoi(argv[6]), GL = atoi(argv[7]), second = atoi(argv[8]);
    const int RK = 5;
    gram g = choose_bnf(NN, NT, R, len);
    it x(GUARD, NT); seq look; int n = 1 + pick("guard length", GL); for (int i = 0; i < n; ++i) look.push_back(plain(g)); x.rules.push_back(look);
    place(g, x, mode, false); if (second && pick("second", 2)) place(g, x, mode, true);
    if (guarded(g, look, 0)) return 0;                  // a guard inside a guard
    g.NT = NT + 1;
    reference ref(g, RK); prefixes pre(ref);
    if (!pre.sound()) return 0;
    lang want = ref.of(look); if (want[0]) return 0;    // a guard that is always satisfied
    for (size_t i = 0; i < ref.st.s.size(); ++i) if (pre.nt[0][i]) for (size_t k = 1; k < ref.st.s[i].size(); ++k) if (ref.st.s[i][k] == NT && ref.st.s[i][k - 1] == NT) return 0;  // a guard follows itself
    __sym_note(g.text().c_str());
    grammar lib; std::vector<int> ids; build(lib, g, ids);
    terminal_dictionary dict; item_container root(new nonterminal(ids[0]), true);
    lalr_builder b(lib, dict); int start = b.add_initial_state(root);
    b.complete_parser();
    conflict_list conflicts; conflict::find_conflicts(b, conflicts);
    if (!conflicts.empty()) { sym_reach("conflict"); return 0; }
    int s[8]; for (int i = 0; i < K; ++i) s[i] = sym_int("t", 0, NT);
    ast_parser p(b, NULL);
    ast_parser::state* st = p.create_parser(new ast_parser_actions(new tokens(s, K, NT)), start);
    bool accepted = st->parse();
    std::vector<int> v; bool ok = true; int at = 0;
    for (; ok; ++at) {
        if (at < K) s[at] = sym_split(s[at], 0, NT);
        if (at == K || s[at] == NT) break;
        if (pre.has(v, NT)) {
            bool found = false; std::vector<int> u;
            for (int i = at; i < K && !found && s[i] != NT; ++i) {
                s[i] = sym_split(s[i], 0, NT); if (s[i] == NT) break;
                u.push_back(s[i]); found = want[ref.st.code(u)];
            }
            if (found) { v.push_back(NT); sym_reach("guard"); } else sym_reach("no guard");
        }
        if (v.size() >= (size_t) RK) return 0;
        if (pre.has(v, s[at])) v.push_back(s[at]); else ok = false;
    }
    if (ok) ok = ref.nt[0][ref.st.code(v)];
    sym_assert(accepted == ok, accepted ? "an accepted input is in the language with its guards" : "an input in the language with its guards is accepted");
    if (accepted) {
        tree t(lib, s); t.node(*st->get_item(), root);
        sym_assert(t.at == at, "the tree covers the whole input");
        sym_reach("accepted");
    } else sym_reach("rejected");
    delete st;
    sym_reach("end");
    return 0;
}

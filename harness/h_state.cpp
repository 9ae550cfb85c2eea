// Parser states on every small conflict-free grammar: a state copied after any number of steps and the original can be run in any order, or one
// destroyed, and each gives what a parse of its own would give; after each token can_reduce tells for any symbol whether it can come next.
//   args: mode(0 copies, 1 can_reduce, 2 can_reduce in an assigned parser) nonterminals terminals rules length K [EBNF inner length]
#include <cstdlib>
#include "parse_ref.h"
static int shifts;
struct counting {       // ast_parser_actions, counting the tokens shifted
    typedef util::astnode_container astnode_container; typedef parser<astnode_container, counting> P; typedef P::reduce_list reduce_list;
    ast_parser_actions base; counting(lexeme_stream* s) : base(s) {}
    lexeme* read() { return base.read(); }
    astnode_container shift(const lexeme_container& l) { ++shifts; return base.shift(l); }
    astnode_container reduce(int n, int r, const reduce_list& l, const position& p) { return base.reduce(n, r, l, p); }
};
typedef counting::P P;
struct run {
    P::state* st; bool done, accepted; int used;        // used: tokens shifted
    bool reduced;      // a reduction has been made for the next token
    run(P::state* s, int u) : st(s), done(false), accepted(false), used(u), reduced(false) {}
    void step() {
        if (done) return;
        int was = shifts; parser_result::result r = st->process(); used += shifts - was; reduced = shifts == was;
        if (r != parser_result::more) { done = true; accepted = r == parser_result::accept; }
    }
};
// Tables with the actions of all states in one array each, as hard coded tables may be laid out
struct flat {
    std::vector<parser_tables::action> t, n; std::vector<parser_tables::action*> tp, np; parser_tables* tables;
    static void fill(const parser_tables& b, std::vector<parser_tables::action>& all, std::vector<parser_tables::action*>& at, bool term) {
        std::vector<size_t> o;
        for (int i = 0; i < b.count_states(); ++i) {
            o.push_back(all.size()); int c = term ? b.action_counts()[i].numTerminals : b.action_counts()[i].numNonterminals;
            const parser_tables::action* a = term ? b.terminal_actions()[i] : b.nonterminal_actions()[i];
            all.insert(all.end(), a, a + c);
        }
        parser_tables::action none; none.type = 0; none.nextState = 0; none.symbolId = -1; all.push_back(none);
        for (size_t i = 0; i < o.size(); ++i) at.push_back(&all[o[i]]);
    }
    flat(const parser_tables& b) {
        fill(b, t, tp, true); fill(b, n, np, false);
        tables = new parser_tables(b.count_states(), b.end_of_input(), b.end_of_guard(), &tp[0], &np[0], const_cast<parser_tables::action_count*>(b.action_counts()), const_cast<int*>(b.end_of_guard_states()), b.count_end_of_guards(),
            b.count_reduce_rules(), const_cast<parser_tables::reduce_rule*>(b.reduce_rules()), b.count_weak_to_strong(), const_cast<parser_tables::symbol_equivalent*>(b.weak_to_strong()));
    }
    ~flat() { delete tables; }
};
int sym_main(int argc, char** argv) {
    int mode = atoi(argv[1]), NN = atoi(argv[2]), NT = atoi(argv[3]), R = atoi(argv[4]), len = atoi(argv[5]), K = atoi(argv[6]), in = argc > 7 ? atoi(argv[7]) : 0;
    gram g = choose_bnf(NN, NT, R, len);
    if (in) { it e = choose_ebnf(g, in); int where = pick("where", (int) g.rules[0].rhs.size() + 1); g.rules[0].rhs.insert(g.rules[0].rhs.begin() + where, e); }
    reference ref(g, K + 1); prefixes pre(ref);
    if (!pre.sound()) return 0;
    __sym_note(g.text().c_str());
    grammar lib; std::vector<int> ids; build(lib, g, ids);
    terminal_dictionary dict; lalr_builder b(lib, dict); item_container root(new nonterminal(ids[0]), true);
    int start = b.add_initial_state(root);
    b.complete_parser();
    conflict_list conflicts; conflict::find_conflicts(b, conflicts);
    if (!conflicts.empty()) return 0;
    parser_tables tables(b, NULL); flat ft(tables); shifts = 0;
    P p0(mode ? ft.tables : &tables, false), p(p0);
    if (mode == 2) { P* q = new P(tables); P* r = new P(b, NULL); { P x(*q); *r = x; } p = *r; *r = *r; delete q; delete r; }      // a parser that owns a copy of its tables
    int s[8]; for (int i = 0; i < K; ++i) s[i] = sym_int("t", 0, NT);
    run a(p.create_parser(new counting(new tokens(s, K, NT)), start), 0);
    std::vector<int> v; bool live = true;        // what the reference has read
    #define EXPECT(r) do { std::vector<int> w; for (int i = 0; i < K; ++i) { s[i] = sym_split(s[i], 0, NT); if (s[i] == NT) break; w.push_back(s[i]); } \
        bool ok = ref.nt[0][ref.st.code(w)]; sym_assert((r).accepted == ok, (r).accepted ? "an accepted input is derived by the grammar" : "an input the grammar derives is accepted"); \
        if ((r).accepted) { tree t(lib, s); t.node(*(r).st->get_item(), root); sym_assert(t.at == (int) w.size(), "the tree covers the whole input"); sym_reach("accepted"); } else sym_reach("rejected"); } while (0)
    if (mode == 0) {
        P::state* behind = pick("behind", 2) ? new P::state(*a.st) : NULL;      // a third state, which stays at the start while the others run
        int n = sym_int("steps before the copy", 0, 12);
        for (int i = 0; i < 12; ++i) { if (i == n) break; if (a.done) sym_assume(false); a.step(); }
        if (a.done) { delete behind; return 0; }
        run c(new P::state(*a.st), a.used);
        int order = pick("order", 6);
        if (order == 0) { while (!c.done) c.step(); while (!a.done) a.step(); }
        if (order == 1) { while (!a.done) a.step(); while (!c.done) c.step(); }
        if (order == 2) while (!a.done || !c.done) { a.step(); c.step(); }
        if (order > 2) {        // one of them is destroyed after some steps
            run& x = order == 3 ? a : c; run& y = order == 3 ? c : a;
            int m = sym_int("steps before it is destroyed", 0, 6); for (int i = 0; i < 6; ++i) { if (i == m) break; if (x.done) sym_assume(false); x.step(); }
            int k = order == 5 ? 2 : 0; for (int i = 0; i < k; ++i) y.step();
            delete x.st; x.st = NULL;
            while (!y.done) y.step();
            sym_reach("destroyed");
        }
        if (a.st) EXPECT(a);
        if (c.st) EXPECT(c);
        if (behind) { run d(behind, 0); while (!d.done) d.step(); EXPECT(d); sym_reach("behind"); delete d.st; }
        sym_assert(!a.st || !c.st || a.used == c.used, "both read as much of the input");
        bool first = order & 1;
        if (first) { delete a.st; delete c.st; } else { delete c.st; delete a.st; }
    } else {
        int symbol = sym_int("symbol", 0, NT + 1), n = sym_int("steps", 0, 12);
        for (int i = 0; i < 12 && !a.done; ++i) { if (i == n) break; a.step(); }
        if (!a.done) {
            std::vector<int> w; for (int i = 0; i < a.used; ++i) w.push_back(sym_split(s[i], 0, NT));
            bool next = false; for (int t = 0; t < NT; ++t) if (pre.has(w, t)) next = next | (symbol == t);
            if (!a.reduced) sym_assert(a.st->can_reduce(symbol) == next, "can_reduce is true for exactly the symbols that can come next");
            bool look = a.st->can_reduce(); int t = a.used < K ? sym_split(s[a.used], 0, NT) : NT;
            sym_assert(look == (t == NT ? (bool) ref.nt[0][ref.st.code(w)] : pre.has(w, t)), "can_reduce without a symbol is about the lookahead");
            sym_reach(look ? "yes" : "no");
        }
        while (!a.done) a.step();
        EXPECT(a);
        delete a.st;
    }
    sym_reach("end");
    return 0;
}

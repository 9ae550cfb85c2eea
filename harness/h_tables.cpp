// The tables built for every small grammar are the LALR(1) tables of the grammar (states, lookaheads, shift, reduce, accept and goto actions),
// and conflicts are reported exactly for the states and tokens with more than one action, listing the actions that compete.
//   args: mode(0 BNF, 1 EBNF item in the first rule) nonterminals terminals rules length languages [inner length] [nested]
#include <cstdlib>
#include "lalr_ref.h"
#include "TameParse/Lr/lalr_builder.h"
#include "TameParse/Lr/conflict.h"
using namespace gr; using namespace lr;
static int token(const item_container& c, int NT) { return c->type() == item::terminal ? c->symbol() : c->type() == item::eoi ? NT : -1; }
int sym_main(int argc, char** argv) {
    int mode = atoi(argv[1]), NN = atoi(argv[2]), NT = atoi(argv[3]), R = atoi(argv[4]), len = atoi(argv[5]), L = atoi(argv[6]), in = argc > 7 ? atoi(argv[7]) : 1, nested = argc > 8 ? atoi(argv[8]) : 0;
    gram g = choose_bnf(NN, NT, R, len);
    if (mode == 1) {
        it e = choose_ebnf(g, in);
        if (nested) { it f = choose_ebnf(g, in); seq& s = e.rules[pick("inside", (int) e.rules.size())]; s.insert(s.begin() + pick("place", (int) s.size() + 1), f); }
        int where = pick("where", (int) g.rules[0].rhs.size() + 1); g.rules[0].rhs.insert(g.rules[0].rhs.begin() + where, e);
    }
    __sym_note(g.text().c_str());
    grammar lib; std::vector<int> ids; build(lib, g, ids);
    terminal_dictionary dict;
    lalr_builder b(lib, dict); std::vector<int> start;
    for (int i = 0; i < L; ++i) start.push_back(b.add_initial_state(item_container(new nonterminal(ids[i]), true)));
    b.complete_parser();
    bnf n(lib, g, ids); std::vector<int> lang;
    for (int i = 0; i < L; ++i) { n.language(i); lang.push_back((int) n.rules.size() - 1); }
    n.complete();
    lalr_ref ref(n, lang);
    // states
    const lalr_machine& m = b.machine();
    sym_assert(m.count_states() == (int) ref.states.size(), "as many states as the LALR(1) automaton");
    std::vector<int> to(m.count_states(), -1); std::set<int> used;
    for (int s = 0; s < m.count_states(); ++s) {
        const lalr_state& st = *m.state_with_id(s); lrset k; bool odd = false;
        sym_assert(st.identifier() == s, "a state has the identifier it is found with");
        for (int i = 0; i < st.count_items(); ++i) {
            unsigned la = 0; const item_set& l = st.lookahead_for(i);
            for (item_set::const_iterator t = l.begin(); t != l.end(); ++t) { int x = token(*t, NT); if (x >= 0) la |= 1u << x; }
            int r = n.rule_with(st[i]->rule()->identifier(lib)); if (r < 0) odd = true; k[lritem(r, st[i]->offset())] = la;
        }
        sym_assert(!odd, "the rules of a state are rules of the grammar");
        for (size_t q = 0; q < ref.states.size(); ++q) if (lalr_ref::same(ref.states[q], k)) { to[s] = (int) q; sym_assert(ref.states[q] == k, "lookaheads of a state"); }
        sym_assert(to[s] >= 0 && used.insert(to[s]).second, "a state is a state of the LALR(1) automaton");
    }
    for (int i = 0; i < L; ++i) sym_assert(to[start[i]] == ref.initial[i], "initial state of a language");
    // actions
    std::set<std::pair<int, int> > expect, got;
    for (int s = 0; s < m.count_states(); ++s) {
        const lr_action_set& a = b.actions_for_state(s); std::map<int, std::set<int> > reduce; std::map<int, int> go; bool odd = false;
        for (lr_action_set::const_iterator i = a.begin(); i != a.end(); ++i) {
            const lr_action& x = **i; int y = x.type() == lr_action::act_reduce || x.type() == lr_action::act_accept ? token(x.item(), NT) : n.find(x.item());
            if (y < 0) { odd = true; continue; }
            if (x.type() == lr_action::act_shift || x.type() == lr_action::act_goto) {
                if ((y < NT) != (x.type() == lr_action::act_shift) || go.count(y) || x.next_state() < 0 || x.next_state() >= m.count_states()) odd = true; else go[y] = to[x.next_state()];
            } else if (x.type() == lr_action::act_reduce || x.type() == lr_action::act_accept) {
                int r = n.rule_with(x.rule()->identifier(lib)); if (r < 0 || (n.rules[r].lhs < 0) != (x.type() == lr_action::act_accept) || !reduce[y].insert(r).second) odd = true;
            } else odd = true;
        }
        sym_assert(!odd, "every action is a shift, reduce, accept or goto of the grammar, once");
        sym_assert(go == ref.go[to[s]], "shift and goto actions");
        for (int t = 0; t <= NT; ++t) {
            std::set<int> r = ref.reductions(to[s], t);
            sym_assert(reduce[t] == r, "reduce and accept actions");
            if (r.size() + (t < NT && ref.go[to[s]].count(t) ? 1 : 0) > 1) expect.insert(std::make_pair(s, t));
        }
    }
    // conflicts
    conflict_list list; conflict::find_conflicts(b, list);
    for (size_t i = 0; i < list.size(); ++i) {
        const conflict& c = *list[i]; int t = token(c.token(), NT), s = c.state();
        sym_assert(got.insert(std::make_pair(s, t)).second, "a conflict is reported once");
        sym_assert(expect.count(std::make_pair(s, t)) == 1, "a reported conflict is one");
        std::set<int> r; for (conflict::reduce_iterator k = c.first_reduce_item(); k != c.last_reduce_item(); ++k) r.insert(n.rule_with(k->first->rule()->identifier(lib)));
        sym_assert(r == ref.reductions(to[s], t), "a conflict lists the rules that can be reduced");
        std::set<lritem> sh = t < NT ? ref.shifts(to[s], t) : std::set<lritem>(), list2;
        for (lr0_item_set::const_iterator k = c.first_shift_item(); k != c.last_shift_item(); ++k) list2.insert(lritem(n.rule_with((*k)->rule()->identifier(lib)), (*k)->offset()));
        for (std::set<lritem>::iterator k = sh.begin(); k != sh.end(); ++k) sym_assert(list2.count(*k) == 1, "a conflict lists the items that can be shifted");
        sym_reach(sh.empty() ? "reduce/reduce" : "shift/reduce");
    }
    sym_assert(got == expect, "every conflict is reported");
    sym_reach("end");
    return 0;
}

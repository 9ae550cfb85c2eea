// Parser tables of every small grammar (with a guard and a weak symbol): looking up any symbol in any state gives exactly the actions of the
// builder in the order the parser must try them, and copied, assigned and ready made tables give the same after the original has gone.
//   args: mode(0 built, 1 copied, 2 assigned, 3 ready made, 4 ready made and copied) nonterminals terminals rules length guard(0,1) weak(0,1)
#include <cstdlib>
#include <algorithm>
#include "parse_ref.h"
#include "TameParse/Lr/parser_tables.h"
static int priority(int type) {
    switch (type) {
        case lr_action::act_guard: return 0; case lr_action::act_weakreduce: return 1;
        case lr_action::act_shift: case lr_action::act_shiftstrong: case lr_action::act_divert: return 2;
        case lr_action::act_reduce: return 3; default: return 4;
    }
}
struct act { int sym, type, next; bool operator<(const act& o) const { return sym != o.sym ? sym < o.sym : type != o.type ? type < o.type : next < o.next; } bool operator==(const act& o) const { return sym == o.sym && type == o.type && next == o.next; } };
static void lookup(const parser_tables& t, const grammar& g, int state, int sym, bool term, const std::vector<act>& all) {
    parser_tables::action_iterator i = term ? t.find_terminal(state, sym) : t.find_nonterminal(state, sym), e = term ? t.last_terminal_action(state) : t.last_nonterminal_action(state);
    std::vector<act> want, got; int last = 0;
    for (size_t k = 0; k < all.size(); ++k) if (all[k].sym == sym) want.push_back(all[k]);
    sym_assert(i <= e, "the actions found are in the table");
    if (i > e) return;
    for (; i != e && i->symbolId == sym; ++i) {
        act a; a.sym = i->symbolId; a.type = i->type; a.next = i->nextState;
        if (a.type == lr_action::act_reduce || a.type == lr_action::act_weakreduce || a.type == lr_action::act_accept) {
            sym_assert(a.next >= 0 && a.next < t.count_reduce_rules(), "a reduce action names a rule of the table");
            const parser_tables::reduce_rule& r = t.rule(a.next); a.next = r.ruleId;
            const rule_container& real = g.rule_with_identifier(r.ruleId);
            sym_assert(r.identifier == g.identifier_for_item(real->nonterminal()), "the rule reduces to its nonterminal");
            sym_assert(r.length == (int) real->items().size(), "the rule has the number of its items");
        }
        sym_assert(priority(a.type) >= last, "actions for a symbol are in the order they are tried");
        last = priority(a.type); got.push_back(a);
        if (got.size() > all.size()) break;
    }
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    sym_assert(want == got, "looking up a symbol gives exactly its actions");
    sym_reach(want.empty() ? "none" : "found");
}
int sym_main(int argc, char** argv) {
    int mode = atoi(argv[1]), NN = atoi(argv[2]), NT = atoi(argv[3]), R = atoi(argv[4]), len = atoi(argv[5]), guards = atoi(argv[6]), weak = atoi(argv[7]);
    gram g = choose_bnf(NN, NT, R, len);
    if (guards) {
        it x(GUARD, NT); seq look; look.push_back(plain(g)); x.rules.push_back(look);
        seq& s = g.rules[pick("rule", R)].rhs; s.insert(s.begin() + pick("place", (int) s.size() + 1), x);
        if (guarded(g, look, 0)) return 0;      // a guard that looks for itself never ends (documented)
    }
    __sym_note(g.text().c_str());
    grammar lib; std::vector<int> ids; build(lib, g, ids);
    terminal_dictionary dict; lalr_builder b(lib, dict);
    b.add_initial_state(item_container(new nonterminal(ids[0]), true)); if (NN > 1) b.add_initial_state(item_container(new nonterminal(ids[1]), true));
    weak_symbols ws(&lib);
    // weak symbols: terminals 100.. for terminal 0 and 50 for terminal 1 (in no particular order)
    if (weak) {
        item_set w(&lib); w.insert(item_container(new terminal(100), true)); w.insert(item_container(new terminal(40), true)); if (NT > 1) w.insert(item_container(new terminal(1), true));
        ws.add_symbols(item_container(new terminal(0), true), w);
        b.add_rewriter(action_rewriter_container(new weak_symbols(ws), true));
    }
    b.complete_parser();
    parser_tables* t = new parser_tables(b, weak ? &ws : NULL); parser_tables* base = NULL;
    if (mode == 1) { parser_tables* c = new parser_tables(*t); delete t; t = c; }
    else if (mode == 2) { grammar one; nonterminal S(one.id_for_nonterminal(L"S")); (one += L"S") << terminal(3); lalr_builder ob(one, dict); ob.add_initial_state(S); ob.complete_parser(); parser_tables* c = new parser_tables(ob, NULL); *c = *t; delete t; t = c; *c = *c; }
    else if (mode >= 3) {
        base = t;
        t = new parser_tables(base->count_states(), base->end_of_input(), base->end_of_guard(), const_cast<parser_tables::action**>(base->terminal_actions()), const_cast<parser_tables::action**>(base->nonterminal_actions()),
            const_cast<parser_tables::action_count*>(base->action_counts()), const_cast<int*>(base->end_of_guard_states()), base->count_end_of_guards(), base->count_reduce_rules(), const_cast<parser_tables::reduce_rule*>(base->reduce_rules()),
            base->count_weak_to_strong(), const_cast<parser_tables::symbol_equivalent*>(base->weak_to_strong()));
        if (mode == 4) { parser_tables* c = new parser_tables(*t); delete t; delete base; base = NULL; t = c; }
    }
    sym_assert(t->count_states() == b.count_states(), "the tables have a state for each state of the builder");
    sym_assert(t->end_of_input() == lib.identifier_for_item(contextfree::end_of_input()) && t->end_of_guard() == lib.identifier_for_item(contextfree::end_of_guard()), "the special symbols have their identifiers");
    int state = pick("state", b.count_states());
    std::vector<act> terms, nonts; bool eog = false;
    const lr_action_set& s = b.actions_for_state(state);
    for (lr_action_set::const_iterator i = s.begin(); i != s.end(); ++i) {
        act a; a.type = (*i)->type(); a.next = (*i)->next_state(); bool term = (*i)->item()->type() == item::terminal;
        a.sym = term ? (*i)->item()->symbol() : lib.identifier_for_item((*i)->item());
        if (a.type == lr_action::act_reduce || a.type == lr_action::act_weakreduce || a.type == lr_action::act_accept) a.next = (*i)->rule()->identifier(lib);
        (term ? terms : nonts).push_back(a);
        if (!term && (*i)->item()->type() == item::eog) eog = true;
    }
    sym_assert(t->count_actions_for_state(state) == (int) (terms.size() + nonts.size()), "as many actions as the builder has");
    int any = sym_int("symbol", -2, 1000);
    lookup(*t, lib, state, any, true, terms);
    lookup(*t, lib, state, any, false, nonts);
    sym_assert(t->has_end_of_guard(state) == eog, "states that end a guard are known");
    int at = sym_int("any state", -1, 1000); bool e = false;
    for (int i = 0; i < b.count_states(); ++i) { bool h = false; const lr_action_set& q = b.actions_for_state(i); for (lr_action_set::const_iterator k = q.begin(); k != q.end(); ++k) h = h | ((*k)->item()->type() == item::eog); if (h) sym_reach("eog"); e = e | (h & (at == i)); }
    sym_assert(t->has_end_of_guard(at) == e, "has_end_of_guard is true for exactly the states that end a guard");
    int w = sym_int("weak", INT32_MIN, INT32_MAX);
    int strong = weak && (w == 100 || w == 40 || (NT > 1 && w == 1)) ? 0 : w;
    sym_assert(t->strong_for_weak(w) == strong, "the strong symbol of any symbol");
    delete t; delete base;
    sym_reach("end");
    return 0;
}

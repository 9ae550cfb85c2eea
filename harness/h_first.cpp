// FIRST and FOLLOW of every small grammar are the textbook fixed points, whatever is asked first and however often, also after the grammar
// is changed and its caches cleared, and for copies of the grammar.
//   args: mode(0 BNF, 1 EBNF item in the first rule) nonterminals terminals rules length [inner length]
#include <cstdlib>
#include <set>
#include "gram_ref.h"
using namespace gr;
// masks: bit t = terminal t, bit NT = empty
struct ff {
    const gram& g; std::vector<int> first, follow; int E;
    ff(const gram& gr) : g(gr), first(gr.NN, 0), follow(gr.NN, 0), E(1 << gr.NT) {
        for (bool more = true; more;) { more = false; for (size_t i = 0; i < g.rules.size(); ++i) more |= add(first[g.rules[i].lhs], of(g.rules[i].rhs)); }
        for (bool more = true; more;) { more = false; for (size_t i = 0; i < g.rules.size(); ++i) more |= walk(g.rules[i].rhs, follow[g.rules[i].lhs]); }
    }
    static bool add(int& a, int b) { int o = a; a |= b; return a != o; }
    int of(const seq& s) const { int r = E; for (size_t i = 0; i < s.size() && (r & E); ++i) { r &= ~E; r |= of(s[i]); } return r; }
    int of(const it& x) const {
        if (x.kind == TERM) return 1 << x.sym;
        if (x.kind == NONT) return first[x.sym];
        int r = 0; for (size_t i = 0; i < x.rules.size(); ++i) r |= of(x.rules[i]);
        if (x.kind == OPT || x.kind == REP0) r |= E;
        return r;
    }
    int after(const seq& s, size_t i, int then) const { int r = of(seq(s.begin() + i, s.end())); if (r & E) r = (r & ~E) | then; return r; }
    bool walk(const seq& s, int then) {
        bool more = false;
        for (size_t i = 0; i < s.size(); ++i) {
            int f = after(s, i + 1, then);
            if (s[i].kind == NONT) more |= add(follow[s[i].sym], f);
            else if (s[i].kind != TERM) {
                if (s[i].kind == REP || s[i].kind == REP0) f |= of(s[i]) & ~E;
                for (size_t k = 0; k < s[i].rules.size(); ++k) more |= walk(s[i].rules[k], f);
            }
        }
        return more;
    }
};
static int mask(const item_set& s, int NT, bool& odd) {
    int r = 0; odd = false; size_t n = 0;
    for (item_set::const_iterator i = s.begin(); i != s.end(); ++i) {
        ++n;
        if ((*i)->type() == item::terminal) { if ((*i)->symbol() < 0 || (*i)->symbol() >= NT) odd = true; else r |= 1 << (*i)->symbol(); }
        else if ((*i)->type() == item::empty) r |= 1 << NT;
    }
    if (n != s.size()) odd = true;
    return r;
}
static void verify(const grammar& lib, const gram& g, const std::vector<int>& ids, int from) {
    ff ref(g); bool odd;
    for (int k = 0; k < g.NN; ++k) {
        int n = (from + k) % g.NN;
        item_container nt(new nonterminal(ids[n]), true);
        sym_assert(mask(lib.first(nt), g.NT, odd) == ref.first[n], "FIRST of a nonterminal"); sym_assert(!odd, "FIRST holds the grammar's terminals");
        sym_assert(lib.first(nt).contains(nt), "FIRST of a nonterminal includes itself");
    }
    for (size_t i = 0; i < g.rules.size(); ++i) {
        rule r; fill(r, g.rules[i].rhs, ids);
        sym_assert(mask(lib.first_for_rule(r), g.NT, odd) == ref.of(g.rules[i].rhs), "FIRST of a rule");
        for (size_t k = 0; k < g.rules[i].rhs.size(); ++k) sym_assert(mask(lib.first(r.items()[k]), g.NT, odd) == ref.of(g.rules[i].rhs[k]), "FIRST of an item");
    }
    for (int n = 0; n < g.NN; ++n) {
        item_container nt(new nonterminal(ids[n]), true);
        sym_assert((mask(lib.follow(nt), g.NT, odd) & ~ref.E) == ref.follow[n], "FOLLOW of a nonterminal");
    }
}
int sym_main(int argc, char** argv) {
    int mode = atoi(argv[1]), NN = atoi(argv[2]), NT = atoi(argv[3]), R = atoi(argv[4]), len = atoi(argv[5]), in = argc > 6 ? atoi(argv[6]) : 1;
    gram g = choose_bnf(NN, NT, R, len);
    if (mode == 1) { it e = choose_ebnf(g, in); int where = pick("where", (int) g.rules[0].rhs.size() + 1); g.rules[0].rhs.insert(g.rules[0].rhs.begin() + where, e); }
    __sym_note(g.text().c_str());
    grammar lib; std::vector<int> ids; build(lib, g, ids);
    int from = pick("asked first", NN), then = pick("afterwards", 3);
    verify(lib, g, ids, from);
    if (then == 1) {
        // extend the grammar
        rl r; r.id = 0; r.lhs = NN - 1; r.rhs.push_back(it(TERM, 0)); g.rules.push_back(r);
        (lib += std::wstring(1, (wchar_t) (L'A' + r.lhs))) << 0;
        lib.clear_caches();
        verify(lib, g, ids, from);
        sym_reach("changed");
    } else if (then == 2) {
        // a copy is independent of the original
        grammar other; { grammar temp(lib); other = temp; }
        other.clear_caches();
        verify(other, g, ids, from); verify(lib, g, ids, from);
        sym_reach("copied");
    }
    sym_reach("end");
    return 0;
}

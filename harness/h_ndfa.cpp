// For every automaton with S states and T transitions and every string of up to L symbols: making the symbol sets disjoint,
// making it deterministic, minimising it, merging its symbol sets and copying it all keep what it accepts.
//   args: S T setmode(0 pinned sets, 1 symbolic ranges) L nact flags(1: the last state accepts eagerly, 2: the automaton has two initial states)
#include <cstdlib>
#include "nfa_sim.h"
using namespace dfa;
static unsigned low(unsigned m) { return m & (0u - m); }
int sym_main(int argc, char** argv) {
    int S = atoi(argv[1]), T = atoi(argv[2]), setmode = atoi(argv[3]), L = atoi(argv[4]), nact = atoi(argv[5]), flags = argc > 6 ? atoi(argv[6]) : 0;
    bool eager = flags & 1; std::vector<int> init(1, 0); if (flags & 2) init.push_back(1);
    ndfa n;
    for (int i = 1; i < S; ++i) n.add_state();
    int lastcode = -1;
    for (int i = 0; i < T; ++i) {
        int f = sym_split(sym_int("from", 0, S - 1), 0, S - 1), t = sym_split(sym_int("to", 0, S - 1), 0, S - 1);
        int k = sym_split(sym_int("set", 0, setmode ? 1 : 3), 0, setmode ? 1 : 3);
        int code = (f * S + t) * 4 + k;
        sym_assume(setmode ? code >= lastcode : code > lastcode); lastcode = code;           // the order of different transitions does not matter
        if (i == 0) sym_assume(f == 0);
        if (k == 0) n.add_transition(f, epsilon(), t);
        else if (!setmode) n.add_transition(f, symbol_set(range<int>(k == 2 ? 11 : 10, k == 1 ? 11 : 12)), t);
        else { int lo = sym_int("lo", 0, 0x7ffffffe), hi = sym_int("hi", 1, 0x7fffffff); sym_assume(lo < hi); n.add_transition(f, symbol_set(range<int>(lo, hi)), t); }
    }
    // the last state accepts 2; the others accept nothing, 1, 2 or both
    n.accept(S - 1, accept_action(2, eager));
    for (int i = 0; i < S - 1; ++i) {
        int a = i < nact ? sym_split(sym_int("acc", 0, 3), 0, 3) : 0;
        if (a & 2) n.accept(i, accept_action(2));
        if (a & 1) n.accept(i, accept_action(1));
    }
    int s[8];
    for (int i = 0; i < L; ++i) s[i] = setmode ? sym_int("c", 0, 0x7ffffffe) : sym_int("c", 9, 12);
    unsigned want[2][9], got[9];
    for (size_t q = 0; q < init.size(); ++q) sim::run(n, init[q], s, L, want[q], eager);
    #define SAME(aut, text) for (size_t q = 0; q < init.size(); ++q) { sim::run(aut, (int) q, s, L, got); for (int p = 0; p <= L; ++p) sym_assert(got[p] == want[q][p], text); }
    #define SAMENFA(aut, text) for (size_t q = 0; q < init.size(); ++q) { sim::run(aut, init[q], s, L, got, eager); for (int p = 0; p <= L; ++p) sym_assert(got[p] == want[q][p], text); }

    ndfa* uniq = n.to_ndfa_with_unique_symbols();
    SAMENFA(*uniq, "disjoint symbol sets: same language and actions");
    sym_assert(uniq->verify_no_symbol_overlap(), "symbol sets are disjoint");

    ndfa* d = uniq->to_dfa(init);
    SAME(*d, "deterministic: same language and actions");
    sym_assert(d->verify_is_dfa() && d->is_dfa() && d->verify_no_symbol_overlap(), "the result is deterministic");
    std::vector<int> dinit(1, 0); if (flags & 2) dinit.push_back(1);

    ndfa* c = d->to_compact_dfa(dinit);
    SAME(*c, "minimised: same language and actions");
    sym_assert(c->verify_is_dfa() && c->count_states() <= d->count_states(), "minimised: deterministic and no larger");

    ndfa* c1 = d->to_compact_dfa(dinit, true);
    for (size_t q = 0; q < init.size(); ++q) { sim::run(*c1, (int) q, s, L, got); for (int p = 0; p <= L; ++p) sym_assert(low(got[p]) == low(want[q][p]), "minimised by most important action: same language and most important action"); }

    ndfa* m = c->to_ndfa_with_merged_symbols();
    SAME(*m, "merged symbol sets: same language and actions");
    sym_assert(m->verify_is_dfa() && m->verify_no_symbol_overlap(), "merged symbol sets: deterministic and disjoint");

    ndfa cp(n), as; as.add_state(); as = n;
    SAMENFA(cp, "copy: same language and actions");
    SAMENFA(as, "assignment: same language and actions");
    delete uniq; delete d; delete c; delete c1; delete m;
    sym_reach("end");
    return 0;
}

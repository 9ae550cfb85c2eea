// Runs a (possibly non-deterministic) automaton of the library on a symbolic string, as one boolean expression per state and
// position. Only the public interface of the automaton is used.
#ifndef NFA_SIM_H
#define NFA_SIM_H
#include <vector>
#include "sym.h"
#include "TameParse/Dfa/ndfa.h"
#include "TameParse/Dfa/epsilon.h"
namespace sim {
    struct vb { bool v[64]; };
    static bool in_set(const dfa::symbol_set& s, int c) {
        bool r = false;
        for (dfa::symbol_set::iterator i = s.begin(); i != s.end(); ++i) r = r | ((i->lower() <= c) & (c < i->upper()));
        return r;
    }
    static bool is_eps(const dfa::symbol_set& s) { return s.begin() == s.end(); }
    static void close(const dfa::ndfa& n, vb& cur) {
        int S = n.count_states();
        for (bool again = true; again; ) {          // structural closure: the edges are concrete
            again = false;
            static bool reach[64][64];
            for (int i = 0; i < S; ++i) for (int j = 0; j < S; ++j) reach[i][j] = i == j;
            for (int i = 0; i < S; ++i) { const dfa::state& st = n.get_state(i);
                for (dfa::state::iterator t = st.begin(); t != st.end(); ++t) if (is_eps(n.symbols()[t->symbol_set()])) reach[i][t->new_state()] = true; }
            for (int k = 0; k < S; ++k) for (int i = 0; i < S; ++i) if (reach[i][k]) for (int j = 0; j < S; ++j) if (reach[k][j]) reach[i][j] = true;
            vb nx; for (int j = 0; j < S; ++j) { bool r = false; for (int i = 0; i < S; ++i) if (reach[i][j]) r = r | cur.v[i]; nx.v[j] = r; }
            cur = nx;
        }
    }
    // acc[p] is a bit mask of the accept symbols 0..31 that are accepted after p symbols
    // eager: nothing follows an eager accept action
    static void run(const dfa::ndfa& n, int start, const int* s, int len, unsigned* acc, bool eager = false) {
        vb cur; int S = n.count_states();
        if (S > 64) sym_assert(false, "harness limit: 64 states");
        for (int i = 0; i < S; ++i) cur.v[i] = i == start;
        for (int p = 0; p <= len; ++p) {
            close(n, cur);
            acc[p] = 0; bool stop = false;
            for (int i = 0; i < S; ++i) {
                const dfa::ndfa::accept_action_list& al = n.actions_for_state(i);
                unsigned m = 0;
                for (size_t k = 0; k < al.size(); ++k) { m |= 1u << al[k]->symbol(); if (eager && al[k]->eager()) stop = stop | cur.v[i]; }
                acc[p] |= m & (0u - (unsigned) cur.v[i]);
            }
            if (p == len) break;
            if (eager) for (int i = 0; i < S; ++i) cur.v[i] = cur.v[i] & !stop;
            vb nx; for (int i = 0; i < S; ++i) nx.v[i] = false;
            for (int i = 0; i < S; ++i) { const dfa::state& st = n.get_state(i);
                for (dfa::state::iterator t = st.begin(); t != st.end(); ++t) {
                    const dfa::symbol_set& set = n.symbols()[t->symbol_set()];
                    if (is_eps(set)) continue;
                    nx.v[t->new_state()] = nx.v[t->new_state()] | (cur.v[i] & in_set(set, s[p]));
                } }
            cur = nx;
        }
    }
}
#endif

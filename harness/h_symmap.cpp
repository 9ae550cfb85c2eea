// Splitting overlapping symbol sets gives a partition: every symbol of an original set is in exactly one new set, and the new
// sets recorded for an original set contain exactly its symbols.
//   args: k1 k2 ...  (number of ranges of each set)
#include <cstdlib>
#include "sym.h"
#include "TameParse/Dfa/remapped_symbol_map.h"
#include "TameParse/Dfa/epsilon.h"
using namespace dfa;
static const int MAX = 0x7fffffff;
int sym_main(int argc, char** argv) {
    int m = argc - 1;
    symbol_map src;
    bool eps = argc % 2 == 0;
    int epsId = -1, id[4], n[4], lo[4][3], hi[4][3];
    if (eps) epsId = src.identifier_for_symbols(epsilon());
    symbol_set sets[4];
    for (int i = 0; i < m; ++i) {
        n[i] = atoi(argv[i + 1]);
        for (int j = 0; j < n[i]; ++j) {
            lo[i][j] = sym_int("lo", 0, MAX - 1); hi[i][j] = sym_int("hi", 1, MAX); sym_assume(lo[i][j] < hi[i][j]);
            if (j) sym_assume(lo[i][j] > hi[i][j - 1]);
            sets[i] |= range<int>(lo[i][j], hi[i][j]);
        }
        id[i] = src.identifier_for_symbols(sets[i]);
        sym_assert((id[i] >= 0) & (id[i] < src.count_sets()), "identifiers are counted from 0");
        sym_assert(src[id[i]] == sets[i], "the set of an identifier");
    }
    int x = sym_int("x", 0, MAX - 1);
    bool in[4];
    for (int i = 0; i < m; ++i) {
        in[i] = false; for (int j = 0; j < n[i]; ++j) in[i] = in[i] | ((lo[i][j] <= x) & (x < hi[i][j]));
        sym_assert((src.identifier_for_symbols(sets[i]) == id[i]) && (src.find_identifier_for_symbols(sets[i]) == id[i]), "a set keeps its identifier");
        for (int j = 0; j < i; ++j) sym_assert((id[i] == id[j]) == (sets[i] == sets[j]), "different sets have different identifiers");
    }
    remapped_symbol_map* res = remapped_symbol_map::deduplicate(src);
    sym_assert(!res->has_duplicates(), "no overlaps are left");
    // which of the new sets contains x?
    int count = 0, which = -1;
    for (int k = 0; k < res->count_sets(); ++k) {
        bool has = false;
        const symbol_set& s = (*res)[k];
        for (symbol_set::iterator r = s.begin(); r != s.end(); ++r) has = has | ((r->lower() <= x) & (x < r->upper()));
        count += has ? 1 : 0; which = has ? k : which;
    }
    bool any = false; for (int i = 0; i < m; ++i) any = any | in[i];
    sym_assert(count == (any ? 1 : 0), "every symbol is in exactly one of the new sets");
    remapped_symbol_map copy(*res);
    bool ok = true, cok = true;
    for (int i = 0; i < m; ++i) {
        const remapped_symbol_map::new_symbol_set& ns = res->new_symbols(id[i]);
        bool found = false;
        for (remapped_symbol_map::new_symbol_set::const_iterator q = ns.begin(); q != ns.end(); ++q) found = found | (*q == which);
        ok = ok & ((found & (count == 1)) == in[i]);
        cok = cok & (copy.new_symbols(id[i]) == ns);
    }
    sym_assert(ok, "the new sets of an original set contain exactly its symbols");
    if (eps) {
        const remapped_symbol_map::new_symbol_set& ns = res->new_symbols(epsId);
        sym_assert(ns.size() == 1 && *ns.begin() == res->find_identifier_for_symbols(epsilon()), "epsilon is mapped to epsilon");
    }
    cok = cok & (copy.count_sets() == res->count_sets());
    for (int k = 0; k < res->count_sets(); ++k) cok = cok & (copy[k] == (*res)[k]);
    sym_assert(cok, "a copy is the same map");
    sym_reach("end");
    return 0;
}

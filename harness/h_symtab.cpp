// The symbol lookup tables (the one built at run time and the hard coded one written to generated parsers) give every symbol
// the set whose range contains it.
//   args: kind(0 wchar_t, 1 int, 2 char) nranges b0lo b0hi b1lo b1hi ...   boundary i of the ranges lies in [bilo, bihi]
#include <cstdlib>
#include "sym.h"
#include "TameParse/Dfa/symbol_table.h"
#include "TameParse/Dfa/symbol_translator.h"
#include "TameParse/Dfa/hard_coded_symbol_table.h"
using namespace dfa;
static int pin(const char* n, int lo, int hi) { return sym_split(sym_int(n, lo, hi), lo, hi); }
template<class C> struct maxxof { static const int v = 0x7fffffff; };
template<> struct maxxof<wchar_t> { static const int v = 0xffff; };
template<class C> static void run(int n, char** argv, int maxx, bool desc) {
    symbol_map map;
    int lo[6], hi[6], id[6], last = 0;
    for (int i = 0; i < n; ++i) {
        lo[i] = pin("lo", atoi(argv[i * 4]), atoi(argv[i * 4 + 1]));
        hi[i] = pin("hi", atoi(argv[i * 4 + 2]), atoi(argv[i * 4 + 3]));
        sym_assume((lo[i] >= last) & (lo[i] < hi[i])); last = hi[i];
    }
    symbol_table<C> table;
    for (int k = 0; k < n; ++k) { int i = desc ? n - 1 - k : k; id[i] = 10 + i; table.add_range(range<int>(lo[i], hi[i]), id[i]); }
    // the map form: ranges 0 and 2 belong to the same set
    symbol_set first, other;
    for (int i = 0; i < n; ++i) { if (i % 2 == 0) first |= range<int>(lo[i], hi[i]); else other |= range<int>(lo[i], hi[i]); }
    int fid = map.identifier_for_symbols(first), oid = n > 1 ? map.identifier_for_symbols(other) : -1;
    symbol_translator<C> trans(map);
    symbol_translator<C> copy(trans);
    size_t size = 0;
    int* hard = table.table.to_hard_coded_table(size);
    hard_coded_symbol_table<C, sizeof(C) == 1 ? 1 : sizeof(C) == 4 && sizeof(wchar_t) == 4 && maxxof<C>::v <= 0xffff ? 2 : 4> hct(hard);
    int x = sym_int("x", 0, maxx);
    int want = symbol_set::null, wantSet = symbol_set::null;
    for (int i = 0; i < n; ++i) { bool in = (lo[i] <= x) & (x < hi[i]); want = in ? id[i] : want; wantSet = in ? (i % 2 == 0 ? fid : oid) : wantSet; }
    sym_assert(table.lookup((C) x) == want, "table lookup");
    sym_assert(hct.lookup((C) x) == want, "hard coded table lookup");
    sym_assert(trans.set_for_symbol((C) x) == wantSet, "translator lookup");
    sym_assert(copy.set_for_symbol((C) x) == wantSet, "lookup in a copy of the translator");
    sym_reach("end");
}
int sym_main(int argc, char** argv) {
    int kind = atoi(argv[1]), n = atoi(argv[2]);
    bool desc = sym_split(sym_int("desc", 0, 1), 0, 1);
    if (kind == 0) run<wchar_t>(n, argv + 3, 0xffff, desc);
    else if (kind == 1) run<int>(n, argv + 3, 0x7ffffffe, desc);
    else run<unsigned char>(n, argv + 3, 255, desc);
    return 0;
}

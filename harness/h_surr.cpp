// Characters above U+FFFF match as surrogate pairs.   args: nranges any(0/1: '.' instead of a class) negate
#include <cstdlib>
#include "nfa_sim.h"
#include "TameParse/Dfa/ndfa_regex.h"
using namespace dfa;
int sym_main(int argc, char** argv) {
    int nr = atoi(argv[1]), any = atoi(argv[2]), neg = atoi(argv[3]);
    int cp = sym_int("cp", 0, 0x10ffff);
    sym_assume((cp < 0xd800) | (cp > 0xdfff));
    bool has = any;
    symbol_string r;
    if (any) r += '.';
    else {
        r += '['; if (neg) r += '^';
        for (int i = 0; i < nr; ++i) { int lo = sym_int("lo", 0x80, 0x10ffff), hi = sym_int("hi", 0x80, 0x10ffff); sym_assume(lo <= hi); r += lo; r += '-'; r += hi; has = has | ((cp >= lo) & (cp <= hi)); }
        r += ']';
    }
    if (neg) has = !has;
    ndfa_regex n;
    n.add_regex(0, r, accept_action(1));
    unsigned acc[4];
    if (sym_split(sym_int("wide", 0, 1), 0, 1)) {
        sym_assume(cp >= 0x10000);
        int s[2] = { (int) (0xd800 + ((cp - 0x10000) >> 10)), (int) (0xdc00 + ((cp - 0x10000) & 0x3ff)) };
        sim::run(n, 0, s, 2, acc);
        sym_assert((acc[2] != 0) == has, "a character above U+FFFF matches exactly when it is in the class");
        int t[2] = { s[1], s[0] };
        sim::run(n, 0, t, 2, acc);
        sym_assert(acc[2] == 0, "a reversed pair does not match");
        sym_reach("wide");
    } else {
        sym_assume(cp < 0x10000);
        int s[2] = { cp, cp };
        sim::run(n, 0, s, 2, acc);
        sym_assert((acc[1] != 0) == has, "a character below U+10000 matches exactly when it is in the class");
        sym_assert(acc[2] == 0, "a class matches one character");
        sym_reach("narrow");
    }
    return 0;
}

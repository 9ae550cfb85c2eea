// Case insensitive matching and case conversion.   args: mode lo hi     characters in [lo, hi], which must lie in ASCII (0..127), Latin-1 upper (0xc0..0xde / 0xe0..0xfe) or Cyrillic (0x400..0x45f)
#include <cstdlib>
#include "nfa_sim.h"
#include "TameParse/Dfa/ndfa_regex.h"
#include "TameParse/Util/unicode.h"
using namespace dfa;
static int up(int c) { return ((c >= 'a') & (c <= 'z')) ? c - 32 : ((c >= 0x430) & (c <= 0x44f)) ? c - 32 : ((c >= 0x450) & (c <= 0x45f)) ? c - 80 : c; }
static int down(int c) { return ((c >= 'A') & (c <= 'Z')) ? c + 32 : ((c >= 0x410) & (c <= 0x42f)) ? c + 32 : ((c >= 0x400) & (c <= 0x40f)) ? c + 80 : c; }
int sym_main(int argc, char** argv) {
    int mode = atoi(argv[1]), lo = atoi(argv[2]), hi = atoi(argv[3]);
    int a = sym_int("a", lo, hi), b = sym_int("b", lo, hi), x = sym_int("x", lo, hi);
    sym_assume(a <= b);
    int ux = up(x), dx = down(x);
    if (mode == 0) {
        util::unicode u;
        symbol_set s = symbol_set(range<int>(a, b + 1));
        symbol_set us = u.to_upper(s), ds = u.to_lower(s);
        // x is in the upper case of s exactly when some character of s has x as its upper case
        bool inx = (a <= x) & (x <= b), ind = (a <= dx) & (dx <= b), inu = (a <= ux) & (ux <= b);
        sym_assert(sim::in_set(us, x) == ((ux == x) & (inx | ind)), "upper case of a range");
        sym_assert(sim::in_set(ds, x) == ((dx == x) & (inx | inu)), "lower case of a range");
    } else {
        ndfa_regex n;
        n.set_case_insensitive(true);
        symbol_string r;
        int s[2];
        if (mode == 1) { b = a; r += a; n.add_literal(0, r, accept_action(1)); }
        else if (mode == 2) { r += '['; r += a; r += '-'; r += b; r += ']'; }
        if (mode == 2) n.add_regex(0, r, accept_action(1));
        unsigned acc[2]; s[0] = x;
        sim::run(n, 0, s, 1, acc);
        bool want = ((a <= x) & (x <= b)) | ((a <= ux) & (ux <= b)) | ((a <= dx) & (dx <= b));
        sym_assert((acc[1] != 0) == want, "case insensitive: a character matches exactly the characters that differ in case only");
        ndfa_regex m;
        if (mode == 1) m.add_literal(0, r, accept_action(1)); else m.add_regex(0, r, accept_action(1));
        sim::run(m, 0, s, 1, acc);
        sym_assert((acc[1] != 0) == ((a <= x) & (x <= b)), "case sensitive: exact characters only");
    }
    sym_reach("end");
    return 0;
}

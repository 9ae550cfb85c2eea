// Symbol sets behave as mathematical sets of non-negative symbols, whatever ranges they are built from and in whatever order.
//   args: mode na nb      mode 0 build, 1 binary operations, 2 order and equality, 3 ranges
#include <cstdlib>
#include "sym.h"
#include "TameParse/Dfa/symbol_set.h"
#include "TameParse/Dfa/range.h"
using namespace dfa;
static const int MAX = 0x7fffffff;

struct spec { int n, lo[6], hi[6]; bool has(int x) const { bool r = false; for (int i = 0; i < n; ++i) r = r | ((lo[i] <= x) & (x < hi[i])); return r; } };
static spec ranges(const char* nm, int n) {
    spec s; s.n = n;
    for (int i = 0; i < n; ++i) { s.lo[i] = sym_int(nm, 0, MAX - 1); s.hi[i] = sym_int(nm, 1, MAX); sym_assume(s.lo[i] < s.hi[i]); }
    return s;
}
static symbol_set build(const spec& s, bool reverse = false) {
    symbol_set r;
    for (int i = 0; i < s.n; ++i) { int k = reverse ? s.n - 1 - i : i; r |= range<int>(s.lo[k], s.hi[k]); }
    return r;
}
// the ranges are non-empty, ordered and cannot be merged with each other
static void canonical(const symbol_set& s, const char* id) {
    int last = -1; bool ok = true;
    for (symbol_set::iterator i = s.begin(); i != s.end(); ++i) { ok = ok & (i->lower() < i->upper()) & (i->lower() > last); last = i->upper(); }
    sym_assert(ok, id);
}
int sym_main(int argc, char** argv) {
    int mode = atoi(argv[1]), na = atoi(argv[2]), nb = atoi(argv[3]);
    if (mode == 0) {
        spec a = ranges("a", na);
        symbol_set s = build(a);
        canonical(s, "ranges are ordered, disjoint and maximal");
        int x = sym_int("x", 0, MAX);
        bool in = s[x];
        sym_assert(in == a.has(x), "union contains exactly the symbols of its ranges");
        sym_assert(s.empty() == (na == 0), "empty");
        symbol_set r = build(a, true);
        sym_assert((r == s) & !(r != s) & !(r < s) & !(s < r) & (r <= s) & (r >= s), "the set does not depend on the order of insertion");
        symbol_set c(s); symbol_set* d = s.clone();
        sym_assert((c == s) & (*d == s), "copies are equal");
        delete d;
    } else if (mode == 1) {
        spec a = ranges("a", na), b = ranges("b", nb);
        symbol_set A = build(a), B = build(b);
        int op = sym_split(sym_int("op", 0, 6), 0, 6);
        int x = sym_int("x", 0, MAX - 1);
        bool ia = a.has(x), ib = b.has(x);
        bool got, want; symbol_set R;
        switch (op) {
        case 0: R = A | B; want = ia | ib; break;
        case 1: R = A & B; want = ia & ib; break;
        case 2: R = A.excluding(B); want = ia & !ib; break;
        case 3: R = ~A; want = !ia; break;
        case 4: R = nb > 0 ? A.excluding(range<int>(b.lo[0], b.hi[0])) : A; want = nb > 0 ? ia & !((b.lo[0] <= x) & (x < b.hi[0])) : ia; break;
        case 5: R = nb > 0 ? A & range<int>(b.lo[0], b.hi[0]) : A; want = nb > 0 ? ia & ((b.lo[0] <= x) & (x < b.hi[0])) : ia; break;
        default: R = ~~A; want = ia; sym_assert(R == A, "double complement is the same set"); break;
        }
        got = R[x];
        sym_assert(got == want, "the result of a set operation contains exactly the right symbols");
        canonical(R, "ranges are ordered, disjoint and maximal after an operation");
        sym_assert(A[x] == ia, "operands are not changed");
        sym_assert(B[x] == ib, "operands are not changed");
    } else if (mode == 2) {
        spec a = ranges("a", na), b = ranges("b", nb);
        symbol_set A = build(a), B = build(b);
        int x = sym_int("x", 0, MAX - 1);
        bool eq = A == B, lt = A < B, gt = B < A;
        sym_assert((int) eq + (int) lt + (int) gt == 1, "exactly one of <, ==, > holds");
        sym_assert(((A != B) == !eq) & ((A <= B) == (lt | eq)) & ((A > B) == gt) & ((A >= B) == (gt | eq)), "comparison operators agree");
        sym_assert(!eq | (a.has(x) == b.has(x)), "equal sets contain the same symbols");
        sym_assert(symbol_set::compare(&A, &B) == lt, "compare agrees with <");
        int nc = argc > 4 ? atoi(argv[4]) : 1;
        spec c = ranges("c", nc); symbol_set C = build(c);
        sym_assert(!(lt && B < C) || A < C, "< is transitive");
        sym_assert(!(eq && B == C) || A == C, "== is transitive");
    } else {
        int al = sym_int("al", 0, MAX - 1), ah = sym_int("ah", 1, MAX), bl = sym_int("bl", 0, MAX - 1), bh = sym_int("bh", 1, MAX), x = sym_int("x", 0, MAX);
        sym_assume((al < ah) & (bl < bh));
        range<int> a(al, ah), b(bl, bh);
        bool ia = (al <= x) & (x < ah), ib = (bl <= x) & (x < bh);
        sym_assert(a[x] == ia, "membership");
        sym_assert(a.overlaps(b) == ((al < bh) & (bl < ah)), "overlaps");
        sym_assert(a.neighbours(b) == ((ah == bl) | (bh == al)), "neighbours");
        sym_assert(a.can_merge(b) == ((al <= bh) & (bl <= ah)), "can_merge");
        if (a.can_merge(b)) { range<int> m = a.merge(b); sym_assert(m[x] == (ia | ib), "merge"); }
        bool eq = (al == bl) & (ah == bh), lt = (al < bl) | ((al == bl) & (ah < bh));
        sym_assert((a == b) == eq, "=="); sym_assert((a != b) == !eq, "!="); sym_assert((a < b) == lt, "<"); sym_assert((a <= b) == (lt | eq), "<=");
        sym_assert((a > b) == !(lt | eq), ">"); sym_assert((a >= b) == !lt, ">=");
    }
    sym_reach("end");
    return 0;
}

// symrt: runtime of the symbolic execution engine. Expressions, memory shadow, path condition, Z3 and the fork explorer.
//
//   <program> OUTDIR workers deadline_s fuel max_violations [harness args...]
#include <z3.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <atomic>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/uio.h>
#include <execinfo.h>
#include <sys/resource.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum { OP_CONST=0, OP_VAR=1, OP_ADD=2, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_AND, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR,
       OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE, OP_ITE, OP_CONCAT, OP_EXTRACT, OP_ZEXT, OP_SEXT,
       OP_NE=64, OP_UGT, OP_UGE, OP_SGT, OP_SGE };

struct Expr {
    u8 op, w; u32 hash;
    u64 c;                  // const value / var index / extract low bit
    Expr* k[3];
    Z3_ast z;
    u64 lo, hi;             // unsigned interval
    i64 slo, shi;           // signed interval
    Z3_ast zi; bool noInt;  // integer encoding (signed value), where exact
    u64 stamp, val;         // evaluation memo
    Expr* next;
};

extern "C" {
    void* __sym_args[64]; void* __sym_arg_fn; void* __sym_ret[16]; i64 __sym_fuel = 1000000000;
    extern u8 __sym_fnhit[]; extern const u32 __sym_nfns;
    int sym_main(int argc, char** argv);
}

// ---------------------------------------------------------------- shared state
struct ReachSlot { char name[56]; std::atomic<u64> n; };
struct Shared {
    std::atomic<int> tokens; std::atomic<int> stop; std::atomic<int> timedout;
    std::atomic<u64> paths, killed, forks, queries, sat, unsat, unknown, solver_ns, asserts, asserts_solver, asserts_const, violations, concretized, truncated, crashes, hangs, extptr, inputs_max, pathsym, qmax_ns, abnormal, propagated;
    std::atomic<int> lock;
    ReachSlot reach[256];
    char ext[64][96]; std::atomic<int> next_ext;
    u8 fnhit[200000];
};
static Shared* S;
static std::string outdir; static double deadline; static u64 maxviol; static int nworkers;
static bool started = false; static bool holdToken = true;
[[noreturn]] static void quit(int code) { if (holdToken && S) S->tokens++; _exit(code); }
 static i64 fuel0;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static inline u64 mask(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, int w) { return w >= 64 ? (i64) v : ((i64) (v << (64 - w))) >> (64 - w); }

// ---------------------------------------------------------------- expressions
static const size_t HB = 1 << 16;
static Expr* htab[HB];
static char* arena; static size_t arenaLeft;
static Expr* alloc() {
    if (arenaLeft < sizeof(Expr)) { arena = (char*) mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); arenaLeft = 1 << 20; }
    Expr* e = (Expr*) arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr); return e;
}
struct Var { std::string name; int w; u64 lo, hi; i64 slo, shi; u64 dom, base; bool small, coupled; };
static std::vector<Var> vars; static std::vector<u64> model; static u64 modelStamp = 1;

static u64 evalOp(int op, int w, u64 a, u64 b, int kw) {
    // kw = width of the operands
    switch (op) {
    case OP_ADD: return (a + b) & mask(w); case OP_SUB: return (a - b) & mask(w); case OP_MUL: return (a * b) & mask(w);
    case OP_UDIV: return b ? a / b : mask(w);
    case OP_UREM: return b ? a % b : a;
    case OP_SDIV: { i64 x = sx(a, kw), y = sx(b, kw); if (!y) return x < 0 ? 1 : mask(w); if (y == -1) return (0 - a) & mask(w); return (u64) (x / y) & mask(w); }
    case OP_SREM: { i64 x = sx(a, kw), y = sx(b, kw); if (!y) return a; if (y == -1) return 0; return (u64) (x % y) & mask(w); }
    case OP_AND: return a & b; case OP_OR: return a | b; case OP_XOR: return a ^ b;
    case OP_SHL: return b >= (u64) w ? 0 : (a << b) & mask(w); case OP_LSHR: return b >= (u64) w ? 0 : a >> b;
    case OP_ASHR: return (u64) (sx(a, w) >> (b >= (u64) w ? w - 1 : b)) & mask(w);
    case OP_EQ: return a == b; case OP_ULT: return a < b; case OP_ULE: return a <= b;
    case OP_SLT: return sx(a, kw) < sx(b, kw); case OP_SLE: return sx(a, kw) <= sx(b, kw);
    }
    abort();
}
static void interval(Expr* e) {
    u64 m = mask(e->w); e->lo = 0; e->hi = m;
    Expr *a = e->k[0], *b = e->k[1];
    switch (e->op) {
    case OP_CONST: e->lo = e->hi = e->c; break;
    case OP_VAR: e->lo = vars[e->c].lo; e->hi = vars[e->c].hi; break;
    case OP_ZEXT: e->lo = a->lo; e->hi = a->hi; break;
    case OP_SEXT: if (a->hi < (1ull << (a->w - 1))) { e->lo = a->lo; e->hi = a->hi; } break;
    case OP_ADD: { unsigned __int128 l = (unsigned __int128) a->lo + b->lo, h = (unsigned __int128) a->hi + b->hi; if (h <= m) { e->lo = l; e->hi = h; } else if (l > m) { e->lo = (u64) (l & m); e->hi = (u64) (h & m); if (e->lo > e->hi) { e->lo = 0; e->hi = m; } } break; }
    case OP_SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
    case OP_MUL: { unsigned __int128 h = (unsigned __int128) a->hi * b->hi; if (h <= m) { e->lo = a->lo * b->lo; e->hi = h; } break; }
    case OP_AND: e->hi = a->hi < b->hi ? a->hi : b->hi; break;
    case OP_OR: { e->lo = a->lo > b->lo ? a->lo : b->lo; u64 h = a->hi | b->hi; while (h & (h + 1)) h |= h >> 1; e->hi = h & m; break; }
    case OP_XOR: { u64 h = a->hi | b->hi; while (h & (h + 1)) h |= h >> 1; e->hi = h & m; break; }
    case OP_UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
    case OP_UREM: if (b->lo > 0) { e->hi = b->hi - 1; if (a->hi < e->hi) e->hi = a->hi; if (a->hi < b->lo) { e->lo = a->lo; e->hi = a->hi; } } break;
    case OP_SHL: if (b->op == OP_CONST && b->c < e->w && a->hi <= (m >> b->c)) { e->lo = a->lo << b->c; e->hi = a->hi << b->c; } break;
    case OP_LSHR: if (b->op == OP_CONST && b->c < e->w) { e->lo = a->lo >> b->c; e->hi = a->hi >> b->c; } else e->hi = a->hi; break;
    case OP_ITE: { Expr *x = e->k[1], *y = e->k[2]; e->lo = x->lo < y->lo ? x->lo : y->lo; e->hi = x->hi > y->hi ? x->hi : y->hi; break; }
    case OP_EXTRACT: if (e->c == 0 && a->hi <= m) { e->lo = a->lo; e->hi = a->hi; } else if (e->c) { u64 l = a->lo >> e->c, h = a->hi >> e->c; if (h <= m) { e->lo = l; e->hi = h; } } break;
    case OP_CONCAT: e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; break;
    }
}
static void sinterval(Expr* e) {
    typedef __int128 L;
    i64 mn = e->w >= 64 ? INT64_MIN : -(i64) (1ull << (e->w - 1)), mx = e->w >= 64 ? INT64_MAX : (i64) ((1ull << (e->w - 1)) - 1);
    L lo = mn, hi = mx; Expr *a = e->k[0], *b = e->k[1];
    switch (e->op) {
    case OP_CONST: lo = hi = sx(e->c, e->w); break;
    case OP_VAR: lo = vars[e->c].slo; hi = vars[e->c].shi; break;
    case OP_ADD: lo = (L) a->slo + b->slo; hi = (L) a->shi + b->shi; break;
    case OP_SUB: lo = (L) a->slo - b->shi; hi = (L) a->shi - b->slo; break;
    case OP_MUL: if (b->op == OP_CONST) { L c = sx(b->c, b->w), x = a->slo * c, y = a->shi * c; lo = x < y ? x : y; hi = x < y ? y : x; } break;
    case OP_SHL: if (b->op == OP_CONST && b->c < 62) { L c = (L) 1 << b->c; lo = a->slo * c; hi = a->shi * c; } break;
    case OP_ZEXT: if (a->slo >= 0 && a->w > 1) { lo = a->slo; hi = a->shi; } else { lo = 0; hi = (L) mask(a->w); } break;
    case OP_SEXT: if (a->w > 1) { lo = a->slo; hi = a->shi; } break;
    case OP_EXTRACT: if (e->c == 0 && e->w > 1) { lo = a->slo; hi = a->shi; } break;
    case OP_ITE: lo = e->k[1]->slo < e->k[2]->slo ? e->k[1]->slo : e->k[2]->slo; hi = e->k[1]->shi > e->k[2]->shi ? e->k[1]->shi : e->k[2]->shi; break;
    }
    if (lo < mn || hi > mx) { lo = mn; hi = mx; }
    // combine with the unsigned interval
    if (e->w < 64 ? e->hi <= (u64) mx : e->hi <= (u64) INT64_MAX) { if ((L) e->lo > lo) lo = e->lo; if ((L) e->hi < hi) hi = e->hi; }
    e->slo = (i64) lo; e->shi = (i64) hi;
    if (e->slo >= 0) { if ((u64) e->slo > e->lo) e->lo = e->slo; if ((u64) e->shi < e->hi) e->hi = e->shi; }
}
static Expr* mk(int op, int w, u64 c, Expr* a = 0, Expr* b = 0, Expr* d = 0) {
    u64 h = op * 0x9E3779B97F4A7C15ull + w * 0x85EBCA6Bull + c * 0xC2B2AE3D27D4EB4Full + (u64) a * 0x165667B19E3779F9ull + (u64) b * 0x27D4EB2F165667C5ull + (u64) d * 31;
    h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    Expr** p = &htab[h & (HB - 1)];
    for (Expr* e = *p; e; e = e->next) if (e->op == op && e->w == w && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d) return e;
    Expr* e = alloc(); e->op = op; e->w = w; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->z = 0; e->stamp = 0; e->val = 0; e->next = *p; *p = e; e->zi = 0; e->noInt = false;
    interval(e); sinterval(e);
    return e;
}
static Expr* K(u64 v, int w) { return mk(OP_CONST, w, v & mask(w)); }
static Expr* extract(Expr* e, int lo, int w);
static Expr* zext(Expr* e, int w);
static Expr* ite(Expr* c, Expr* a, Expr* b);
static Expr* bin(int op, Expr* a, Expr* b);
static Expr* notb(Expr* a) { return bin(OP_XOR, a, K(1, 1)); }
static bool isC(Expr* e) { return e->op == OP_CONST; }
static bool isCmp(int op) { return op >= OP_EQ && op <= OP_SLE; }

// an unsigned bound on an expression: upper (v <= k) or lower (v >= k)
static bool bound(Expr* e, Expr*& v, bool& up, u64& k) {
    if (e->op == OP_ULE || e->op == OP_ULT) {
        if (isC(e->k[1])) { v = e->k[0]; up = true; k = e->k[1]->c - (e->op == OP_ULT); return true; }
        if (isC(e->k[0])) { v = e->k[1]; up = false; k = e->k[0]->c + (e->op == OP_ULT); return true; }
    }
    return false;
}
// x AND y / x OR y for two bounds of the same expression; 0 if they do not combine
static Expr* joinBounds(bool conj, Expr* x, Expr* y) {
    Expr *v1, *v2; bool u1, u2; u64 k1, k2;
    if (!bound(x, v1, u1, k1) || !bound(y, v2, u2, k2) || v1 != v2) return 0;
    if (u1 == u2) return ((k1 < k2) == (u1 == conj)) ? x : y;
    u64 up = u1 ? k1 : k2, low = u1 ? k2 : k1;
    if (conj) return up < low ? K(0, 1) : 0;
    return (up >= low || up + 1 == low) ? K(1, 1) : 0;
}
static Expr* bin(int op, Expr* a, Expr* b) {
    switch (op) {
    case OP_NE: return notb(bin(OP_EQ, a, b));
    case OP_UGT: return bin(OP_ULT, b, a); case OP_UGE: return bin(OP_ULE, b, a);
    case OP_SGT: return bin(OP_SLT, b, a); case OP_SGE: return bin(OP_SLE, b, a);
    }
    int kw = a->w, w = isCmp(op) ? 1 : a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
    if (isC(a) && isC(b)) return K(evalOp(op, w, a->c, b->c, kw), w);
    bool comm = op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR || op == OP_EQ;
    if (comm && isC(a)) { Expr* t = a; a = b; b = t; }
    else if (comm && !isC(b) && a > b) { Expr* t = a; a = b; b = t; }
    u64 m = mask(kw);
    // distribute over ITE with constant leaves
    if (isC(b) && a->op == OP_ITE && (isC(a->k[1]) || isC(a->k[2]))) {
        bool both = isC(a->k[1]) && isC(a->k[2]);
        if (both || isCmp(op)) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
    }
    if (isC(a) && b->op == OP_ITE && (isC(b->k[1]) || isC(b->k[2])) && isCmp(op)) return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
    switch (op) {
    case OP_ADD:
        if (isC(b) && b->c == 0) return a;
        if (isC(b) && a->op == OP_ADD && isC(a->k[1])) return bin(OP_ADD, a->k[0], K(a->k[1]->c + b->c, kw));
        if (!isC(b) && a->op == OP_ADD && isC(a->k[1])) return bin(OP_ADD, bin(OP_ADD, a->k[0], b), a->k[1]);
        if (b->op == OP_ADD && isC(b->k[1])) return bin(OP_ADD, bin(OP_ADD, a, b->k[0]), b->k[1]);
        break;
    case OP_SUB:
        if (a == b) return K(0, w);
        if (isC(b)) return bin(OP_ADD, a, K(0 - b->c, kw));
        break;
    case OP_MUL:
        if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; if (!(b->c & (b->c - 1))) return bin(OP_SHL, a, K(__builtin_ctzll(b->c), kw)); }
        break;
    case OP_AND:
        if (a == b) return a;
        if (isC(b)) { if (b->c == 0) return b; if (b->c == m) return a;
            if (a->hi <= b->c && !(b->c & (b->c + 1))) return a;
            if (a->op == OP_ZEXT && !(b->c & ~mask(a->k[0]->w))) return zext(bin(OP_AND, a->k[0], K(b->c, a->k[0]->w)), w);
            if (a->op == OP_AND && isC(a->k[1])) return bin(OP_AND, a->k[0], K(a->k[1]->c & b->c, kw)); }
        if (w == 1 && ((a->op == OP_XOR && isC(a->k[1]) && a->k[0] == b) || (b->op == OP_XOR && isC(b->k[1]) && b->k[0] == a))) return K(0, 1);
        if (w == 1) {
            if (Expr* j = joinBounds(true, a, b)) return j;
            for (int i = 0; i < 2; ++i) { Expr *p = i ? a : b, *q = i ? b : a; if (p->op == OP_AND) for (int k = 0; k < 2; ++k) { if (p->k[k] == q) return p; if (Expr* j = joinBounds(true, p->k[k], q)) return bin(OP_AND, j, p->k[1 - k]); } }
        }
        break;
    case OP_OR:
        if (a == b) return a;
        if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
        if (w == 1 && ((a->op == OP_XOR && isC(a->k[1]) && a->k[0] == b) || (b->op == OP_XOR && isC(b->k[1]) && b->k[0] == a))) return K(1, 1);
        if (w == 1) {
            if (Expr* j = joinBounds(false, a, b)) return j;
            for (int i = 0; i < 2; ++i) { Expr *p = i ? a : b, *q = i ? b : a; if (p->op == OP_OR) for (int k = 0; k < 2; ++k) { if (p->k[k] == q) return p; if (Expr* j = joinBounds(false, p->k[k], q)) return bin(OP_OR, j, p->k[1 - k]); } }
        }
        break;
    case OP_XOR:
        if (a == b) return K(0, w);
        if (isC(b)) { if (b->c == 0) return a; if (a->op == OP_XOR && isC(a->k[1])) return bin(OP_XOR, a->k[0], K(a->k[1]->c ^ b->c, kw));
            if (w == 1) { // negate comparisons
                if (a->op == OP_ULT) return bin(OP_ULE, a->k[1], a->k[0]); if (a->op == OP_ULE) return bin(OP_ULT, a->k[1], a->k[0]);
                if (a->op == OP_SLT) return bin(OP_SLE, a->k[1], a->k[0]); if (a->op == OP_SLE) return bin(OP_SLT, a->k[1], a->k[0]);
                if (a->op == OP_ITE) return ite(a->k[0], notb(a->k[1]), notb(a->k[2]));
            } }
        break;
    case OP_SHL: case OP_LSHR: case OP_ASHR:
        if (isC(b) && b->c == 0) return a;
        if (isC(b) && b->c >= (u64) w && op != OP_ASHR) return K(0, w);
        if (op == OP_LSHR && isC(b) && a->op == OP_ZEXT && a->k[0]->w <= b->c) return K(0, w);
        if (op == OP_LSHR && isC(b) && (a->hi >> b->c) == 0) return K(0, w);
        if (op == OP_ASHR && a->hi < (1ull << (w - 1))) return bin(OP_LSHR, a, b);
        break;
    case OP_UDIV: if (isC(b) && b->c == 1) return a; if (isC(b) && b->c && !(b->c & (b->c - 1))) return bin(OP_LSHR, a, K(__builtin_ctzll(b->c), kw)); break;
    case OP_UREM: if (isC(b) && b->c && !(b->c & (b->c - 1))) return bin(OP_AND, a, K(b->c - 1, kw)); break;
    case OP_EQ:
        if (a == b) return K(1, 1);
        if (a->hi < b->lo || b->hi < a->lo) return K(0, 1);
        if (kw > 1 && (a->shi < b->slo || b->shi < a->slo)) return K(0, 1);
        if (kw == 1) { if (isC(b)) return b->c ? a : notb(a); }
        if (isC(b)) {
            if (a->op == OP_ZEXT) return b->c > mask(a->k[0]->w) ? K(0, 1) : bin(OP_EQ, a->k[0], K(b->c, a->k[0]->w));
            if (a->op == OP_SEXT) { u64 t = b->c & mask(a->k[0]->w); return ((u64) sx(t, a->k[0]->w) & m) != b->c ? K(0, 1) : bin(OP_EQ, a->k[0], K(t, a->k[0]->w)); }
            if (a->op == OP_ADD && isC(a->k[1])) return bin(OP_EQ, a->k[0], K(b->c - a->k[1]->c, kw));
            if (a->op == OP_XOR && isC(a->k[1])) return bin(OP_EQ, a->k[0], K(b->c ^ a->k[1]->c, kw));
            if (a->op == OP_CONCAT) return bin(OP_AND, bin(OP_EQ, a->k[0], K(b->c >> a->k[1]->w, a->k[0]->w)), bin(OP_EQ, a->k[1], K(b->c, a->k[1]->w)));
        } else if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->k[0]->w == b->k[0]->w) return bin(OP_EQ, a->k[0], b->k[0]);
        else if (a->op == OP_SEXT && b->op == OP_SEXT && a->k[0]->w == b->k[0]->w) return bin(OP_EQ, a->k[0], b->k[0]);
        break;
    case OP_ULT:
        if (a == b) return K(0, 1);
        if (a->hi < b->lo) return K(1, 1); if (a->lo >= b->hi) return K(0, 1);
        if (isC(b) && b->c == 1) return bin(OP_EQ, a, K(0, kw));
        if (a->op == OP_ZEXT && isC(b) && b->c <= mask(a->k[0]->w)) return bin(op, a->k[0], K(b->c, a->k[0]->w));
        if (b->op == OP_ZEXT && isC(a) && a->c <= mask(b->k[0]->w)) return bin(op, K(a->c, b->k[0]->w), b->k[0]);
        if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->k[0]->w == b->k[0]->w) return bin(op, a->k[0], b->k[0]);
        break;
    case OP_ULE:
        if (a == b) return K(1, 1);
        if (a->hi <= b->lo) return K(1, 1); if (a->lo > b->hi) return K(0, 1);
        if (a->op == OP_ZEXT && isC(b) && b->c <= mask(a->k[0]->w)) return bin(op, a->k[0], K(b->c, a->k[0]->w));
        if (b->op == OP_ZEXT && isC(a) && a->c <= mask(b->k[0]->w)) return bin(op, K(a->c, b->k[0]->w), b->k[0]);
        if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->k[0]->w == b->k[0]->w) return bin(op, a->k[0], b->k[0]);
        break;
    case OP_SLT: case OP_SLE: {
        if (kw > 1) { if (op == OP_SLT) { if (a->shi < b->slo) return K(1, 1); if (a->slo >= b->shi) return K(0, 1); } else { if (a->shi <= b->slo) return K(1, 1); if (a->slo > b->shi) return K(0, 1); } }
        if (a == b) return K(op == OP_SLE, 1);
        u64 half = 1ull << (kw - 1);
        if (kw > 1 && a->hi < half && b->hi < half) return bin(op == OP_SLT ? OP_ULT : OP_ULE, a, b);
        if (kw > 1 && a->hi < half && b->lo >= half) return K(0, 1);
        if (kw > 1 && a->lo >= half && b->hi < half) return K(1, 1);
        if (a->op == OP_SEXT && b->op == OP_SEXT && a->k[0]->w == b->k[0]->w) return bin(op, a->k[0], b->k[0]);
        if (a->op == OP_SEXT && isC(b) && (((u64) sx(b->c & mask(a->k[0]->w), a->k[0]->w)) & m) == b->c) return bin(op, a->k[0], K(b->c, a->k[0]->w));
        if (b->op == OP_SEXT && isC(a) && (((u64) sx(a->c & mask(b->k[0]->w), b->k[0]->w)) & m) == a->c) return bin(op, K(a->c, b->k[0]->w), b->k[0]);
        break; }
    }
    Expr* r = mk(op, w, 0, a, b);
    if (r->lo == r->hi) return K(r->lo, w);
    return r;
}
static Expr* ite(Expr* c, Expr* a, Expr* b) {
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == OP_XOR && isC(c->k[1])) return ite(c->k[0], b, a);
    if (a->op == OP_ITE && a->k[0] == c) return ite(c, a->k[1], b);
    if (b->op == OP_ITE && b->k[0] == c) return ite(c, a, b->k[2]);
    if (b->op == OP_ITE && b->k[1] == a) if (Expr* j = joinBounds(false, c, b->k[0])) return ite(j, a, b->k[2]);
    if (a->w == 1) {
        if (isC(a) && isC(b)) return a->c ? c : notb(c);
        if (isC(a)) return a->c ? bin(OP_OR, c, b) : bin(OP_AND, notb(c), b);
        if (isC(b)) return b->c ? bin(OP_OR, notb(c), a) : bin(OP_AND, c, a);
    }
    return mk(OP_ITE, a->w, 0, c, a, b);
}
static Expr* zext(Expr* e, int w) {
    if (e->w == w) return e;
    if (isC(e)) return K(e->c, w);
    if (e->op == OP_ZEXT) return zext(e->k[0], w);
    if (e->op == OP_ITE && isC(e->k[1]) && isC(e->k[2])) return ite(e->k[0], K(e->k[1]->c, w), K(e->k[2]->c, w));
    return mk(OP_ZEXT, w, 0, e);
}
static Expr* sext(Expr* e, int w) {
    if (e->w == w) return e;
    if (isC(e)) return K((u64) sx(e->c, e->w), w);
    if (e->op == OP_ZEXT) return zext(e->k[0], w);
    if (e->op == OP_SEXT) return sext(e->k[0], w);
    if (e->w > 1 && e->hi < (1ull << (e->w - 1))) return zext(e, w);
    if (e->op == OP_ITE && isC(e->k[1]) && isC(e->k[2])) return ite(e->k[0], sext(e->k[1], w), sext(e->k[2], w));
    return mk(OP_SEXT, w, 0, e);
}
static Expr* extract(Expr* e, int lo, int w) {
    if (lo == 0 && w == e->w) return e;
    if (isC(e)) return K(e->c >> lo, w);
    switch (e->op) {
    case OP_EXTRACT: return extract(e->k[0], lo + e->c, w);
    case OP_ZEXT: if (lo >= e->k[0]->w) return K(0, w); if (lo + w <= e->k[0]->w) return extract(e->k[0], lo, w); if (lo == 0) return zext(e->k[0], w); return zext(extract(e->k[0], lo, e->k[0]->w - lo), w);
    case OP_SEXT: if (lo + w <= e->k[0]->w) return extract(e->k[0], lo, w); if (lo == 0) return sext(e->k[0], w); break;
    case OP_CONCAT: if (lo + w <= e->k[1]->w) return extract(e->k[1], lo, w); if (lo >= e->k[1]->w) return extract(e->k[0], lo - e->k[1]->w, w); break;
    case OP_ITE: if (isC(e->k[1]) || isC(e->k[2])) return ite(e->k[0], extract(e->k[1], lo, w), extract(e->k[2], lo, w)); break;
    case OP_AND: case OP_OR: case OP_XOR: if (isC(e->k[1])) return bin(e->op, extract(e->k[0], lo, w), K(e->k[1]->c >> lo, w)); break;
    case OP_ADD: case OP_MUL: case OP_SUB: if (lo == 0) return bin(e->op, extract(e->k[0], 0, w), extract(e->k[1], 0, w)); break;
    }
    Expr* r = mk(OP_EXTRACT, w, lo, e);
    if (r->lo == r->hi) return K(r->lo, w);
    return r;
}
static Expr* concat(Expr* hi, Expr* lo) {
    int w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return K((hi->c << lo->w) | lo->c, w);
    if (isC(hi) && hi->c == 0) return zext(lo, w);
    if (hi->op == OP_EXTRACT && lo->op == OP_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return extract(hi->k[0], lo->c, w);
    return mk(OP_CONCAT, w, 0, hi, lo);
}
static u64 eval(Expr* e) {
    if (e->op == OP_CONST) return e->c;
    if (e->stamp == modelStamp) return e->val;
    u64 r;
    switch (e->op) {
    case OP_VAR: r = model[e->c]; break;
    case OP_ITE: r = eval(e->k[0]) ? eval(e->k[1]) : eval(e->k[2]); break;
    case OP_CONCAT: r = (eval(e->k[0]) << e->k[1]->w) | eval(e->k[1]); break;
    case OP_EXTRACT: r = (eval(e->k[0]) >> e->c) & mask(e->w); break;
    case OP_ZEXT: r = eval(e->k[0]); break;
    case OP_SEXT: r = (u64) sx(eval(e->k[0]), e->k[0]->w) & mask(e->w); break;
    default: r = evalOp(e->op, e->w, eval(e->k[0]), eval(e->k[1]), e->k[0]->w);
    }
    e->stamp = modelStamp; e->val = r; return r;
}

// ---------------------------------------------------------------- Z3
static Z3_context zc; static Z3_solver zs; static std::vector<Z3_ast> zvars;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(97); }
static Z3_sort bvs(int w) { return Z3_mk_bv_sort(zc, w); }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(zc, a); return a; }
static Z3_ast tr(Expr* e);
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(zc, b, Z3_mk_unsigned_int64(zc, 1, bvs(1)), Z3_mk_unsigned_int64(zc, 0, bvs(1))); }
static Z3_ast trv(Expr* e) { return e->w == 1 ? b2v(tr(e)) : tr(e); } // as a bit-vector
static Z3_ast tr(Expr* e) {
    // Width 1 is Bool, everything else a bit-vector
    if (e->z) return e->z;
    Z3_ast r = 0; Expr *a = e->k[0], *b = e->k[1];
    switch (e->op) {
    case OP_CONST: r = e->w == 1 ? (e->c ? Z3_mk_true(zc) : Z3_mk_false(zc)) : Z3_mk_unsigned_int64(zc, e->c, bvs(e->w)); break;
    case OP_VAR: r = zvars[e->c]; break;
    case OP_ITE: r = Z3_mk_ite(zc, tr(a), tr(b), tr(e->k[2])); break;
    case OP_CONCAT: r = Z3_mk_concat(zc, trv(a), trv(b)); break;
    case OP_EXTRACT: r = Z3_mk_extract(zc, e->c + e->w - 1, e->c, trv(a)); if (e->w == 1) r = Z3_mk_eq(zc, r, Z3_mk_unsigned_int64(zc, 1, bvs(1))); break;
    case OP_ZEXT: r = a->w == 1 ? Z3_mk_ite(zc, tr(a), Z3_mk_unsigned_int64(zc, 1, bvs(e->w)), Z3_mk_unsigned_int64(zc, 0, bvs(e->w))) : Z3_mk_zero_ext(zc, e->w - a->w, tr(a)); break;
    case OP_SEXT: r = Z3_mk_sign_ext(zc, e->w - a->w, trv(a)); break;
    case OP_EQ: r = Z3_mk_eq(zc, tr(a), tr(b)); break;
    case OP_ULT: r = Z3_mk_bvult(zc, trv(a), trv(b)); break; case OP_ULE: r = Z3_mk_bvule(zc, trv(a), trv(b)); break;
    case OP_SLT: r = Z3_mk_bvslt(zc, trv(a), trv(b)); break; case OP_SLE: r = Z3_mk_bvsle(zc, trv(a), trv(b)); break;
    default:
        if (e->w == 1 && (e->op == OP_AND || e->op == OP_OR || e->op == OP_XOR)) {
            if (e->op == OP_XOR) r = (isC(b) && b->c == 1) ? Z3_mk_not(zc, tr(a)) : Z3_mk_xor(zc, tr(a), tr(b));
            else { Z3_ast l[2] = { tr(a), tr(b) }; r = e->op == OP_AND ? Z3_mk_and(zc, 2, l) : Z3_mk_or(zc, 2, l); }
            break;
        }
        Z3_ast x = trv(a), y = trv(b);
        switch (e->op) {
        case OP_ADD: r = Z3_mk_bvadd(zc, x, y); break; case OP_SUB: r = Z3_mk_bvsub(zc, x, y); break; case OP_MUL: r = Z3_mk_bvmul(zc, x, y); break;
        case OP_UDIV: r = Z3_mk_bvudiv(zc, x, y); break; case OP_SDIV: r = Z3_mk_bvsdiv(zc, x, y); break;
        case OP_UREM: r = Z3_mk_bvurem(zc, x, y); break; case OP_SREM: r = Z3_mk_bvsrem(zc, x, y); break;
        case OP_AND: r = Z3_mk_bvand(zc, x, y); break; case OP_OR: r = Z3_mk_bvor(zc, x, y); break; case OP_XOR: r = Z3_mk_bvxor(zc, x, y); break;
        case OP_SHL: r = Z3_mk_bvshl(zc, x, y); break; case OP_LSHR: r = Z3_mk_bvlshr(zc, x, y); break; case OP_ASHR: r = Z3_mk_bvashr(zc, x, y); break;
        default: abort();
        }
        if (e->w == 1) r = Z3_mk_eq(zc, r, Z3_mk_unsigned_int64(zc, 1, bvs(1)));
    }
    e->z = keep(r);
    return r;
}
// ---- integer encoding: the signed value of an expression, only where no operation can wrap
static Z3_solver zsi; static std::vector<Z3_ast> zivars; static Z3_sort zint;
static Z3_ast knum(i64 v) { return Z3_mk_int64(zc, v, zint); }
static Z3_ast ti(Expr* e) {
    if (e->zi) return e->zi;
    if (e->noInt) return 0;
    Z3_ast r = 0; Expr *a = e->k[0], *b = e->k[1];
    typedef __int128 L;
    i64 mn = e->w >= 64 ? INT64_MIN : -(i64) (1ull << (e->w - 1)), mx = e->w >= 64 ? INT64_MAX : (i64) ((1ull << (e->w - 1)) - 1);
    auto fits = [&](L lo, L hi) { return lo >= mn && hi <= mx; };
    auto two = [&](Z3_ast (*f)(Z3_context, unsigned, Z3_ast const[])) -> Z3_ast { Z3_ast x = ti(a), y = x ? ti(b) : 0; if (!x || !y) return 0; Z3_ast l[2] = { x, y }; return f(zc, 2, l); };
    switch (e->op) {
    case OP_CONST: r = e->w == 1 ? (e->c ? Z3_mk_true(zc) : Z3_mk_false(zc)) : knum(sx(e->c, e->w)); break;
    case OP_VAR: r = e->w == 1 ? 0 : zivars[e->c]; break;
    case OP_ITE: { Z3_ast c = ti(a), x = c ? ti(b) : 0, y = x ? ti(e->k[2]) : 0; if (y) r = Z3_mk_ite(zc, c, x, y); break; }
    case OP_AND: if (e->w == 1) r = two(Z3_mk_and); break;
    case OP_OR: if (e->w == 1) r = two(Z3_mk_or); break;
    case OP_XOR: if (e->w == 1) { Z3_ast x = ti(a), y = x ? ti(b) : 0; if (y) r = (isC(b) && b->c == 1) ? Z3_mk_not(zc, x) : Z3_mk_xor(zc, x, y); } break;
    case OP_ADD: if (e->w > 1 && fits((L) a->slo + b->slo, (L) a->shi + b->shi)) r = two(Z3_mk_add); break;
    case OP_SUB: if (e->w > 1 && fits((L) a->slo - b->shi, (L) a->shi - b->slo)) r = two(Z3_mk_sub); break;
    case OP_MUL: if (e->w > 1 && isC(b)) { L c = sx(b->c, b->w), x = a->slo * c, y = a->shi * c; if (fits(x < y ? x : y, x < y ? y : x)) r = two(Z3_mk_mul); } break;
    case OP_SHL: if (e->w > 1 && isC(b) && b->c < 62) { L c = (L) 1 << b->c; if (fits(a->slo * c, a->shi * c)) { Z3_ast x = ti(a); if (x) { Z3_ast l[2] = { x, knum(1ll << b->c) }; r = Z3_mk_mul(zc, 2, l); } } } break;
    case OP_ZEXT: if (a->w == 1) { Z3_ast x = ti(a); if (x) r = Z3_mk_ite(zc, x, knum(1), knum(0)); } else if (a->slo >= 0) r = ti(a); break;
    case OP_SEXT: if (a->w > 1) r = ti(a); break;
    case OP_EXTRACT: if (e->c == 0 && e->w > 1 && a->slo >= mn && a->shi <= mx) r = ti(a); break;
    case OP_EQ: { Z3_ast x = ti(a), y = x ? ti(b) : 0; if (y) r = Z3_mk_eq(zc, x, y); break; }
    case OP_SLT: case OP_SLE: if (a->w > 1) { Z3_ast x = ti(a), y = x ? ti(b) : 0; if (y) r = e->op == OP_SLT ? Z3_mk_lt(zc, x, y) : Z3_mk_le(zc, x, y); } break;
    case OP_ULT: case OP_ULE: if (a->w > 1) {
        Z3_ast x = ti(a), y = x ? ti(b) : 0;
        if (y) {
            Z3_ast c = e->op == OP_ULT ? Z3_mk_lt(zc, x, y) : Z3_mk_le(zc, x, y);
            Z3_ast xn = Z3_mk_lt(zc, x, knum(0)), yn = Z3_mk_lt(zc, y, knum(0));
            if (a->slo >= 0 && b->slo >= 0) r = c;
            else if (b->slo >= 0) { Z3_ast l[2] = { Z3_mk_not(zc, xn), c }; r = Z3_mk_and(zc, 2, l); }
            else if (a->slo >= 0) { Z3_ast l[2] = { yn, c }; r = Z3_mk_or(zc, 2, l); }
            else r = Z3_mk_ite(zc, Z3_mk_eq(zc, xn, yn), c, yn);
        } break; }
    }
    if (!r) { e->noInt = true; return 0; }
    e->zi = keep(r); return r;
}
static void initZ3() {
    if (zc) return;
    Z3_config cfg = Z3_mk_config();
    zc = Z3_mk_context(cfg);
    Z3_set_error_handler(zc, zerr);
    zs = Z3_mk_simple_solver(zc);
    Z3_solver_inc_ref(zc, zs);
    zsi = Z3_mk_simple_solver(zc);
    Z3_solver_inc_ref(zc, zsi);
    zint = Z3_mk_int_sort(zc); Z3_inc_ref(zc, Z3_sort_to_ast(zc, zint));
    Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p);
    Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), 200000000);
    Z3_solver_set_params(zc, zs, p);
    Z3_solver_set_params(zc, zsi, p);
}
static std::unordered_map<Expr*, bool> known;  // facts implied by the path condition
static void learn(Expr* c, bool v) {
    known[c] = v;
    if (c->op == OP_XOR && c->w == 1 && isC(c->k[1])) learn(c->k[0], !v);
    else if (v && c->op == OP_AND) { learn(c->k[0], true); learn(c->k[1], true); }
    else if (!v && c->op == OP_OR) { learn(c->k[0], false); learn(c->k[1], false); }
}
static std::vector<Expr*> pc;                   // the path condition
static size_t bvDone = 0;                       // how much of it the bit-vector solver has
static bool pcAllInt = true;                    // every conjunct has an exact integer encoding
// Domain propagation: which values of a variable of at most 64 values the conjuncts over that variable alone leave. A branch condition over
// a few such variables that is the same for all combinations of them is implied by the path condition; one that is not is open if no other
// conjunct relates these variables to anything.
static const u64 MANY = ~0ull;
static std::unordered_map<Expr*, u64> supports;     // the variables of an expression (at most 4, as 16 bit fields of index + 1), or MANY
static u64 join(u64 a, u64 b) {
    if (a == MANY || b == MANY) return MANY;
    for (; b; b >>= 16) {
        bool in = false; int n = 0; for (u64 x = a; x; x >>= 16) { in |= (x & 0xffff) == (b & 0xffff); ++n; }
        if (!in) { if (n == 4) return MANY; a |= (b & 0xffff) << (16 * n); }
    }
    return a;
}
static u64 support(Expr* e) {
    if (e->op == OP_CONST) return 0;
    if (e->op == OP_VAR) return e->c < 65000 ? e->c + 1 : MANY;
    auto it = supports.find(e); if (it != supports.end()) return it->second;
    u64 r = 0;
    for (int i = 0; i < 3 && e->k[i] && r != MANY; ++i) r = join(r, support(e->k[i]));
    supports[e] = r; return r;
}
static u64 holds(Expr* c, Var& v, int id) {         // the values of the domain that satisfy c
    u64 r = 0, save = model[id];
    for (int i = 0; i < 64; ++i) if (v.dom >> i & 1) { model[id] = (v.base + i) & mask(v.w); ++modelStamp; if (eval(c)) r |= 1ull << i; }
    model[id] = save; ++modelStamp; return r;
}
static std::unordered_map<Expr*, bool> coupledDone;
static void couple(Expr* e) {
    if (e->op == OP_VAR) { vars[e->c].coupled = true; return; }
    if (e->op == OP_CONST || !coupledDone.emplace(e, true).second) return;
    for (int i = 0; i < 3 && e->k[i]; ++i) couple(e->k[i]);
}
static int propagate(Expr* c, std::vector<u64>* nm) {   // 1 and 0 as for query, -1 if it does not decide
    u64 sup = support(c); if (!sup || sup == MANY) return -1;
    int id[4], n = 0; u64 combos = 1; bool coupled = false;
    for (u64 x = sup; x; x >>= 16) {
        id[n] = (int) (x & 0xffff) - 1; Var& v = vars[id[n]]; if (!v.small) return -1;
        combos *= __builtin_popcountll(v.dom); coupled |= v.coupled; if (combos > 256) return -1;
        ++n;
    }
    u64 save[4], left[4]; bool any = false;
    for (int k = 0; k < n; ++k) { save[k] = model[id[k]]; left[k] = vars[id[k]].dom; }
    for (;;) {
        for (int k = 0; k < n; ++k) { Var& v = vars[id[k]]; model[id[k]] = (v.base + __builtin_ctzll(left[k])) & mask(v.w); }
        ++modelStamp;
        if (eval(c)) { any = true; break; }
        int k = 0; for (; k < n; ++k) { left[k] &= left[k] - 1; if (left[k]) break; left[k] = vars[id[k]].dom; }
        if (k == n) break;
    }
    if (any && !coupled && nm) *nm = model;
    for (int k = 0; k < n; ++k) model[id[k]] = save[k];
    ++modelStamp;
    if (any && coupled) return -1;
    S->propagated++;
    return any;
}
static void addPC(Expr* c) {
    pc.push_back(c); learn(c, true);
    u64 sup = support(c); int id = (int) (sup & 0xffff) - 1;
    if (sup && !(sup >> 16) && vars[id].small) vars[id].dom = holds(c, vars[id], id); else couple(c);
    if (Z3_ast i = ti(c)) Z3_solver_assert(zc, zsi, i); else pcAllInt = false;
}
static void checkStop() {
    if (S->stop.load(std::memory_order_relaxed)) quit(0);
    if (now() > deadline) { S->timedout = 1; S->stop = 1; quit(0); }
}
static void readModel(Z3_solver s, std::vector<Z3_ast>& zv, std::vector<u64>& nm) {
    Z3_model m = Z3_solver_get_model(zc, s); Z3_model_inc_ref(zc, m);
    nm.assign(vars.size(), 0);
    for (size_t i = 0; i < vars.size(); ++i) {
        Z3_ast o; u64 v = 0; int64_t sv = 0;
        if (zv[i] && Z3_model_eval(zc, m, zv[i], true, &o)) {
            Z3_inc_ref(zc, o);
            if (Z3_get_numeral_uint64(zc, o, &v)) {} else if (Z3_get_numeral_int64(zc, o, &sv)) v = (u64) sv;
            Z3_dec_ref(zc, o);
        }
        nm[i] = v & mask(vars[i].w);
    }
    Z3_model_dec_ref(zc, m);
}
static Z3_lbool solve(Z3_solver s, Z3_ast c, std::vector<Z3_ast>& zv, std::vector<u64>* nm) {
    double t0 = now();
    Z3_solver_push(zc, s);
    Z3_solver_assert(zc, s, c);
    Z3_lbool r = Z3_solver_check(zc, s);
    if (r == Z3_L_TRUE && nm) readModel(s, zv, *nm);
    Z3_solver_pop(zc, s, 1);
    u64 ns = (u64) ((now() - t0) * 1e9);
    S->queries++; S->solver_ns += ns;
    u64 q = S->qmax_ns; while (ns > q && !S->qmax_ns.compare_exchange_weak(q, ns)) {}
    return r;
}
static void setModel(const std::vector<u64>& m);
// 1 sat (nm filled), 0 unsat, -1 unknown
static int query(Expr* c, std::vector<u64>* nm) {
    checkStop();
    std::vector<u64> tmp; if (!nm) nm = &tmp;
    if (Z3_ast i = ti(c)) {
        Z3_lbool r = solve(zsi, i, zivars, nm);
        if (r == Z3_L_FALSE) { S->unsat++; return 0; }      // unsat under a subset of the path condition
        if (r == Z3_L_TRUE) {
            bool ok = pcAllInt;
            if (!ok) {
                // does the candidate satisfy the rest of the path condition?
                std::vector<u64> save = model; setModel(*nm);
                ok = eval(c); for (size_t k = 0; k < pc.size() && ok; ++k) ok = eval(pc[k]);
                setModel(save);
            }
            if (ok) { S->sat++; return 1; }
        }
    }
    for (; bvDone < pc.size(); ++bvDone) Z3_solver_assert(zc, zs, tr(pc[bvDone]));
    Z3_lbool r = solve(zs, tr(c), zvars, nm);
    if (r == Z3_L_TRUE) { S->sat++; return 1; }
    if (r == Z3_L_FALSE) { S->unsat++; return 0; }
    S->unknown++; return -1;
}
static void setModel(const std::vector<u64>& m) { model = m; ++modelStamp; }
static int feasible(Expr* c, std::vector<u64>* nm) { int r = propagate(c, nm); if (r >= 0) { checkStop(); return r; } return query(c, nm); }

// ---------------------------------------------------------------- processes
static void flushHits() { u32 n = __sym_nfns < sizeof(S->fnhit) ? __sym_nfns : sizeof(S->fnhit); for (u32 i = 0; i < n; ++i) if (__sym_fnhit[i] && !S->fnhit[i]) S->fnhit[i] = 1; }
static void endPath() { flushHits(); fflush(stdout); quit(0); }
static bool takeToken() { int t = S->tokens; while (t > 0) if (S->tokens.compare_exchange_weak(t, t - 1)) return true; return false; }
// returns true in the child
static void noteStatus(int st) {
    if ((WIFSIGNALED(st)) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3)) { S->abnormal++; fprintf(stderr, "abnormal child status %x\n", st); }
}
static int forkLog = 0; extern "C" char __executable_start;
static bool forkPath() {
    checkStop();
    S->forks++;
    if (forkLog) { void* bt[24]; int n = backtrace(bt, 24); char l[1024]; int k = 0; for (int i = 2; i < n && k < 900; ++i) k += sprintf(l + k, "%lx ", (long) bt[i] - (long) &__executable_start); l[k++] = '\n'; if (write(forkLog, l, k)) {} }
    fflush(stdout); fflush(stderr);
    bool par = takeToken();
    pid_t p = -1;
    for (int i = 0; i < 200 && p < 0; ++i) { p = fork(); if (p < 0) usleep(20000); }
    if (p < 0) { perror("fork"); S->truncated++; if (par) S->tokens++; return false; }
    if (p == 0) { holdToken = par; return true; }
    if (par) {
        // reap whatever has already ended so zombies do not pile up
        int st; pid_t q;
        while ((q = waitpid(-1, &st, WNOHANG)) > 0) { noteStatus(st); }
    } else {
        int st;
        for (;;) {
            pid_t q = waitpid(-1, &st, 0);
            if (q < 0) { if (errno == EINTR) continue; break; }
            noteStatus(st);
            if (q == p) break;
        }
    }
    return false;
}
// Parallel children that outlive their parent are adopted by the root process; a token is returned by its holder when it ends.

static void writeCE(const char* kind, const char* id, const std::vector<u64>& m) {
    u64 n = S->violations++;
    if (n < maxviol) {
        // no allocation: the path may have used up its memory
        static char f[4096], t[4096], line[512]; snprintf(f, sizeof f, "%s/ce_%llu.txt", outdir.c_str(), (unsigned long long) n); snprintf(t, sizeof t, "%s.tmp", f);
        int o = open(t, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (o >= 0) {
            bool ok = true; auto put = [&](int k) { ok = ok && write(o, line, k) == k; };
            put(snprintf(line, sizeof line, "kind %s\nid %.400s\n", kind, id));
            for (size_t i = 0; i < vars.size(); ++i) put(snprintf(line, sizeof line, "v %.400s %d %lld\n", vars[i].name.c_str(), vars[i].w, (long long) sx(m[i], vars[i].w)));
            close(o); if (ok) rename(t, f);
        }
    }
    if (n + 1 >= maxviol) S->stop = 1;
}

extern "C" {
int __sym_branch(Expr* c) {
    if (isC(c)) return c->c;
    auto it = known.find(c);
    if (it != known.end()) return it->second;
    bool mv = eval(c);
    Expr* other = mv ? notb(c) : c;
    std::vector<u64> nm;
    int r = feasible(other, &nm);
    if (r == 0) { learn(c, mv); return mv; }
    if (r < 0) { S->truncated++; addPC(mv ? c : notb(c)); return mv; }   // undecided: counted, never reported as complete
    if (forkPath()) { setModel(nm); addPC(other); return !mv; }
    addPC(mv ? c : notb(c));
    return mv;
}
static void dump(FILE* o, Expr* e, int d) {
    static const char* nm[] = {"const"};
    if (isC(e)) { fprintf(o, "%lld", (long long) sx(e->c, e->w)); return; }
    if (e->op == OP_VAR) { fprintf(o, "%s", vars[e->c].name.c_str()); return; }
    if (d <= 0) { fprintf(o, "..."); return; }
    fprintf(o, "(op%d:%d", e->op, e->w); if (e->op == OP_EXTRACT) fprintf(o, "@%d", (int) e->c);
    for (int i = 0; i < 3 && e->k[i]; ++i) { fprintf(o, " "); dump(o, e->k[i], d - 1); } fprintf(o, ")");
}
extern "C" u64 __sym_concretize(Expr* e, u32 w) {
    static bool dbg = getenv("SYM_CONCLOG");
    if (dbg && !isC(e)) { dump(stderr, e, 8); fprintf(stderr, "\n"); }
    if (isC(e)) return e->c;
    S->concretized++;
    for (int n = 0;; ++n) {
        u64 v = eval(e);
        Expr* is = bin(OP_EQ, e, K(v, e->w));
        auto it = known.find(is);
        if (isC(is) || (it != known.end() && it->second)) return v;
        Expr* ne = notb(is);
        std::vector<u64> nm;
        int r = feasible(ne, &nm);
        if (r == 0) { learn(is, true); return v; }
        if (r < 0) { S->truncated++; addPC(is); return v; }
        if (n > 5000) { S->truncated++; addPC(is); return v; }
        // child takes this value, the parent goes on to the others
        if (forkPath()) { addPC(is); return v; }
        setModel(nm); addPC(ne);
    }
}
Expr* __sym_lift(Expr* e, u64 v, u32 w) { return e ? e : K(v, w); }
Expr* __sym_bin(u32 op, u32 w, Expr* a, Expr* b, u64 ca, u64 cb) {
    if (!a) a = K(ca, w); if (!b) b = K(cb, w);
    Expr* r = bin(op, a, b);
    return r;   // may be constant: still a valid shadow
}
Expr* __sym_cast(u32 op, u32 w, Expr* a) { return op == OP_EXTRACT ? extract(a, 0, w) : op == OP_SEXT ? sext(a, w) : zext(a, w); }
Expr* __sym_ite(u32 w, Expr* c, Expr* a, Expr* b, u64 ca, u64 cb) {
    if (!a) a = K(ca, w); if (!b) b = K(cb, w);
    return ite(c, a, b);
}
Expr* __sym_gep(Expr* base, Expr* idx, u64 ci, u32 w, u64 scale) {
    Expr* i = idx ? sext(idx, 64) : K(ci, 64);
    return bin(OP_ADD, base, bin(OP_MUL, i, K(scale, 64)));
}
Expr* __sym_input_expr(const char* name, u32 w, u64 lo, u64 hi) {
    initZ3();
    Var v; v.name = name; v.w = w; v.lo = 0; v.hi = mask(w);
    i64 slo = (i64) lo, shi = (i64) hi;
    if (slo >= 0) { v.lo = lo; v.hi = hi; }
    i64 smx = w >= 64 ? INT64_MAX : (i64) ((1ull << (w - 1)) - 1);
    if (slo >= 0 && hi > (u64) smx) { v.slo = -smx - 1; v.shi = smx; } else { v.slo = slo; v.shi = shi; }
    v.small = shi >= slo && (u64) (shi - slo) < 64; v.coupled = false; v.base = lo; v.dom = v.small ? ((u64) (shi - slo) == 63 ? ~0ull : (1ull << (shi - slo + 1)) - 1) : 0;
    u32 id = vars.size();
    vars.push_back(v);
    if (vars.size() > S->inputs_max) S->inputs_max = vars.size();
    std::string zn = "v" + std::to_string(id);
    zvars.push_back(keep(Z3_mk_const(zc, Z3_mk_string_symbol(zc, zn.c_str()), w == 1 ? Z3_mk_bool_sort(zc) : bvs(w))));
    zivars.push_back(w == 1 ? 0 : keep(Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("i" + zn).c_str()), zint)));
    if (w > 1) { Z3_solver_assert(zc, zsi, Z3_mk_ge(zc, zivars[id], knum(v.slo))); Z3_solver_assert(zc, zsi, Z3_mk_le(zc, zivars[id], knum(v.shi))); }
    model.push_back(lo & mask(w)); ++modelStamp;
    Expr* e = mk(OP_VAR, w, id);
    // The range is part of the path condition (asserted without the interval simplifications)
    if (slo >= 0) {
        if (lo > 0) Z3_solver_assert(zc, zs, Z3_mk_bvuge(zc, zvars[id], Z3_mk_unsigned_int64(zc, lo, bvs(w))));
        if (hi < mask(w)) Z3_solver_assert(zc, zs, Z3_mk_bvule(zc, zvars[id], Z3_mk_unsigned_int64(zc, hi, bvs(w))));
    } else {
        Z3_solver_assert(zc, zs, Z3_mk_bvsle(zc, Z3_mk_unsigned_int64(zc, lo & mask(w), bvs(w)), zvars[id])); Z3_solver_assert(zc, zs, Z3_mk_bvsle(zc, zvars[id], Z3_mk_unsigned_int64(zc, hi & mask(w), bvs(w))));
    }
    if (v.lo == v.hi) return K(v.lo, 64);
    return zext(e, 64);     // the call returns a zero extended 64 bit value
}
void __sym_assume_rt(Expr* c, u64 v) {
    if (!c) { if (!(v & 1)) { S->killed++; endPath(); } return; }
    c = c->w == 1 ? c : notb(bin(OP_EQ, c, K(0, c->w)));
    if (isC(c)) { if (!c->c) { S->killed++; endPath(); } return; }
    if (!eval(c)) {
        std::vector<u64> nm; int r = feasible(c, &nm);
        if (r == 0) { S->killed++; endPath(); }
        if (r < 0) { S->truncated++; endPath(); }
        setModel(nm);
    }
    addPC(c);
}
void __sym_assert_rt(Expr* c, u64 v, const char* id) {
    S->asserts++;
    if (c) c = c->w == 1 ? c : notb(bin(OP_EQ, c, K(0, c->w)));
    if (!c || isC(c)) {
        bool ok = c ? c->c : (v & 1);
        S->asserts_const++;
        if (!ok) { writeCE("assert", id, model); endPath(); }
        return;
    }
    auto it = known.find(c);
    if (it != known.end()) { S->asserts_const++; if (!it->second) { writeCE("assert", id, model); endPath(); } return; }
    S->asserts_solver++;
    if (!eval(c)) {
        writeCE("assert", id, model);
    } else {
        std::vector<u64> nm; int r = query(notb(c), &nm);
        if (r == 0) { learn(c, true); return; }
        if (r > 0) writeCE("assert", id, nm); else { S->truncated++; }
    }
    // carry on where it holds
    if (!eval(c)) { std::vector<u64> nm; int r = query(c, &nm); if (r <= 0) endPath(); setModel(nm); }
    addPC(c);
}
void __sym_reach(const char* name) {
    for (auto& r : S->reach) {
        if (!r.name[0]) {
            int e = 0; while (!S->lock.compare_exchange_weak(e, 1)) e = 0;
            if (!r.name[0]) { strncpy(r.name, name, sizeof(r.name) - 1); }
            S->lock = 0;
        }
        if (!strncmp(r.name, name, sizeof(r.name) - 1)) { r.n++; return; }
    }
}
void __sym_out_of_fuel() {
    S->hangs++; writeCE("hang", "fuel exhausted", model); endPath();
}
void __sym_refuel() { __sym_fuel = fuel0; }
int __sym_replaying() { return 0; }
static int live_count;
void __sym_count(void* p, int64_t d) { if (p) live_count += (int) d; }
int __sym_live() { return live_count; }
void __sym_note(const char* s) { fprintf(stderr, "note: %s\n", s); }
void __sym_dump() { for (size_t i = 0; i < vars.size(); ++i) fprintf(stderr, "%s=%lld ", vars[i].name.c_str(), (long long) sx(model[i], vars[i].w)); fprintf(stderr, "\n"); }

// ---------------------------------------------------------------- memory shadow
}
struct Page { u64 cell[4096]; u32 n; };     // cell: expr pointer | byte index << 56
struct Ent { u64 page; Page* p; };
static const u32 PT = 1 << 14; static Ent ptab[PT]; static u32 npages;
static inline Page* findPage(u64 pg) {
    u32 h = (u32) ((pg * 0x9E3779B97F4A7C15ull) >> 50);
    while (ptab[h].p) { if (ptab[h].page == pg) return ptab[h].p; h = (h + 1) & (PT - 1); }
    return 0;
}
static Page* getPage(u64 pg) {
    Page* p = findPage(pg); if (p) return p;
    if (npages > PT / 2) { fprintf(stderr, "page table full\n"); _exit(96); }
    u32 h = (u32) ((pg * 0x9E3779B97F4A7C15ull) >> 50);
    while (ptab[h].p) h = (h + 1) & (PT - 1);
    p = (Page*) mmap(0, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ptab[h].page = pg; ptab[h].p = p; ++npages;
    return p;
}
static inline u64 cellAt(u64 a) { Page* p = findPage(a >> 12); return p ? p->cell[a & 4095] : 0; }
static void setCell(u64 a, u64 c) {
    Page* p = c ? getPage(a >> 12) : findPage(a >> 12);
    if (!p) return;
    u64& o = p->cell[a & 4095];
    if (!o && c) ++p->n; else if (o && !c) --p->n;
    o = c;
}
static Expr* byteOf(u64 cell) { Expr* e = (Expr*) (cell & 0x00ffffffffffffffull); int i = cell >> 56; return extract(e, i * 8, 8); }
extern "C" {
Expr* __sym_load(u8* ptr, u32 sz, u32 w) {
    u64 a = (u64) ptr;
    Page* p = findPage(a >> 12);
    if ((a & 4095) + sz <= 4096) {
        if (!p || !p->n) return 0;
        u64* c = &p->cell[a & 4095];
        u64 any = 0; for (u32 i = 0; i < sz; ++i) any |= c[i];
        if (!any) return 0;
    } else {
        u64 any = 0; for (u32 i = 0; i < sz; ++i) any |= cellAt(a + i);
        if (!any) return 0;
    }
    u64 c0 = cellAt(a);
    Expr* r = 0;
    if (c0 && (c0 >> 56) == 0) {
        Expr* e = (Expr*) (c0 & 0x00ffffffffffffffull); bool same = e->w == sz * 8 || (e->w < 8 && sz == 1);
        for (u32 i = 1; i < sz && same; ++i) if (cellAt(a + i) != (c0 | ((u64) i << 56))) same = false;
        if (same) r = e;
    }
    if (!r) {
        for (u32 i = 0; i < sz; ++i) { u64 c = cellAt(a + i); Expr* b = c ? byteOf(c) : K(ptr[i], 8); r = r ? concat(b, r) : b; }
    }
    if (r->w > w) r = extract(r, 0, w); else if (r->w < w) r = zext(r, w);
    return r;
}
void __sym_clear(u8* ptr, u64 n) {
    if (!npages || !n) return;
    u64 a = (u64) ptr, e = a + n;
    while (a < e) {
        u64 pe = (a | 4095) + 1; if (pe > e) pe = e;
        Page* p = findPage(a >> 12);
        if (p && p->n) for (u64 x = a; x < pe; ++x) { u64& o = p->cell[x & 4095]; if (o) { o = 0; --p->n; } }
        a = pe;
    }
}
void __sym_store(u8* ptr, u32 sz, Expr* e, u32 w) {
    if (!e) { __sym_clear(ptr, sz); return; }
    if (isC(e)) { __sym_clear(ptr, sz); u64 v = e->c; memcpy(ptr, &v, sz); return; }
    if (w < sz * 8) e = zext(e, sz * 8);
    for (u32 i = 0; i < sz; ++i) setCell((u64) ptr + i, (u64) e | ((u64) i << 56));
}
void __sym_memmove(u8* d, u8* s, u64 n) {
    if (!npages || d == s) return;
    std::vector<std::pair<u64, u64>> c;
    u64 a = (u64) s, e = a + n;
    while (a < e) {
        u64 pe = (a | 4095) + 1; if (pe > e) pe = e;
        Page* p = findPage(a >> 12);
        if (p && p->n) for (u64 x = a; x < pe; ++x) if (p->cell[x & 4095]) c.push_back({x - (u64) s, p->cell[x & 4095]});
        a = pe;
    }
    __sym_clear(d, n);
    for (auto& x : c) setCell((u64) d + x.first, x.second);
}
void __sym_memset(u8* d, Expr* v, u64 n) {
    if (!v) { __sym_clear(d, n); return; }
    if (isC(v)) { fprintf(stderr, "memset const expr\n"); }
    Expr* b = extract(v, 0, 8);
    for (u64 i = 0; i < n; ++i) setCell((u64) d + i, (u64) b);
}
void* __sym_realloc(void* p, u64 n) {
    if (!p) { void* r = malloc(n); __sym_clear((u8*) r, n); return r; }
    u64 old = *((u64*) p - 1) & ~7ull; old = old > 8 ? old - 8 : 0; // glibc chunk size
    void* r = malloc(n); u64 m = old < n ? old : n;
    memcpy(r, p, m); __sym_clear((u8*) r, n); __sym_memmove((u8*) r, (u8*) p, m); free(p); return r;
}
void __sym_concretize_mem(u8* p, u64 n) {
    for (u64 i = 0; i < n; ++i) { u64 c = cellAt((u64) p + i); if (c) { p[i] = (u8) __sym_concretize(byteOf(c), 8); setCell((u64) p + i, 0); } }
}
}
// The leaves of an ITE tree of constants (a table of pointers indexed by a symbolic value); false if it is something else
static bool iteLeaves(Expr* e, int& budget, std::unordered_map<Expr*, int>& seen) {
    if (--budget < 0) return false;
    if (isC(e)) return true;
    if (e->op != OP_ITE) return false;
    if (seen.count(e)) return true;
    seen[e] = 1;
    return iteLeaves(e->k[1], budget, seen) && iteLeaves(e->k[2], budget, seen);
}
static bool isIteTree(Expr* e) { int b = 4096; std::unordered_map<Expr*, int> seen; return e->op == OP_ITE && iteLeaves(e, b, seen); }
extern "C" Expr* __sym_load(u8* ptr, u32 sz, u32 w);
// The value loaded at leaf + off for every leaf that can occur; 0 where the leaf is not an address and cannot occur; sets bad where it can
static Expr* iteLoad(Expr* tree, Expr* e, u64 off, u64 sz, std::unordered_map<Expr*, Expr*>& memo, bool& bad) {
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    Expr* r = 0;
    if (isC(e)) {
        u64 p = e->c + off;
        u8 buf[16]; iovec li = {buf, sz}, ri = {(void*) p, sz};
        if (p < 65536 || p >= (1ull << 47) || process_vm_readv(getpid(), &li, 1, &ri, 1, 0) != (ssize_t) sz) { Expr* is = bin(OP_EQ, tree, e); bool can; if (isC(is)) can = is->c; else { auto k = known.find(is); can = k != known.end() ? k->second : feasible(is, 0) != 0; } if (can) bad = true; }
        else { r = __sym_load((u8*) p, sz, sz * 8); if (!r) { u64 t = 0; memcpy(&t, (void*) p, sz); r = K(t, sz * 8); } }
    } else {
        Expr* a = iteLoad(tree, e->k[1], off, sz, memo, bad); if (bad) return 0;
        Expr* b = iteLoad(tree, e->k[2], off, sz, memo, bad); if (bad) return 0;
        r = !a ? b : !b ? a : ite(e->k[0], a, b);
    }
    memo[e] = r;
    return r;
}
extern "C" {
// A symbolic load address: enumerate its feasible range, and return an ITE over the cells when that is small enough
u8* __sym_load_addr(Expr* a, u64 sz, Expr** out) {
    *out = 0;
    if (isC(a)) return (u8*) a->c;
    {
        // a table of pointers: load through each of them
        Expr* t = a; u64 off = 0;
        if (t->op == OP_ADD && isC(t->k[1])) { off = t->k[1]->c; t = t->k[0]; }
        while (t->op == OP_ITE && !isIteTree(t)) {
            // one of several objects: decide which
            t = __sym_branch(t->k[0]) ? t->k[1] : t->k[2];
            a = bin(OP_ADD, t, K(off, 64)); if (isC(a)) return (u8*) a->c;
            t = a; off = 0;
            if (t->op == OP_ADD && isC(t->k[1])) { off = t->k[1]->c; t = t->k[0]; }
        }
        if (isIteTree(t)) {
            std::unordered_map<Expr*, Expr*> memo; bool bad = false;
            Expr* r = iteLoad(t, t, off, sz, memo, bad);
            if (!bad && r) { *out = r; u64 v = eval(a); return (u8*) (v < 65536 ? a->hi : v); }
        } else if (t->op == OP_ADD) {
            // one of several arrays: choose the array, then index it
            for (int i = 0; i < 2; ++i) if (isIteTree(t->k[i])) { u64 b = __sym_concretize(t->k[i], 64); a = bin(OP_ADD, t->k[1 - i], K(b + off, 64)); if (isC(a)) return (u8*) a->c; break; }
        }
    }
    u64 lo = a->lo, hi = a->hi;
    // stride: a = base + (x << k)
    u64 stride = 1;
    Expr* x = a; if (x->op == OP_ADD && isC(x->k[1])) x = x->k[0];
    if (x->op == OP_SHL && isC(x->k[1])) stride = 1ull << x->k[1]->c;
    else if (x->op == OP_MUL && isC(x->k[1])) stride = x->k[1]->c;
    if (hi - lo <= 65536 && stride >= 1 && lo > 4096) {
        // tighten with the solver, in steps of the stride (a = lo + k * stride for every value it can have)
        auto feas = [&](u64 l, u64 h) { Expr* c = bin(OP_AND, bin(OP_ULE, K(l, 64), a), bin(OP_ULE, a, K(h, 64))); if (isC(c)) return (bool) c->c; if (eval(c)) return true; return feasible(c, 0) != 0; };
        if (!feas(lo, lo)) { u64 l = 1, h = (eval(a) - lo) / stride; while (l < h) { u64 m = l + (h - l) / 2; if (feas(lo + l * stride, lo + m * stride)) h = m; else l = m + 1; } lo += l * stride; }
        hi = lo + (hi - lo) / stride * stride;
        if (!feas(hi, hi)) { u64 l = (eval(a) - lo) / stride, h = (hi - lo) / stride - 1; while (l < h) { u64 m = l + (h - l) / 2; if (feas(lo + (m + 1) * stride, lo + h * stride)) l = m + 1; else h = m; } hi = lo + l * stride; }
        if ((hi - lo) / stride <= 1024) {
            u64 base = lo; bool ok = true;
            // group runs of equal contents
            Expr* r = 0;
            struct Run { u64 s, e; Expr* v; }; std::vector<Run> runs;
            for (u64 p = base; p <= hi; p += stride) {
                Expr* v = __sym_load((u8*) p, sz, sz * 8);
                if (!v) { u64 t = 0; memcpy(&t, (void*) p, sz); v = K(t, sz * 8); }
                if (!runs.empty() && runs.back().v == v) runs.back().e = p; else runs.push_back({p, p, v});
            }
            if (ok) {
                // most frequent value last
                r = runs.back().v;
                for (size_t i = runs.size() - 1; i-- > 0;) r = ite(bin(OP_ULE, a, K(runs[i].e + stride - 1, 64)), runs[i].v, r);
                *out = r;
                return (u8*) lo;
            }
        }
    }
    return (u8*) __sym_concretize(a, 64);
}
void __sym_ext_ptr(u8* p, const char* fn) {
    if (!npages || (u64) p < 4096) return;
    for (int i = 0; i < 8; ++i) if (cellAt((u64) p + i)) {
        S->extptr++;
        for (auto& x : S->ext) { if (!x[0]) { strncpy(x, fn, 95); break; } if (!strncmp(x, fn, 95)) break; }
        return;
    }
}
// Harness primitives that are only ever called through the instrumentation
u64 __sym_input(const char*, u32, u64 lo, u64) { return lo; }
void __sym_assume(int) {}
void __sym_assert(int, const char*) {}
}

static void onCrash(int sig) {
    S->crashes++;
    char b[64]; snprintf(b, sizeof b, "signal %d", sig);
    if (started) writeCE("crash", b, model);
    flushHits();
    quit(3);
}
static void jsonStr(FILE* o, const char* s) { fputc('"', o); for (; *s; ++s) { if (*s == '"' || *s == '\\') fputc('\\', o); fputc(*s, o); } fputc('"', o); }

int main(int argc, char** argv) {
    if (getenv("SYM_FORKLOG")) forkLog = open(getenv("SYM_FORKLOG"), O_WRONLY | O_CREAT | O_APPEND | O_TRUNC, 0644);
    if (argc < 6) { fprintf(stderr, "usage: OUTDIR workers deadline_s fuel maxviol [args]\n"); return 2; }
    outdir = argv[1]; nworkers = atoi(argv[2]); double t0 = now(); deadline = t0 + atof(argv[3]); fuel0 = atoll(argv[4]); maxviol = atoll(argv[5]);
    S = (Shared*) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S->tokens = nworkers - 1;
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_CHILD_SUBREAPER, 0);
        rlimit rl; rl.rlim_cur = rl.rlim_max = 6ull << 30; setrlimit(RLIMIT_AS, &rl);
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        stack_t ss; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, 0);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK;
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, 0);
        initZ3(); started = true; __sym_fuel = fuel0;
        int na = argc - 5; argv[5] = argv[0];
        int r = sym_main(na, argv + 5);
        if (r) { writeCE("exit", "nonzero result", model); }
        S->paths++; if (!pc.empty()) S->pathsym++;
        endPath();
    }
    int st; pid_t q; bool first = true;
    while (true) {
        q = waitpid(-1, &st, 0);
        if (q < 0) { if (errno == EINTR) continue; break; }
        if ((WIFSIGNALED(st)) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3)) { S->abnormal++; fprintf(stderr, "abnormal status %x\n", st); }
    }
    FILE* o = fopen((outdir + "/stats.json").c_str(), "w");
    fprintf(o, "{\n");
#define N(f) fprintf(o, " \"" #f "\": %llu,\n", (unsigned long long) S->f.load())
    N(paths); N(pathsym); N(killed); N(forks); N(queries); N(sat); N(unsat); N(unknown); N(solver_ns); N(qmax_ns); N(asserts); N(asserts_solver); N(asserts_const); N(violations); N(concretized); N(truncated); N(crashes); N(hangs); N(extptr); N(inputs_max); N(abnormal); N(propagated);
    fprintf(o, " \"timedout\": %d,\n \"stopped\": %d,\n \"wall\": %.3f,\n \"reach\": {", S->timedout.load(), S->stop.load(), now() - t0);
    bool f1 = true; for (auto& r : S->reach) if (r.name[0]) { if (!f1) fputc(',', o); f1 = false; jsonStr(o, r.name); fprintf(o, ": %llu", (unsigned long long) r.n.load()); }
    fprintf(o, "},\n \"ext\": ["); f1 = true; for (auto& x : S->ext) if (x[0]) { if (!f1) fputc(',', o); f1 = false; jsonStr(o, x); }
    fprintf(o, "],\n \"fnhit\": ["); f1 = true; for (u32 i = 0; i < __sym_nfns && i < sizeof(S->fnhit); ++i) if (S->fnhit[i]) { if (!f1) fputc(',', o); f1 = false; fprintf(o, "%u", i); }
    fprintf(o, "]\n}\n"); fclose(o);
    (void) first;
    return 0;
}

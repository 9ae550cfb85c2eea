// Harness API. The same harness is compiled twice: with clang + symtool for symbolic execution, and with g++ and
// replayrt.cpp to replay a counterexample against an ordinary build.
#ifndef SYM_H
#define SYM_H
#include <cstdint>
extern "C" {
    uint64_t __sym_input(const char* name, uint32_t bits, uint64_t lo, uint64_t hi);
    void __sym_assume(int c);
    void __sym_assert(int c, const char* id);
    void __sym_reach(const char* name);
    void __sym_refuel();
    int __sym_replaying();
    void __sym_note(const char*);
    int __sym_live();         // objects allocated and not yet deleted
    int sym_main(int argc, char** argv);
}
// An int with any value in [lo, hi]
static inline int sym_int(const char* name, int lo, int hi) { return (int) __sym_input(name, 32, (uint64_t) (int64_t) lo, (uint64_t) (int64_t) hi); }
static inline bool sym_bool(const char* name) { return (int) __sym_input(name, 8, 0, 1) & 1; }
#define sym_assume(c) __sym_assume((c) ? 1 : 0)
#define sym_assert(c, id) __sym_assert((c) ? 1 : 0, id)
#define sym_reach(l) __sym_reach(l)
// Case split: afterwards the value is concrete on each path
// (the counter is volatile so that the compiler does not give back an expression of x instead)
static inline __attribute__((noinline)) int sym_split(int x, int lo, int hi) { volatile int i = lo; for (; i < hi; i = i + 1) if (x == i) break; return i; }
#endif

// Native replay of a counterexample: the inputs come from the file, a failed assertion prints REPLAY-VIOLATION and exits 42
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <vector>
static int live;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) --live; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
static std::vector<std::pair<std::string, int64_t> > vals; static size_t pos;
extern "C" {
    int sym_main(int, char**);
    uint64_t __sym_input(const char* name, uint32_t bits, uint64_t lo, uint64_t hi) {
        if (pos >= vals.size()) return lo;
        if (vals[pos].first != name) { fprintf(stderr, "replay: expected input %s, got %s\n", vals[pos].first.c_str(), name); }
        uint64_t v = (uint64_t) vals[pos++].second;
        printf("  %s = %lld\n", name, (long long) v);
        return bits >= 64 ? v : v & ((1ull << bits) - 1);
    }
    void __sym_assume(int c) { if (!c) { printf("REPLAY-ASSUME-FAILED\n"); fflush(stdout); _Exit(41); } }
    void __sym_assert(int c, const char* id) { if (!c) { printf("REPLAY-VIOLATION %s\n", id); fflush(stdout); if (getenv("REPLAY_CONTINUE")) return; _Exit(42); } }
    void __sym_reach(const char*) {}
    void __sym_refuel() {}
    int __sym_live() { return live; }
    int __sym_replaying() { return 1; }
    void __sym_note(const char* s) { printf("  note: %s\n", s); }
}
int main(int argc, char** argv) {
    if (argc < 2) return 2;
    FILE* f = fopen(argv[1], "r"); if (!f) return 2;
    char line[512];
    while (fgets(line, sizeof line, f)) {
        std::string l(line); while (!l.empty() && l[l.size() - 1] <= ' ') l.erase(l.size() - 1);      // v NAME WIDTH VALUE (the name can have spaces)
        size_t b = l.rfind(' '), a = b == std::string::npos || b == 0 ? std::string::npos : l.rfind(' ', b - 1);
        if (l.compare(0, 2, "v ") == 0 && a != std::string::npos && a > 2) vals.push_back(std::make_pair(l.substr(2, a - 2), (int64_t) atoll(l.c_str() + b + 1)));
    }
    fclose(f);
    argv[1] = argv[0];
    int r = sym_main(argc - 1, argv + 1);
    printf("REPLAY-END %d\n", r);
    return r ? 43 : 0;
}

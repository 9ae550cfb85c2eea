// Memory/string functions that are executed symbolically (symtool redirects the calls of the instrumented program here)
#include <cstddef>
#include <cwchar>
extern "C" {
int symc_memcmp(const void* a, const void* b, size_t n) {
    const unsigned char *x = (const unsigned char*) a, *y = (const unsigned char*) b;
    for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int symc_bcmp(const void* a, const void* b, size_t n) {
    const unsigned char *x = (const unsigned char*) a, *y = (const unsigned char*) b;
    for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return 1;
    return 0;
}
size_t symc_strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int symc_strcmp(const char* a, const char* b) { for (;; ++a, ++b) { if (*a != *b) return (unsigned char) *a < (unsigned char) *b ? -1 : 1; if (!*a) return 0; } }
void* symc_memchr(const void* s, int c, size_t n) { const unsigned char* x = (const unsigned char*) s; for (size_t i = 0; i < n; ++i) if (x[i] == (unsigned char) c) return (void*) (x + i); return NULL; }
size_t symc_wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) ++n; return n; }
wchar_t* symc_wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
wchar_t* symc_wmemmove(wchar_t* d, const wchar_t* s, size_t n) { if (d < s) for (size_t i = 0; i < n; ++i) d[i] = s[i]; else for (size_t i = n; i-- > 0;) d[i] = s[i]; return d; }
wchar_t* symc_wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
int symc_wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
const wchar_t* symc_wmemchr(const wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] == c) return s + i; return NULL; }
}

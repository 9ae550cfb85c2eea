// Any byte sequence of length n, decoded: well formed UTF-8 gives exactly the UTF-16 characters it encodes, and decoding stops
// with an error at the first badly formed character.   args: nbytes mode(0 any bytes; otherwise the number of characters each of `mode` bytes)
#include <cstdlib>
#include <streambuf>
#include <istream>
#include "sym.h"
#include "TameParse/Util/utf8reader.h"

struct membuf : std::streambuf { membuf(char* b, int n) { setg(b, b, b + n); } };
int sym_main(int argc, char** argv) {
    int n = atoi(argv[1]);
    unsigned char b[16]; char raw[16];
    for (int i = 0; i < n; ++i) { b[i] = (unsigned char) sym_int("b", 0, 255); raw[i] = (char) b[i]; }
    membuf mb(raw, n);
    std::istream is(&mb);
    util::utf8reader r(&is);

    // Reference: the next character, according to the Unicode standard (table 3-7); surrogates and overlong forms are ill formed
    int pos = 0; bool bad = false;
    for (int step = 0; step < 2 * n + 2; ++step) {
        int want[2], nw = 0;
        bool eof = false;
        if (pos >= n) eof = true;
        else {
            unsigned c = b[pos];
            int len = c < 0x80 ? 1 : (c >= 0xc2 && c <= 0xdf) ? 2 : (c >= 0xe0 && c <= 0xef) ? 3 : (c >= 0xf0 && c <= 0xf4) ? 4 : 0;
            if (!len || pos + len > n) bad = true;
            else {
                unsigned u = len == 1 ? c : len == 2 ? c & 0x1f : len == 3 ? c & 0xf : c & 7;
                bool ok = true;
                for (int k = 1; k < len; ++k) { ok = ok & ((b[pos + k] & 0xc0) == 0x80); u = (u << 6) | (b[pos + k] & 0x3f); }
                if (len == 3) ok = ok & (u >= 0x800);
                if (len == 4) ok = ok & (u >= 0x10000) & (u < 0x110000);
                if (len == 3) sym_assume((u < 0xd800) | (u > 0xdfff));        // encoded surrogates: outside the claim
                if (!ok) bad = true;
                else if (u < 0x10000) { want[0] = (int) u; nw = 1; }
                else { want[0] = 0xd800 + ((u - 0x10000) >> 10); want[1] = 0xdc00 + ((u - 0x10000) & 0x3ff); nw = 2; }
            }
            pos += len;
        }
        if (eof || bad) {
            wchar_t ch = 0x1234;
            r.get(ch);
            sym_assert(!r.good(), "not good at the end of the input or after a badly formed character");
            sym_assert(ch == 0, "the target is 0 when there is no character");
            r.get(ch);
            sym_assert(!r.good(), "stays not good");
            sym_reach(bad ? "bad" : "end");
            return 0;
        }
        for (int k = 0; k < nw; ++k) {
            wchar_t ch = (wchar_t) sym_int("junk", 0, 255);                       // whatever the target held before must not matter
            r.get(ch);
            sym_assert(r.good(), "good while there are characters");
            sym_assert((int) ch == want[k], "the decoded character");
        }
        if (nw == 2) sym_reach("pair");
    }
    return 0;
}

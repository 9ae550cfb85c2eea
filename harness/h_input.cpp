// Reading from a string or a stream: the lexer sees every character exactly once, with its unsigned value, then the end of input.
//   args: n kind(0 string reader of char, 1 string reader of wchar_t, 2 istream of char, 3 istream of wchar_t)
#include <cstdlib>
#include <streambuf>
#include <istream>
#include <string>
#include "sym.h"
#include "TameParse/Util/stringreader.h"
#include "TameParse/Dfa/character_lexer.h"
using namespace dfa;

template<typename C> struct membuf : std::basic_streambuf<C> { membuf(C* b, int n) { this->setg(b, b, b + n); } };
int sym_main(int argc, char** argv) {
    int n = atoi(argv[1]), kind = atoi(argv[2]);
    int v[8]; char cb[9]; wchar_t wb[9]; std::string cs; std::wstring ws;
    bool wide = kind & 1;
    for (int i = 0; i < n; ++i) { v[i] = sym_int("c", 0, wide ? 0x10ffff : 255); cb[i] = (char) v[i]; wb[i] = (wchar_t) v[i]; if (wide) ws += wb[i]; else cs += cb[i]; }
    character_lexer cl;
    util::stringreader sr(cs); util::wstringreader wr(ws);
    membuf<char> mc(cb, n); membuf<wchar_t> mw(wb, n);
    std::basic_istream<char> ic(&mc); std::basic_istream<wchar_t> iw(&mw);
    lexeme_stream* ls = kind == 0 ? cl.create_stream_from<char>(sr) : kind == 1 ? cl.create_stream_from<wchar_t>(wr) : kind == 2 ? cl.create_stream_from(ic) : cl.create_stream_from(iw);
    for (int i = 0; i < n; ++i) {
        lexeme* l = NULL;
        (*ls) >> l;
        sym_assert(l != NULL, "every character of the source is read");
        sym_assert(l->content().size() == 1, "one character");
        sym_assert((l->content()[0] == v[i]) & (l->matched() == v[i]), "the character's unsigned value");
        delete l;
    }
    lexeme* l = NULL;
    (*ls) >> l;
    sym_assert(l == NULL, "the end of the input follows the last character");
    delete ls;
    sym_reach("end");
    return 0;
}

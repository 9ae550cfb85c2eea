// Positions. For every sequence of n characters cut into lexemes of any length: the position of each lexeme is the number of
// characters, line ends and characters since the last line end that precede it.   args: n
#include <cstdlib>
#include "sym.h"
#include "TameParse/Dfa/lexer.h"
#include "TameParse/Dfa/lexeme.h"
#include "TameParse/Dfa/character_lexer.h"
using namespace dfa;
// CR, LF, CR LF, VT, FF, NEL, LS and PS each end one line
static bool nl(int c) { return (c == 10) | (c == 11) | (c == 12) | (c == 13) | (c == 0x85) | (c == 0x2028) | (c == 0x2029); }
struct src : lexer_symbol_stream { const int* s; int p, n; src(const int* a, int k) : s(a), p(0), n(k) {} virtual lexer_symbol_stream& operator>>(int& r) { r = p < n ? s[p++] : (int) symbol_set::end_of_input; return *this; } };
int sym_main(int argc, char** argv) {
    int n = atoi(argv[1]), kind = argc > 2 ? atoi(argv[2]) : 0;
    int s[8];
    for (int i = 0; i < n; ++i) s[i] = sym_int("c", 0, 0x10ffff);
    // the positions before each character; only the column just before the LF of a CR LF is outside the claim
    int line[9], col[9]; bool mid[9];
    line[0] = col[0] = 0; mid[0] = false;
    for (int i = 0; i < n; ++i) {
        bool crlf = i > 0 && (s[i] == 10) & (s[i - 1] == 13);
        bool e = nl(s[i]) & !crlf;
        line[i + 1] = line[i] + (e ? 1 : 0);
        col[i + 1] = e ? 0 : crlf ? 0 : col[i] + 1;
        mid[i + 1] = false;
    }
    if (kind == 0) {
        position_tracker t;
        int cut = sym_split(sym_int("cut", 0, n), 0, n);
        t.update_position(s, s + cut);
        sym_assert(t.current_position().offset() == cut, "offset");
        sym_assert(t.current_position().line() == line[cut], "line");
        sym_assert(t.current_position().column() == col[cut], "column");
        position_tracker u(t);
        u.update_position(s + cut, s + n);
        sym_assert((u.current_position().offset() == n) & (u.current_position().line() == line[n]) & (u.current_position().column() == col[n]), "position after the second part");
        // ordering
        position a = t.current_position(), b = u.current_position();
        sym_assert((a == b) == (cut == n) && (a != b) == (cut != n) && (a <= b) && !(b < a) && (b >= a) && (b > a) == (cut != n) && (a < b) == (cut != n), "positions are ordered like the text");
    } else {
        // through a lexer whose lexemes are runs
        lexer l;
        if (kind == 1) l.add_symbol(ndfa_regex::convert(std::string("[a-z]+")), 1);
        else l.add_symbol(ndfa_regex::convert(std::string(".")), 1);
        l.compile(false);
        lexeme_stream* ls = l.create_stream(new src(s, n));
        int at = 0;
        for (;;) {
            lexeme* x = NULL; (*ls) >> x;
            if (!x) break;
            sym_assert(x->pos().offset() == at, "offset of a lexeme");
            sym_assert((x->pos().line() == line[at]) & (x->pos().column() == col[at]), "line and column of a lexeme");
            int len = (int) x->content().size();
            if (at == 0) { position f = x->final_pos(); sym_assert((f.offset() == at + len) & (f.line() == line[at + len]) & (f.column() == col[at + len]), "final position of a lexeme"); }
            at += len;
            delete x;
        }
        sym_assert(at == n, "all of the input is covered");
        delete ls;
    }
    sym_reach("end");
    return 0;
}

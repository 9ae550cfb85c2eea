// Escapes, character classes, named subexpressions, unicode categories and error reports of regular expressions.
//   args: mode ...   0 escapes kind ndigits | 1 classes nitems negate surrogates | 2 named expressions tokens len template | 3 error report len | 4 categories index | 5 single character escapes
#include <cstdlib>
#include <cstring>
#include "regex_ref.h"
#include "nfa_sim.h"
#include "TameParse/Dfa/ndfa_regex.h"
using namespace dfa;
static unsigned acc[16];
static symbol_string S(const char* s) { return ndfa_regex::convert(std::string(s)); }
static void simulate(ndfa_regex& n, const int* s, int len) { sim::run(n, 0, s, len, acc); }

int sym_main(int argc, char** argv) {
    int mode = atoi(argv[1]);
    int a1 = argc > 2 ? atoi(argv[2]) : 0, a2 = argc > 3 ? atoi(argv[3]) : 0, a3 = argc > 4 ? atoi(argv[4]) : 0;
    ndfa_regex n;
    if (mode == 0) {
        // kind 0 \u, 1 \x, 2 \o, 3 \ddd ; a2 digits of any value
        char lead = a1 == 0 ? 'u' : a1 == 1 ? 'x' : 'o';
        int maxd = a1 == 0 ? 4 : a1 == 1 ? 2 : a1 == 2 ? 6 : 3, base = a1 < 2 ? 16 : 8;
        symbol_string r = S("q\\");
        if (a1 < 3) r += (int) lead;
        int value = 0, in[8], k = 0;
        in[k++] = 'q'; k++;
        for (int i = 0; i < a2; ++i) {
            int d = sym_int("d", 0, base - 1), ch, up = base == 16 ? sym_split(sym_int("form", 0, 2), 0, 2) : 0;
            if (up == 0) { sym_assume(d < 10); ch = '0' + d; } else { sym_assume(d >= 10); ch = (up == 1 ? 'a' : 'A') + d - 10; }
            r += ch;
            if (i < maxd) value = value * base + d; else in[k++] = ch;
        }
        in[1] = value; in[k++] = 'z';
        r += 'z';
        n.set_use_surrogates(false);
        n.add_regex(0, r, accept_action(1));
        int c = sym_int("c", 0, 0x10ffff);
        in[1] = c;
        simulate(n, in, k);
        for (int p = 0; p < k; ++p) sym_assert(acc[p] == 0, "nothing shorter is accepted");
        sym_assert((acc[k] != 0) == (c == value), "an escape stands for exactly the character with that code");
    } else if (mode == 5) {
        int e = sym_int("e", 33, 126);
        sym_assume(!((e >= '0') & (e <= '9')) & (e != 'u') & (e != 'x') & (e != 'o'));
        symbol_string r = S("q\\"); r += e; r += 'z';
        n.add_regex(0, r, accept_action(1));
        int c = sym_int("c", 0, 0xd7ff), in[3] = { 'q', c, 'z' };
        simulate(n, in, 3);
        int want = e == 'a' ? 7 : e == 'e' ? 27 : e == 'n' ? 10 : e == 'r' ? 13 : e == 'f' ? 12 : e == 't' ? 9 : e;
        sym_assert((acc[3] != 0) == (c == want), "a quoted character stands for itself or its control character");
    } else if (mode == 1) {
        // [..] with a1 items: single characters, ranges and quoted characters
        symbol_string r = S(a2 ? "q[^" : "q[");
        int c = sym_int("c", 0, a3 ? 0xd7ff : 0x10ffff), in[3] = { 'q', c, 'z' };
        bool has = false;
        n.set_use_surrogates(a3 != 0);
        for (int i = 0; i < a1; ++i) {
            int k = sym_split(sym_int("item", 0, 3), 0, 3);
            if (k == 0) { int x = sym_int("x", 0x80, 0x10ffff); r += x; has = has | (c == x); }
            else if (k == 1) { int lo = sym_int("lo", 0x80, 0x10ffff), hi = sym_int("hi", 0x80, 0x10ffff); sym_assume(lo <= hi); r += lo; r += '-'; r += hi; has = has | ((c >= lo) & (c <= hi)); }
            else if (k == 2) { static const char q[] = "]-^\\"; int x = q[sym_split(sym_int("q", 0, 3), 0, 3)]; r += '\\'; r += x; has = has | (c == x); }
            else { static const char q[] = "(*.{|"; int x = q[sym_split(sym_int("p", 0, 4), 0, 4)]; r += x; has = has | (c == x); }
        }
        r += S("]z");
        n.add_regex(0, r, accept_action(1));
        simulate(n, in, 3);
        sym_assert((acc[3] != 0) == (a2 ? !has : has), "a character class matches exactly its characters (or exactly the others)");
        sym_assert(acc[0] == 0 && acc[1] == 0 && acc[2] == 0, "a character class matches one character");
    } else if (mode == 2) {
        // {name} behaves like the same expression in brackets, or like the literal text
        int tokens = a1, L = a2;
        std::string inner = ref::choose(tokens, true, false);
        bool literal = argc > 5 && atoi(argv[5]) == 1, bracket = argc > 5 && atoi(argv[5]) == 2;   // 2: the expression itself, in brackets
        static const char* tmpl[] = { "a{n}b", "{n}*", "a|{n}", "{n}{n}", "({n}|b)+", "{n}b?" };
        static const char* want[] = { "a(X)b", "(X)*", "a|(X)", "(X)(X)", "((X)|b)+", "(X)b?" };
        int t = a3 >= 0 ? a3 : sym_split(sym_int("template", 0, 5), 0, 5);
        std::string w;
        for (const char* p = want[t]; *p; ++p) if (*p == 'X') w += inner; else w += *p;
        __sym_note(w.c_str());
        if (literal) n.define_expression_literal(S("n"), S(inner.c_str())); else n.define_expression(S("n"), S(inner.c_str()));
        n.define_expression(S("other"), S("zzz"));
        n.add_regex(0, S(bracket ? w.c_str() : tmpl[t]), accept_action(1));
        sym_assert(n.check_regex(S(tmpl[t])).empty(), "a defined subexpression is not an error");
        sym_assert(n.check_regex(S("{m}")).size() == 1, "an undefined subexpression is an error");
        ref::node* ast;
        if (literal) {
            // build the reference by hand: quote the characters
            struct q { static ref::node* lits(const std::string& s) { ref::node* r = new ref::node(ref::seq); for (size_t i = 0; i < s.size(); ++i) { ref::node* x = new ref::node(ref::lit); x->lo = s[i]; r->kids.push_back(x); } return r; } };
            struct lp : ref::parser { lp(const std::string& s) : ref::parser(s) {} };
            std::string marked; for (const char* p = want[t]; *p; ++p) marked += *p == 'X' ? 'c' : *p;     // 'c' marks the literal
            ref::parser p(marked); ast = p.alternatives();
            std::vector<ref::node*> todo(1, ast);
            while (!todo.empty()) { ref::node* x = todo.back(); todo.pop_back(); for (size_t i = 0; i < x->kids.size(); ++i) { if (x->kids[i]->k == ref::lit && x->kids[i]->lo == 'c') x->kids[i] = q::lits(inner); else todo.push_back(x->kids[i]); } }
        } else { ref::parser* p = new ref::parser(w); ast = p->alternatives(); }
        int s[ref::MAXLEN];
        for (int i = 0; i < L; ++i) s[i] = sym_int("c", 32, 126);
        simulate(n, s, L);
        ref::posset e = ref::match_from(ast, 0, s, L);
        bool ok = true;
        for (int i = 0; i <= L; ++i) ok = ok & ((acc[i] != 0) == e.p[i]);
        sym_assert(ok, "a named subexpression matches what it stands for");
    } else if (mode == 3) {
        // every unclosed bracket is reported where it opens, and nothing else is
        int L = a1; symbol_string r; int open[8], no = 0; char t[9];
        for (int i = 0; i < L; ++i) { static const char al[] = "()a|\\"; t[i] = al[sym_split(sym_int("t", 0, 4), 0, 4)]; r += t[i]; }
        sym_assume(t[L - 1] != '\\');
        bool esc = false;
        for (int i = 0; i < L; ++i) { if (esc) { sym_assume(t[i] != '(' && t[i] != ')'); esc = false; continue; } if (t[i] == '\\') esc = true; else if (t[i] == '(') open[no++] = i; else if (t[i] == ')' && no > 0) --no; }
        std::vector<regex_error> e = n.check_regex(r);
        bool ok = (int) e.size() == no;
        for (int i = 0; ok && i < no; ++i) ok = e[i].pos().offset() == open[i] && e[i].type() == regex_error::missing_round_bracket;
        sym_assert(ok, "unclosed brackets are reported at their position");
    } else {
        // unicode categories on ASCII
        struct cat { const char* name; const char* chars; };
        static const cat cats[] = {
            { "letter-uppercase", "ABCDEFGHIJKLMNOPQRSTUVWXYZ" }, { "letter-lowercase", "abcdefghijklmnopqrstuvwxyz" }, { "letter", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz" },
            { "number-decimal", "0123456789" }, { "number", "0123456789" }, { "punctuation-connector", "_" }, { "punctuation-dash", "-" }, { "punctuation-open", "([{" }, { "punctuation-close", ")]}" },
            { "punctuation-other", "!\"#%&'*,./:;?@\\" }, { "symbol-math", "+<=>|~" }, { "symbol-currency", "$" }, { "symbol-modifier", "^`" }, { "separator-space", " " }, { "separator", " " },
            { "punctuation", "_-()[]{}!\"#%&'*,./:;?@\\" }, { "symbol", "+<=>|~$^`" }, { "letter-titlecase", "" }, { "mark", "" }, { "number-letter", "" }, { "separator-line", "" } };
        static const char* prefix[] = { "u-", "uni-", "unicode-" };
        int k = sym_split(sym_int("cat", 0, 20), 0, 20), pf = sym_split(sym_int("prefix", 0, 2), 0, 2);
        std::string e = std::string("q{") + prefix[pf] + cats[k].name + "}";
        n.set_use_surrogates(false);
        n.add_regex(0, S(e.c_str()), accept_action(1));
        sym_assert(n.check_regex(S(e.c_str())).empty(), "a category is not an error");
        int c = sym_int("c", 32, 126), in[2] = { 'q', c };
        bool want = false;
        for (const char* p = cats[k].chars; *p; ++p) want = want | (c == *p);
        simulate(n, in, 2);
        sym_assert((acc[2] != 0) == want, "a unicode category matches exactly its ASCII characters");
    }
    sym_reach("end");
    return 0;
}

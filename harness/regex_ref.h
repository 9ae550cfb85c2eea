// A reference semantics of regular expressions: an AST and a matcher that works on a set of positions, so that a symbolic
// input string yields one boolean expression instead of one path per character.
#ifndef REGEX_REF_H
#define REGEX_REF_H
#include <vector>
#include <string>
#include "sym.h"

namespace ref {
    enum kind { lit, any, cls, seq, alt, star, plus, opt, eps };
    struct node { kind k; int lo, hi; bool neg; std::vector<node*> kids; std::vector<std::pair<int,int> > rs; node(kind kk) : k(kk), lo(0), hi(0), neg(false) {} };
    static const int MAXLEN = 12;
    struct posset { bool p[MAXLEN + 1]; };

    // One character of the input matches the atom
    static inline bool atom(const node* n, int c) {
        if (n->k == lit) return c == n->lo;
        if (n->k == any) return (c >= 0) & (c < 0x7fffffff);
        bool r = false;
        for (size_t i = 0; i < n->rs.size(); ++i) r = r | ((c >= n->rs[i].first) & (c <= n->rs[i].second));
        return n->neg ? !r : r;
    }
    // The positions where a match of n that starts at a position of "from" can end
    static posset match(const node* n, const posset& from, const int* s, int len) {
        posset r;
        for (int i = 0; i <= len; ++i) r.p[i] = false;
        switch (n->k) {
        case eps: return from;
        case lit: case any: case cls:
            for (int i = 0; i < len; ++i) r.p[i + 1] = from.p[i] & atom(n, s[i]);
            return r;
        case seq:
            r = from;
            for (size_t k = 0; k < n->kids.size(); ++k) r = match(n->kids[k], r, s, len);
            return r;
        case alt:
            for (size_t k = 0; k < n->kids.size(); ++k) { posset x = match(n->kids[k], from, s, len); for (int i = 0; i <= len; ++i) r.p[i] = r.p[i] | x.p[i]; }
            return r;
        case opt: {
            r = match(n->kids[0], from, s, len);
            for (int i = 0; i <= len; ++i) r.p[i] = r.p[i] | from.p[i];
            return r; }
        case star: case plus: {
            posset acc = from, cur = from; posset once; bool first = true;
            for (int it = 0; it <= len; ++it) {
                cur = match(n->kids[0], cur, s, len);
                if (first) { once = cur; first = false; } else for (int i = 0; i <= len; ++i) once.p[i] = once.p[i] | cur.p[i];
                for (int i = 0; i <= len; ++i) acc.p[i] = acc.p[i] | cur.p[i];
            }
            return n->k == star ? acc : once; }
        }
        return r;
    }
    static posset match_from(const node* n, int start, const int* s, int len) {
        posset f; for (int i = 0; i <= len; ++i) f.p[i] = i == start;
        return match(n, f, s, len);
    }

    // Parses a regex made of the tokens  literals . ( ) | * + ?   (concrete)
    struct parser {
        const std::string& t; size_t pos; int base;
        parser(const std::string& s, int b = 'a') : t(s), pos(0), base(b) {}
        node* alternatives() {
            node* a = new node(alt);
            a->kids.push_back(sequence());
            while (pos < t.size() && t[pos] == '|') { ++pos; a->kids.push_back(sequence()); }
            return a;
        }
        node* sequence() {
            node* q = new node(seq);
            while (pos < t.size() && t[pos] != '|' && t[pos] != ')') {
                node* x;
                char c = t[pos++];
                if (c == '(') { x = alternatives(); ++pos; }
                else if (c == '.') x = new node(any);
                else { x = new node(lit); x->lo = base + (c - 'a'); }
                while (pos < t.size() && (t[pos] == '*' || t[pos] == '+' || t[pos] == '?')) {
                    node* w = new node(t[pos] == '*' ? star : t[pos] == '+' ? plus : opt);
                    w->kids.push_back(x); x = w; ++pos;
                }
                q->kids.push_back(x);
            }
            return q;
        }
    };
    // Chooses any well formed regex of at most n tokens (case split on the symbolic choices)
    //  multi: allow more than one quantifier on an atom; dot: allow '.'
    static std::string choose(int n, bool dot, bool multi) {
        std::string r; int depth = 0; bool need = true, quant = false;
        for (int i = 0; i < n; ++i) {
            int left = n - i;
            char opts[12]; int k = 0;
            if (!need && depth == 0) opts[k++] = 0;                     // end here
            if (left > depth + 0 || need) { if (left >= depth + 1) { opts[k++] = 'a'; opts[k++] = 'b'; if (dot) opts[k++] = '.'; } }
            if (left >= depth + 3) opts[k++] = '(';
            if (!need) {
                if (depth > 0) opts[k++] = ')';
                if (left >= depth + 2) opts[k++] = '|';
                if (quant && left >= depth + 1) { opts[k++] = '*'; opts[k++] = '+'; opts[k++] = '?'; }
            }
            sym_assume(k > 0);
            int c = sym_split(sym_int("t", 0, k - 1), 0, k - 1);
            char ch = opts[c];
            if (!ch) break;
            r += ch;
            switch (ch) {
            case '(': ++depth; need = true; quant = false; break;
            case ')': --depth; need = false; quant = true; break;
            case '|': need = true; quant = false; break;
            case '*': case '+': case '?': quant = multi; break;
            default: need = false; quant = true;
            }
        }
        sym_assume(!need && depth == 0);
        return r;
    }
}
#endif

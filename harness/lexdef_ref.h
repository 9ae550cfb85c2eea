// What the lexer sections of a definition mean: symbols with a kind of block and definitions, and how they divide an input.  Longest match,
// weak before strong, then keywords, lexer, ignore, then the earlier one; a weak symbol is its strong equivalent where the grammar does not
// want it; ignored symbols are skipped where the grammar does not want them.
#pragma once
#include "gram_ref.h"
#include "regex_ref.h"
namespace gr {
    struct symbol { int unit; bool weak; std::vector<ref::node*> defs; };      // unit: 0 keywords, 1 lexer, 2 ignore
    struct kind { const char* words; int unit; bool weak, ci; };
    inline void insensitive(ref::node* n) { if (n->k == ref::lit) { n->k = ref::cls; n->rs.push_back(std::make_pair(n->lo, n->lo)); n->rs.push_back(std::make_pair(n->lo - 32, n->lo - 32)); } for (size_t i = 0; i < n->kids.size(); ++i) insensitive(n->kids[i]); }
    inline ref::node* regex(const std::string& s, bool ci = false) { ref::parser* p = new ref::parser(*new std::string(s)); ref::node* n = p->alternatives(); if (ci) insensitive(n); return n; }
    inline ref::posset ends(const symbol& s, int at, const int* in, int n) {
        ref::posset r; for (int i = 0; i <= ref::MAXLEN; ++i) r.p[i] = false;
        for (size_t k = 0; k < s.defs.size(); ++k) { ref::posset e = ref::match_from(s.defs[k], at, in, n); for (int i = 0; i <= n; ++i) r.p[i] = r.p[i] | e.p[i]; }
        return r;
    }
    // Which of two weak symbols a lexeme is is not specified. A weak symbol that is not always the same strong symbol: see known_findings.txt
    inline bool specified(const std::vector<symbol>& sym, bool varied) {
        static const int L[6] = { 'a', 'b', 'c', 'A', 'B', 'C' }; std::vector<int> partner(sym.size(), -2);
        for (int n = 1; n <= 3; ++n) for (int x = 0; x < 216; ++x) {
            int w[3] = { L[x % 6], L[x / 6 % 6], L[x / 36] }, weak = -1, strong = -1;
            if ((n < 3 && x >= 36) || (n < 2 && x >= 6)) break;
            for (int k = 0; k < (int) sym.size(); ++k) if (ends(sym[k], 0, w, n).p[n]) { if (sym[k].weak && weak >= 0) return false; int& i = sym[k].weak ? weak : strong; if (i < 0 || sym[k].unit < sym[i].unit) i = k; }
            if (weak >= 0) { if (partner[weak] == -2) partner[weak] = strong; if (partner[weak] != strong && !varied) return false; }
        }
        return true;
    }
    // some input of at most 3 letters is both
    inline bool overlap(const symbol& a, const symbol& b) {
        static const int L[6] = { 'a', 'b', 'c', 'A', 'B', 'C' };
        for (int n = 1; n <= 3; ++n) for (int x = 0; x < (n == 1 ? 6 : n == 2 ? 36 : 216); ++x) { int w[3] = { L[x % 6], L[x / 6 % 6], L[x / 36] }; if (ends(a, 0, w, n).p[n] && ends(b, 0, w, n).p[n]) return true; }
        return false;
    }
    // the input is what the grammar derives
    inline bool lexed_language(const std::vector<symbol>& sym, const gram& g, const int* s, int n, int K) {
        reference r(g, K); prefixes pre(r); std::vector<int> v; int S = (int) sym.size();
        for (int at = 0; at < n;) {
            int best = 0; bool m[6][8];
            for (int k = 0; k < S; ++k) { ref::posset e = ends(sym[k], at, s, n); for (int i = 0; i <= n; ++i) m[k][i] = e.p[i]; }
            for (int l = n - at; l > 0 && !best; --l) for (int k = 0; k < S; ++k) if (m[k][at + l]) best = l;
            if (!best) return false;
            int weak = -1, strong = -1;
            for (int k = 0; k < S; ++k) if (m[k][at + best]) { int& w = sym[k].weak ? weak : strong; if (w < 0 || sym[k].unit < sym[w].unit) w = k; }
            if (weak >= 0 && pre.has(v, weak)) v.push_back(weak);
            else if (strong >= 0 && pre.has(v, strong)) { v.push_back(strong); if (weak >= 0) sym_reach("strong"); }
            else if (strong >= 0 && sym[strong].unit == 2) sym_reach("skipped");
            else return false;
            at += best;
        }
        return r.nt[0][r.st.code(v)];
    }
    // grammars written as  (0|1)*2  with the symbols as digits
    inline it item_of(const char*& p);
    inline std::vector<seq> alternatives(const char*& p) {
        std::vector<seq> r(1);
        for (; *p && *p != ')';) { if (*p == ' ') ++p; else if (*p == '|') { ++p; r.push_back(seq()); } else r.back().push_back(item_of(p)); }
        return r;
    }
    inline it item_of(const char*& p) {
        it x;
        if (*p == '(') { ++p; x = it(ALT); x.rules = alternatives(p); ++p; } else x = it(TERM, *p++ - '0');
        if (*p == '*' || *p == '?') { it y(*p == '*' ? REP0 : OPT); y.rules.push_back(seq(1, x)); ++p; return y; }
        return x;
    }
    inline void add_rules(gram& g, int lhs, const char* p) { std::vector<seq> a = alternatives(p); for (size_t i = 0; i < a.size(); ++i) { rl r; r.lhs = lhs; r.id = 0; r.rhs = a[i]; g.rules.push_back(r); } }
}

// Small context-free grammars (BNF and EBNF) as case-split choices, the same grammar as the library's objects, and the reference
// language: the set of strings of at most K terminals each nonterminal derives, computed as a least fixed point.
#ifndef GRAM_REF_H
#define GRAM_REF_H
#include <vector>
#include <string>
#include <bitset>
#include "sym.h"
#include "TameParse/ContextFree/grammar.h"
#include "TameParse/ContextFree/ebnf_items.h"
#include "TameParse/ContextFree/guard.h"
#include "TameParse/ContextFree/standard_items.h"
namespace gr {
    using namespace contextfree;
    enum { TERM, NONT, OPT, REP, REP0, ALT, GUARD };     // GUARD: sym is the terminal that stands for the guard in the expanded strings, rules[0] what it looks for
    struct it { int kind, sym; std::vector<std::vector<it> > rules; it(int k = TERM, int s = 0) : kind(k), sym(s) {} };
    typedef std::vector<it> seq;
    struct rl { int lhs; seq rhs; int id; };
    typedef std::bitset<512> lang;
    struct gram {
        int NN, NT; std::vector<rl> rules;
        void show(std::string& o, const seq& s) const {
            for (size_t i = 0; i < s.size(); ++i) show(o, s[i]);
        }
        void show(std::string& o, const it& x) const {
            if (x.kind == TERM) o += (char) ('a' + x.sym);
            else if (x.kind == NONT) o += (char) ('A' + x.sym);
            else { o += '('; for (size_t i = 0; i < x.rules.size(); ++i) { if (i) o += '|'; show(o, x.rules[i]); } o += ')'; o += "?+*~="[x.kind - OPT]; }
        }
        std::string text() const {
            std::string o;
            for (size_t i = 0; i < rules.size(); ++i) { o += (char) ('A' + rules[i].lhs); o += '>'; show(o, rules[i].rhs); o += ' '; }
            return o;
        }
    };
    // --- reference language ---
    struct strings {
        int NT, K; std::vector<std::vector<int> > s; std::vector<int> base;
        strings(int nt, int k) : NT(nt), K(k) {
            int n = 1;
            for (int l = 0; l <= k; ++l) {
                base.push_back((int) s.size());
                for (int c = 0; c < n; ++c) { std::vector<int> v(l); int r = c; for (int i = l; i-- > 0;) { v[i] = r % nt; r /= nt; } s.push_back(v); }
                n *= nt;
            }
        }
        int code(const std::vector<int>& v) const { int c = 0; for (size_t i = 0; i < v.size(); ++i) c = c * NT + v[i]; return base[v.size()] + c; }
        lang cat(const lang& a, const lang& b) const {
            lang r;
            for (size_t i = 0; i < s.size(); ++i) if (a[i]) for (size_t j = 0; j < s.size(); ++j) if (b[j]) {
                int la = (int) s[i].size(), lb = (int) s[j].size();
                if (la + lb > K) break;
                int p = 1; for (int k = 0; k < lb; ++k) p *= NT;
                r[base[la + lb] + ((int) i - base[la]) * p + ((int) j - base[lb])] = 1;
            }
            return r;
        }
    };
    struct reference {
        const gram& g; strings st; std::vector<lang> nt;
        reference(const gram& gr, int K) : g(gr), st(gr.NT, K), nt(gr.NN) {
            for (bool more = true; more;) {
                more = false;
                for (size_t i = 0; i < g.rules.size(); ++i) {
                    lang n = nt[g.rules[i].lhs] | of(g.rules[i].rhs);
                    if (n != nt[g.rules[i].lhs]) { nt[g.rules[i].lhs] = n; more = true; }
                }
            }
        }
        lang of(const seq& s) const { lang r; r[0] = 1; for (size_t i = 0; i < s.size(); ++i) r = st.cat(r, of(s[i])); return r; }
        lang of(const it& x) const {
            lang r;
            if (x.kind == TERM || x.kind == GUARD) { if (st.K > 0) r[st.base[1] + x.sym] = 1; return r; }
            if (x.kind == NONT) return nt[x.sym];
            if (x.kind == ALT) { for (size_t i = 0; i < x.rules.size(); ++i) r |= of(x.rules[i]); return r; }
            lang one = of(x.rules[0]);
            if (x.kind == OPT) { one[0] = 1; return one; }
            r = one; if (x.kind == REP0) r[0] = 1;
            for (;;) { lang n = r | st.cat(r, one); if (n == r) return r; r = n; }
        }
    };
    // --- prefixes (of at most K terminals) of what can be derived, assuming every item derives something ---
    struct prefixes {
        const reference& ref; const gram& g; std::vector<lang> nt; std::vector<bool> productive;
        prefixes(const reference& r) : ref(r), g(r.g), nt(r.g.NN), productive(r.g.NN, false) {
            for (bool more = true; more;) {
                more = false;
                for (size_t i = 0; i < g.rules.size(); ++i) {
                    lang n = nt[g.rules[i].lhs] | of(g.rules[i].rhs); if (n != nt[g.rules[i].lhs]) { nt[g.rules[i].lhs] = n; more = true; }
                    if (!productive[g.rules[i].lhs] && all(g.rules[i].rhs)) { productive[g.rules[i].lhs] = true; more = true; }
                }
            }
        }
        bool all(const seq& s) const { for (size_t i = 0; i < s.size(); ++i) if (s[i].kind == NONT && !productive[s[i].sym]) return false; return true; }
        // every nonterminal that is used derives something
        bool sound() const { if (!productive[0]) return false; for (size_t i = 0; i < g.rules.size(); ++i) if (!all(g.rules[i].rhs)) return false; return true; }
        lang of(const seq& s) const { lang r, l; r[0] = l[0] = 1; for (size_t i = 0; i < s.size(); ++i) { r |= ref.st.cat(l, of(s[i])); l = ref.st.cat(l, ref.of(s[i])); } return r; }
        lang of(const it& x) const {
            lang r; r[0] = 1;
            if (x.kind == TERM || x.kind == GUARD) { if (ref.st.K > 0) r[ref.st.base[1] + x.sym] = 1; return r; }
            if (x.kind == NONT) return nt[x.sym];
            if (x.kind == ALT) { for (size_t i = 0; i < x.rules.size(); ++i) r |= of(x.rules[i]); return r; }
            r = of(x.rules[0]);
            if (x.kind == REP || x.kind == REP0) r |= ref.st.cat(ref.of(x), r);
            return r;
        }
        bool has(std::vector<int> v, int next) const { v.push_back(next); return (int) v.size() <= ref.st.K && nt[0][ref.st.code(v)]; }
    };
    // a guard can be met at the beginning of, or within, what these items derive
    inline bool guarded(const gram& g, const seq& s, int depth) {
        if (depth > g.NN) return false;
        for (size_t i = 0; i < s.size(); ++i) {
            if (s[i].kind == GUARD) return true;
            for (size_t k = 0; k < s[i].rules.size(); ++k) if (guarded(g, s[i].rules[k], depth)) return true;
            if (s[i].kind == NONT) for (size_t k = 0; k < g.rules.size(); ++k) if (g.rules[k].lhs == s[i].sym && guarded(g, g.rules[k].rhs, depth + 1)) return true;
        }
        return false;
    }
    // --- the library's objects ---
    inline item_container make(const it& x, const std::vector<int>& ids);
    inline void fill(rule& r, const seq& s, const std::vector<int>& ids) { for (size_t i = 0; i < s.size(); ++i) r << make(s[i], ids); }
    inline item_container make(const it& x, const std::vector<int>& ids) {
        if (x.kind == TERM) return item_container(new terminal(x.sym), true);
        if (x.kind == NONT) return item_container(new nonterminal(ids[x.sym]), true);
        rule r; fill(r, x.rules[0], ids);
        if (x.kind == GUARD) return item_container(new guard(r), true);
        if (x.kind == OPT) return item_container(new ebnf_optional(r), true);
        if (x.kind == REP) return item_container(new ebnf_repeating(r), true);
        if (x.kind == REP0) return item_container(new ebnf_repeating_optional(r), true);
        ebnf_alternate* a = new ebnf_alternate(r);
        for (size_t i = 1; i < x.rules.size(); ++i) { rule_container n = a->add_rule(); fill(*n, x.rules[i], ids); }
        return item_container(a, true);
    }
    inline void build(grammar& lib, gram& g, std::vector<int>& ids) {
        for (int i = 0; i < g.NN; ++i) ids.push_back(lib.id_for_nonterminal(std::wstring(1, (wchar_t) (L'A' + i))));
        for (size_t i = 0; i < g.rules.size(); ++i) {
            grammar::builder b = (lib += std::wstring(1, (wchar_t) (L'A' + g.rules[i].lhs)));
            for (size_t k = 0; k < g.rules[i].rhs.size(); ++k) b << make(g.rules[i].rhs[k], ids);
        }
        for (size_t i = 0; i < g.rules.size(); ++i) {
            int n = 0; for (size_t k = 0; k < i; ++k) n += g.rules[k].lhs == g.rules[i].lhs;
            g.rules[i].id = lib.rules_for_nonterminal(ids[g.rules[i].lhs])[n]->identifier(lib);
        }
    }
    // --- choices ---
    inline int pick(const char* n, int count) { return count < 2 ? 0 : sym_split(sym_int(n, 0, count - 1), 0, count - 1); }
    inline it plain(const gram& g) { int s = pick("item", g.NT + g.NN); return s < g.NT ? it(TERM, s) : it(NONT, s - g.NT); }
    // BNF: R rules, right hand sides of at most len items; rule 0 is for A; left hand sides in order; right hand sides of one nonterminal in order
    inline int order_of(const gram& g, const seq& s) { int c = 0; for (size_t i = 0; i < s.size(); ++i) c = c * (g.NT + g.NN + 1) + 1 + (s[i].kind == TERM ? s[i].sym : g.NT + s[i].sym); return c + (int) s.size() * 100000; }
    // Two contexts of one nonterminal, which share its states: A -> a B x | b B y, B -> z, with at most m terminals in x and y and at most
    // len terminals or optional terminals in z
    inline gram choose_shared(int NN, int NT, int m, int len) {
        gram g; g.NN = NN; g.NT = NT;
        for (int i = 0; i < 3; ++i) {
            rl r; r.id = 0; r.lhs = i == 2; if (i < 2) { r.rhs.push_back(it(TERM, i)); r.rhs.push_back(it(NONT, 1)); }
            int n = pick("length", (i < 2 ? m : len) + 1);
            for (int k = 0; k < n; ++k) {
                int s = pick("item", i < 2 ? NT : 2 * NT);
                if (s < NT) r.rhs.push_back(it(TERM, s)); else { it o(OPT); o.rules.push_back(seq(1, it(TERM, s - NT))); r.rhs.push_back(o); }
            }
            g.rules.push_back(r);
        }
        return g;
    }
    inline gram choose_bnf(int NN, int NT, int R, int len) {
        if (R < 0) return choose_shared(NN, NT, -R, len);
        gram g; g.NN = NN; g.NT = NT;
        int terms = 0;
        for (int i = 0; i < R; ++i) {
            rl r; r.id = 0; r.lhs = i ? g.rules[i - 1].lhs : 0;
            if (i && r.lhs + 1 < NN) r.lhs += pick("lhs", 2);
            int n = pick("length", len + 1);
            for (int k = 0; k < n; ++k) r.rhs.push_back(plain(g));
            if (i && g.rules[i - 1].lhs == r.lhs && order_of(g, g.rules[i - 1].rhs) >= order_of(g, r.rhs)) sym_assume(false);
            // terminals are interchangeable: the first to appear is a, then b ...
            for (int k = 0; k < n; ++k) if (r.rhs[k].kind == TERM) { if (r.rhs[k].sym > terms) sym_assume(false); if (r.rhs[k].sym == terms) ++terms; }
            g.rules.push_back(r);
        }
        return g;
    }
    // EBNF item with inner sequences of at most len plain items
    inline seq inner(const gram& g, int len) { seq s; int n = pick("inner length", len + 1); for (int i = 0; i < n; ++i) s.push_back(plain(g)); return s; }
    inline it choose_ebnf(const gram& g, int len) {
        it x(OPT + pick("kind", 4));
        x.rules.push_back(inner(g, len));
        if (x.kind == ALT) x.rules.push_back(inner(g, len));
        return x;
    }
}
#endif

// Reference LALR(1) construction: LR(1) item sets merged by core until nothing changes, for a grammar whose EBNF items have been replaced by
// nonterminals with the usual rules (X? : e | x, X+ : x | X+ x, X* : e | X* x, alternatives: one rule each, nested alternatives flattened).
#ifndef LALR_REF_H
#define LALR_REF_H
#include <map>
#include <set>
#include "gram_ref.h"
namespace gr {
    struct brule { int lhs; std::vector<int> rhs; int id; };       // symbols: 0..NT-1 terminals, NT.. nonterminals; lhs -1: a whole language
    struct bnf {
        const grammar& lib; const std::vector<int>& ids; int NT; std::vector<item_container> sym; std::vector<int> symId; std::vector<brule> rules; std::vector<bool> nullable; std::vector<unsigned> first;
        bnf(const grammar& l, const gram& g, const std::vector<int>& n) : lib(l), ids(n), NT(g.NT) {
            for (int t = 0; t < NT; ++t) add(item_container(new terminal(t), true));
            for (int k = 0; k < g.NN; ++k) add(item_container(new nonterminal(ids[k]), true));
            for (size_t i = 0; i < g.rules.size(); ++i) rule_(NT + g.rules[i].lhs, syms(g.rules[i].rhs));
        }
        int add(const item_container& c) {
            int id = lib.identifier_for_item(c); for (size_t i = 0; i < symId.size(); ++i) if (symId[i] == id) return (int) i;
            sym.push_back(c); symId.push_back(id); return (int) sym.size() - 1;
        }
        int find(const item_container& c) const { int id = lib.identifier_for_item(c); for (size_t i = 0; i < symId.size(); ++i) if (symId[i] == id) return (int) i; return -1; }
        void rule_(int lhs, const std::vector<int>& rhs) {
            rule r(lhs < 0 ? item_container(new empty_item(), true) : sym[lhs]); for (size_t i = 0; i < rhs.size(); ++i) r << sym[rhs[i]];
            brule b; b.lhs = lhs; b.rhs = rhs; b.id = r.identifier(lib);
            for (size_t i = 0; i < rules.size(); ++i) if (rules[i].id == b.id) return;
            rules.push_back(b);
        }
        std::vector<int> syms(const seq& s) { std::vector<int> r; for (size_t i = 0; i < s.size(); ++i) r.push_back(symbol(s[i])); return r; }
        int symbol(const it& x) {
            if (x.kind == TERM) return x.sym;
            if (x.kind == NONT) return NT + x.sym;
            size_t before = sym.size(); int me = add(make(x, ids));
            if (sym.size() == before) return me;
            std::vector<int> none, body;
            if (x.kind == ALT) { alts(me, x); return me; }
            body = syms(x.rules[0]);
            if (x.kind != REP) rule_(me, none);
            if (x.kind != REP0) rule_(me, body);
            if (x.kind != OPT) { body.insert(body.begin(), me); rule_(me, body); }
            return me;
        }
        void alts(int me, const it& x) {
            for (size_t i = 0; i < x.rules.size(); ++i) {
                if (x.rules[i].size() == 1 && x.rules[i][0].kind == ALT) alts(me, x.rules[i][0]); else rule_(me, syms(x.rules[i]));
            }
        }
        void language(int nt) { std::vector<int> r; r.push_back(NT + nt); rule_(-1, r); }
        int rule_with(int id) const { for (size_t i = 0; i < rules.size(); ++i) if (rules[i].id == id) return (int) i; return -1; }
        // FIRST as a mask of terminals
        void complete() {
            first.assign(sym.size(), 0); nullable.assign(sym.size(), false); for (int t = 0; t < NT; ++t) first[t] = 1u << t;
            for (bool more = true; more;) {
                more = false;
                for (size_t i = 0; i < rules.size(); ++i) if (rules[i].lhs >= 0) {
                    bool n; unsigned f = of(rules[i].rhs, 0, n); int l = rules[i].lhs;
                    if ((f & ~first[l]) || (n && !nullable[l])) { more = true; first[l] |= f; if (n) nullable[l] = true; }
                }
            }
        }
        unsigned of(const std::vector<int>& s, size_t from, bool& n) const { unsigned f = 0; for (size_t i = from; i < s.size(); ++i) { f |= first[s[i]]; if (!nullable[s[i]]) { n = false; return f; } } n = true; return f; }
    };
    typedef std::pair<int, int> lritem;                              // rule, dot
    typedef std::map<lritem, unsigned> lrset;                        // with lookahead: terminals, and bit NT for the end of the input
    struct lalr_ref {
        const bnf& b; std::vector<lrset> states; std::vector<std::map<int, int> > go; std::vector<int> initial;
        lalr_ref(const bnf& bn, const std::vector<int>& languageRules) : b(bn) {
            std::vector<int> todo;
            for (size_t i = 0; i < languageRules.size(); ++i) { lrset k; k[lritem(languageRules[i], 0)] = 1u << b.NT; initial.push_back(state(k, todo)); }
            while (!todo.empty()) {
                int s = todo.back(); todo.pop_back();
                lrset c = closure(states[s]); std::map<int, lrset> next;
                for (lrset::iterator i = c.begin(); i != c.end(); ++i) {
                    const brule& r = b.rules[i->first.first]; if (i->first.second < (int) r.rhs.size()) next[r.rhs[i->first.second]][lritem(i->first.first, i->first.second + 1)] |= i->second;
                }
                for (std::map<int, lrset>::iterator i = next.begin(); i != next.end(); ++i) { int t = state(i->second, todo); go[s][i->first] = t; }
            }
        }
        int state(const lrset& k, std::vector<int>& todo) {
            for (size_t s = 0; s < states.size(); ++s) if (same(states[s], k)) {
                bool more = false; for (lrset::const_iterator i = k.begin(); i != k.end(); ++i) { unsigned& la = states[s][i->first]; if (i->second & ~la) { la |= i->second; more = true; } }
                if (more) todo.push_back((int) s);
                return (int) s;
            }
            states.push_back(k); go.push_back(std::map<int, int>()); todo.push_back((int) states.size() - 1); return (int) states.size() - 1;
        }
        static bool same(const lrset& a, const lrset& b) {
            if (a.size() != b.size()) return false;
            for (lrset::const_iterator i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (i->first != j->first) return false;
            return true;
        }
        lrset closure(const lrset& k) const {
            lrset c = k;
            for (bool more = true; more;) {
                more = false; lrset cur = c;
                for (lrset::iterator i = cur.begin(); i != cur.end(); ++i) {
                    const brule& r = b.rules[i->first.first]; int d = i->first.second;
                    if (d >= (int) r.rhs.size() || r.rhs[d] < b.NT) continue;
                    bool n; unsigned la = b.of(r.rhs, d + 1, n); if (n) la |= i->second;
                    for (size_t q = 0; q < b.rules.size(); ++q) if (b.rules[q].lhs == r.rhs[d]) {
                        lritem t((int) q, 0); bool fresh = c.find(t) == c.end(); unsigned& l = c[t]; if (fresh || (la & ~l)) { l |= la; more = true; }
                    }
                }
            }
            return c;
        }
        // rules reduced in a state on token t (NT: end of input)
        std::set<int> reductions(int s, int t) const {
            std::set<int> r; lrset c = closure(states[s]);
            for (lrset::iterator i = c.begin(); i != c.end(); ++i) if (i->first.second >= (int) b.rules[i->first.first].rhs.size() && (i->second >> t & 1)) r.insert(i->first.first);
            return r;
        }
        std::set<lritem> shifts(int s, int t) const {
            std::set<lritem> r; lrset c = closure(states[s]);
            for (lrset::iterator i = c.begin(); i != c.end(); ++i) { const brule& q = b.rules[i->first.first]; if (i->first.second < (int) q.rhs.size() && q.rhs[i->first.second] == t) r.insert(i->first); }
            return r;
        }
        bool conflicts() const {
            for (size_t s = 0; s < states.size(); ++s) for (int t = 0; t <= b.NT; ++t) if (reductions((int) s, t).size() + (t < b.NT && !shifts((int) s, t).empty() ? 1 : 0) > 1) return true;
            return false;
        }
    };
}
#endif

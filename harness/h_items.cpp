// Identity and ordering of the objects a grammar and a parser are made of, for every symbol value.
//   args: 0 n kinds  items (n = 2 or 3, number of kinds of item)      1 len  rules         2 ops  item sets
//         3 ops      terminal dictionary                             4 n    LR states      5 LR(1) items and sets      6 ops  containers      7 len  EBNF items of 1 to 3 rules
#include <cstdlib>
#include <set>
#include "gram_ref.h"
#include "TameParse/ContextFree/terminal_dictionary.h"
#include "TameParse/ContextFree/guard.h"
#include "TameParse/Lr/lr_item.h"
#include "TameParse/Lr/lr1_item_set.h"
#include "TameParse/Lr/lr_state.h"
#include "TameParse/Lr/lalr_state.h"
#include "TameParse/Lr/lr_action.h"
using namespace contextfree; using namespace gr; using namespace lr;
template<class T> static void order2(const T& a, const T& b, bool same) {
    bool ab = a < b, ba = b < a;
    sym_assert(!(ab && ba), "never both less and greater");
    sym_assert((!ab && !ba) == same, "neither less nor greater exactly when equal");
    sym_assert((a == b) == same && (b == a) == same, "== is equality"); sym_assert((a != b) == !same, "!= is inequality");
    sym_assert((a > b) == ba, "> is < the other way round"); sym_assert((a >= b) == !ab, ">= is not <"); sym_assert((a <= b) == !ba, "<= is not >");
    sym_assert(!(a < a) && a == a, "equal to itself");
}
template<class T> static void order3(const T& a, const T& b, const T& c) { sym_assert(!(a < b && b < c) || a < c, "the order is transitive"); }
struct made { int kind, s1, s2; item_container c; made(int k, int a, int b, const item_container& i) : kind(k), s1(a), s2(b), c(i) {} };
static item_container term(int s) { return item_container(new terminal(s), true); }
static const int NK = 10;
static made make_item(int kinds) {
    int k = pick("kind", kinds); int s = k < 2 || k > 4 ? sym_int("symbol", 0, 0x7ffffff0) : 0, t = k == 8 ? sym_int("second", 0, 0x7ffffff0) : 0;
    if (k == 9) t = sym_int("priority", 0, 3);
    rule r; if (k > 4) r << term(s);
    switch (k) {
        case 0: return made(k, s, t, term(s));
        case 1: return made(k, s, t, item_container(new nonterminal(s), true));
        case 2: return made(k, s, t, item_container(new empty_item(), true));
        case 3: return made(k, s, t, item_container(new end_of_input(), true));
        case 4: return made(k, s, t, item_container(new end_of_guard(), true));
        case 5: return made(k, s, t, item_container(new ebnf_optional(r), true));
        case 6: return made(k, s, t, item_container(new ebnf_repeating(r), true));
        case 7: return made(k, s, t, item_container(new ebnf_repeating_optional(r), true));
        case 8: { ebnf_alternate* a = new ebnf_alternate(r); (*a->add_rule()) << term(t); return made(k, s, t, item_container(a, true)); }
        default: return made(k, s, t, item_container(new guard(r, t), true));
    }
}
static bool same(const made& a, const made& b) { return a.kind == b.kind && a.s1 == b.s1 && a.s2 == b.s2; }
static int items(int n, int kinds) {
    std::vector<made> v; for (int i = 0; i < n; ++i) v.push_back(make_item(kinds));
    grammar g;
    for (int i = 0; i < n; ++i) for (int k = 0; k < i; ++k) {
        bool eq = same(v[i], v[k]);
        order2(v[i].c, v[k].c, eq);
        sym_assert((*v[i].c == *v[k].c) == eq, "items are equal exactly when they have the same kind and content");
    }
    if (n == 3) { order3(v[0].c, v[1].c, v[2].c); order3(v[2].c, v[0].c, v[1].c); order3(v[1].c, v[0].c, v[2].c); }
    std::vector<int> id; for (int i = 0; i < n; ++i) id.push_back(g.identifier_for_item(v[i].c));
    for (int i = 0; i < n; ++i) {
        for (int k = 0; k < i; ++k) sym_assert((id[i] == id[k]) == same(v[i], v[k]), "items have the same identifier exactly when they are equal");
        sym_assert(g.identifier_for_item(v[i].c) == id[i], "identifiers are stable");
        item_container copy(v[i].c->clone(), true);
        sym_assert(g.identifier_for_item(copy) == id[i] && copy == v[i].c, "a clone is the same item");
        sym_assert(g.item_with_identifier(id[i]) == v[i].c, "the identifier leads back to the item");
        sym_assert(id[i] >= 0 && id[i] < g.max_item_identifier(), "identifiers are less than the maximum");
    }
    sym_reach("end"); return 0;
}
static int rules(int len) {
    std::vector<rule> r; std::vector<std::vector<int> > c; std::vector<std::vector<int> > q;
    for (int i = 0; i < 2; ++i) {
        int nt = sym_int("nonterminal", 0, 0x7ffffff0), n = pick("length", len + 1);
        rule x(nt); std::vector<int> k; k.push_back(nt); std::vector<int> ty; ty.push_back(0);
        for (int m = 0; m < n; ++m) { int t = pick("type", 2), s = sym_int("symbol", 0, 0x7ffffff0); if (t) x << item_container(new nonterminal(s), true); else x << term(s); k.push_back(s); ty.push_back(t); }
        r.push_back(x); c.push_back(k); q.push_back(ty);
    }
    bool eq = c[0].size() == c[1].size(), items = eq;
    if (eq) for (size_t i = 0; i < c[0].size(); ++i) { bool d = c[0][i] == c[1][i] && q[0][i] == q[1][i]; eq = eq && d; if (i) items = items && d; }
    sym_assert((r[0] == r[1]) == eq, "rules are equal exactly when their nonterminal and items are");
    sym_assert(!(r[0] < r[1] && r[1] < r[0]) && (!(r[0] < r[1]) && !(r[1] < r[0])) == eq, "rules are ordered");
    int ci = r[0].compare_items(r[1]), cj = r[1].compare_items(r[0]);
    sym_assert((ci == 0) == items && (cj == 0) == items && (ci < 0) == (cj > 0), "items of rules compare");
    grammar g;
    int a = r[0].identifier(g), b = r[1].identifier(g);
    sym_assert((a == b) == eq, "rules have the same identifier exactly when they are equal");
    sym_assert(r[0].identifier(g) == a && rule(r[1]).identifier(g) == b, "rule identifiers are stable");
    sym_assert(*g.rule_with_identifier(a) == r[0] && *g.rule_with_identifier(b) == r[1], "the identifier leads back to the rule");
    // a rule that has changed is another rule
    int s = sym_int("more", 0, 0x7ffffff0);
    rule copy(r[0]);
    if (pick("how", 2)) r[0] << term(s); else { rule tail; tail << term(s); r[0] << tail; }
    int d = r[0].identifier(g);
    sym_assert(d != a, "extending a rule changes its identity");
    sym_assert(*g.rule_with_identifier(d) == r[0] && *g.rule_with_identifier(a) == copy, "identifiers of changed rules lead back to them");
    grammar h; rule other(12345); int hid = other.identifier(h), hd = r[0].identifier(h);
    sym_assert(r[0].identifier(h) == hd && (hd == hid) == (r[0] == other), "identifiers belong to a grammar");
    sym_assert(*h.rule_with_identifier(hd) == r[0], "identifiers of another grammar");
    sym_reach("end"); return 0;
}
static int sets(int ops) {
    grammar g; const int N = 70, W[] = { 0, 30, 31, 62, 69 };
    int ID[N], top = 0; for (int i = 0; i < N; ++i) { ID[i] = g.identifier_for_item(term(i)); if (ID[i] > top) top = ID[i]; }
    item_set s[2] = { item_set(g), item_set(&g) }; std::bitset<70> m[2];
    for (int i = 0; i < ops; ++i) {
        int o = pick("op", 4), w = i ? pick("which", 2) : 0;
        if (o == 0 || o == 1) {
            int x = W[pick("item", 5)];
            if (o == 0) { bool r = i & 1 ? s[w].insert(ID[x]) : s[w].insert(term(x)); sym_assert(r == !m[w][x], "insert says whether the set changed"); m[w][x] = 1; }
            else { bool r = i & 1 ? s[w].erase(ID[x]) : s[w].erase(term(x)); sym_assert(r == m[w][x], "erase says whether the set changed"); m[w][x] = 0; }
        } else if (o == 2) { std::bitset<70> n = m[w] | m[1 - w]; bool r = s[w].merge(s[1 - w]); sym_assert(r == (n != m[w]), "merge says whether the set changed"); m[w] = n; }
        else { if (pick("copy", 2)) { item_set t(s[1 - w]); s[w] = t; } else s[w] = s[1 - w]; m[w] = m[1 - w]; }
    }
    int x = sym_int("asked", 0, top + 40);
    for (int w = 0; w < 2; ++w) {
        sym_assert(s[w].size() == m[w].count() && s[w].empty() == m[w].none(), "size of an item set");
        bool in = false; for (int i = 0; i < N; ++i) if (m[w][i]) in |= x == ID[i];
        sym_assert(s[w].contains(x) == in, "membership in an item set");
        int n = 0, last = -1; bool ok = true;
        for (item_set::const_iterator i = s[w].begin(); i != s[w].end(); ++i) { int id = (*i)->symbol(); ok = ok && id >= 0 && id < N && m[w][id] && ID[id] > last; last = id >= 0 && id < N ? ID[id] : last; ++n; if (n > N) break; }
        sym_assert(ok && n == (int) m[w].count(), "the items of a set are enumerated once and in order");
    }
    order2(s[0], s[1], m[0] == m[1]);
    sym_reach("end"); return 0;
}
static int dictionary(int ops) {
    terminal_dictionary d; std::set<int> used; std::vector<int> all, root; std::vector<std::wstring> names;
    for (int i = 0; i < ops; ++i) {
        int o = pick("op", 3); int n;
        std::wstring name(1, (wchar_t) (L'a' + i));
        if (o == 0) { n = d.add_symbol(name); root.push_back(n); }
        else if (o == 1) { n = sym_int("value", 0, 0x7ffffff0); bool fresh = true; for (size_t k = 0; k < all.size(); ++k) fresh = fresh && all[k] != n; sym_assume(fresh); d.add_symbol(name, n); root.push_back(n); }
        else { if (all.empty()) sym_assume(false); int k = pick("split", (int) all.size()); n = d.split(all[k]); root.push_back(root[k]); name = names[k]; }
        for (size_t k = 0; k < all.size(); ++k) sym_assert(all[k] != n, "a new symbol is not in use");
        all.push_back(n); names.push_back(name);
    }
    for (size_t k = 0; k < all.size(); ++k) {
        sym_assert(d.name_for_symbol(all[k]) == names[k], "name of a symbol");
        sym_assert(d.parent_of(all[k]) == root[k], "the parent of a split symbol is the original");
        if (root[k] == all[k]) sym_assert(d.symbol_for_name(names[k]) == all[k], "symbol for a name");
        const terminal_dictionary::symbol_set& c = d.children_of(all[k]); size_t n = 0;
        for (size_t m = 0; m < all.size(); ++m) if (m != k && root[m] == all[k]) { ++n; sym_assert(c.find(all[m]) != c.end(), "split symbols are children of the original"); }
        sym_assert(c.size() == n, "nothing else is");
    }
    sym_reach("end"); return 0;
}
typedef lr_state<lr0_item> state0;
static int states(int n) {
    grammar g; rule r[3] = { rule(1), rule(1), rule(2) }; r[1] << term(5); r[2] << term(5) << term(6);
    // identifiers in any order
    int first = pick("first", 3); r[first].identifier(g);
    int sym[2][6], cnt[2]; lalr_state st[2]; state0 raw[2]; std::set<int> have[2];
    for (int w = 0; w < 2; ++w) {
        cnt[w] = pick("count", n + 1); int next = 0; std::vector<int> order;
        for (int i = 0; i < cnt[w]; ++i) {
            int x = pick("entry", 6), known = -1; sym[w][i] = x; (void) sym;
            for (size_t k = 0; k < order.size(); ++k) if (order[k] == x) known = (int) k;
            lr0_item it(&g, r[x % 3], x / 3);
            int id = st[w].add(it, &g), id2 = raw[w].add(it);
            sym_assert(id == (known >= 0 ? known : next) && id2 == id, "items of a state are numbered in order, once");
            if (known < 0) { order.push_back(x); ++next; }
            have[w].insert(x);
        }
        sym_assert(st[w].count_items() == next, "number of items in a state");
        for (int x = 0; x < 6; ++x) {
            int at = -1; for (size_t k = 0; k < order.size(); ++k) if (order[k] == x) at = (int) k;
            sym_assert(st[w].find_identifier(lr0_item(&g, r[x % 3], x / 3)) == at, "finding an item of a state");
            if (at >= 0) sym_assert(*st[w][at] == lr0_item(&g, r[x % 3], x / 3), "the item with an identifier");
        }
    }
    bool eq = have[0] == have[1];
    sym_assert((st[0] == st[1]) == eq, "states are equal exactly when they have the same items");
    sym_assert(!(st[0] < st[1] && st[1] < st[0]) && (!(st[0] < st[1]) && !(st[1] < st[0])) == eq, "states are ordered");
    order2(raw[0], raw[1], eq);
    sym_assert(state0::compare(&raw[0], &raw[1]) == (raw[0] < raw[1]), "states compare through pointers");
    sym_reach("end"); return 0;
}
static int lr1() {
    grammar g; rule r[2] = { rule(1), rule(2) }; r[0] << term(5) << term(6); r[1] << term(5);
    struct one { int rl, off; unsigned la; };
    one v[3]; std::vector<lr1_item> x;
    for (int i = 0; i < 3; ++i) {
        v[i].rl = pick("rule", 2); v[i].off = pick("offset", 2); v[i].la = 0;
        item_set la(g); for (int t = 0; t < 3; ++t) if (pick("lookahead", 2)) { la.insert(term(t + 40)); v[i].la |= 1u << t; }
        x.push_back(lr1_item(&g, r[v[i].rl], v[i].off, la));
    }
    order2(x[0], x[1], v[0].rl == v[1].rl && v[0].off == v[1].off && v[0].la == v[1].la);
    order3(x[0], x[1], x[2]);
    order2(x[0].get_lr0_item(), x[1].get_lr0_item(), v[0].rl == v[1].rl && v[0].off == v[1].off);
    sym_assert(x[0].at_end() == (v[0].off >= (v[0].rl ? 1 : 2)), "at the end of the rule");
    lr1_item_set s; unsigned have[2][2] = { { 0, 0 }, { 0, 0 } }; bool there[2][2] = { { false, false }, { false, false } };
    for (int i = 0; i < 3; ++i) {
        unsigned& h = have[v[i].rl][v[i].off]; bool& t = there[v[i].rl][v[i].off];
        bool change = s.insert(x[i]).second;
        sym_assert(change == (!t || (h | v[i].la) != h), "insert says whether the set changed");
        h |= v[i].la; t = true;
    }
    size_t n = 0;
    for (lr1_item_set::const_iterator i = s.begin(); i != s.end(); ++i) {
        ++n; int rl = *(*i)->rule() == r[0] ? 0 : 1, off = (*i)->offset(); unsigned la = 0;
        for (int t = 0; t < 3; ++t) if ((*i)->lookahead().contains(term(t + 40))) la |= 1u << t;
        sym_assert(there[rl][off] && la == have[rl][off], "lookahead of equal items is merged");
    }
    sym_assert(n == (size_t) (there[0][0] + there[0][1] + there[1][0] + there[1][1]), "one item for each position");
    sym_reach("end"); return 0;
}
static int live = 0;
struct counted { int v; counted(int x = 0) : v(x) { ++live; } counted(const counted& c) : v(c.v) { ++live; } ~counted() { v = -1; --live; }
    counted* clone() const { return new counted(*this); } static bool compare(const counted* a, const counted* b) { if (a == b) return false; if (!a) return true; if (!b) return false; return a->v < b->v; } bool operator==(const counted& o) const { return v == o.v; } };
typedef util::container<counted> cc;
static int containers(int ops) {
    {
        cc* slot[3]; int val[3]; counted local(7);
        for (int i = 0; i < 3; ++i) { val[i] = sym_int("value", 0, 0x7ffffff0); slot[i] = new cc(new counted(val[i]), true); }
        for (int i = 0; i < ops; ++i) {
            int o = pick("op", 5), a = pick("a", 3), b = pick("b", 3);
            if (o == 0) { *slot[a] = *slot[b]; val[a] = val[b]; }
            else if (o == 1) { cc* n = new cc(*slot[b]); delete slot[a]; slot[a] = n; val[a] = val[b]; }
            else if (o == 2) { *slot[a] = cc(&local, false); val[a] = 7; }
            else if (o == 3) { *slot[a] = cc(**slot[b]); val[a] = val[b]; }
            else { std::vector<cc> v; v.push_back(*slot[a]); v.push_back(*slot[b]); v.insert(v.begin(), v[1]); *slot[a] = v[0]; val[a] = val[b]; }
        }
        for (int i = 0; i < 3; ++i) { sym_assert((*slot[i])->v == val[i], "a container holds what was put in it"); }
        order2(*slot[0], *slot[1], val[0] == val[1]); order3(*slot[0], *slot[1], *slot[2]);
        for (int i = 0; i < 3; ++i) delete slot[i];
        sym_assert(local.v == 7, "an object that is not owned is not destroyed");
        sym_assert(live == 1, "objects are destroyed with their last container");
    }
    sym_assert(live == 0, "every object is destroyed once");
    sym_reach("end"); return 0;
}
// EBNF items of up to 3 inner rules: two of them and a third one made like one of them
struct deep { std::vector<int> shape, syms; item_container c; deep() : c(new empty_item(), true) {} };
static void inner_rule(rule& r, deep& d, int max) {
    int n = pick("inner length", max + 1); d.shape.push_back(-1 - n);
    for (int i = 0; i < n; ++i) { int t = pick("inner type", 3), s = sym_int("symbol", 0, 0x7ffffff0); d.shape.push_back(t); d.syms.push_back(s);
        if (t == 0) r << term(s); else if (t == 1) r << item_container(new nonterminal(s), true); else { rule o; o << term(s); r << item_container(new ebnf_optional(o), true); } }
}
static deep make_deep(int max) {
    deep d; int k = pick("kind", 5); d.shape.push_back(k); rule r; inner_rule(r, d, max);
    if (k == 0) d.c = item_container(new ebnf_optional(r), true);
    else if (k == 1) d.c = item_container(new ebnf_repeating(r), true);
    else if (k == 2) d.c = item_container(new ebnf_repeating_optional(r), true);
    else if (k == 3) { ebnf_alternate* a = new ebnf_alternate(r); d.c = item_container(a, true); int n = 1 + pick("alternatives", 2); d.shape.push_back(n); for (int i = 0; i < n; ++i) inner_rule(*a->add_rule(), d, 1); }
    else d.c = item_container(new guard(r, 0), true);
    return d;
}
static bool same(const deep& a, const deep& b) {
    if (a.shape != b.shape) return false; bool r = true;
    for (size_t i = 0; i < a.syms.size(); ++i) r = r & (a.syms[i] == b.syms[i]);
    return r;
}
static int deep_items(int max) {
    deep a = make_deep(max), b = make_deep(max); bool eq = same(a, b);
    order2(a.c, b.c, eq);
    sym_assert((*a.c == *b.c) == eq, "items are equal exactly when they have the same kind and content");
    grammar g; int x = g.identifier_for_item(a.c), y = g.identifier_for_item(b.c);
    sym_assert((x == y) == eq, "items have the same identifier exactly when they are equal");
    item_container ca(a.c->clone(), true), cb(b.c->clone(), true);
    sym_assert(ca == a.c && cb == b.c && g.identifier_for_item(ca) == x && g.identifier_for_item(cb) == y, "a clone is the same item");
    sym_assert(g.item_with_identifier(x) == a.c && g.item_with_identifier(y) == b.c, "the identifier leads back to the item");
    sym_reach(eq ? "same" : "different"); sym_reach("end"); return 0;
}
int sym_main(int argc, char** argv) {
    int n = argc > 2 ? atoi(argv[2]) : 0;
    switch (atoi(argv[1])) {
        case 0: return items(n, atoi(argv[3]));
        case 1: return rules(n);
        case 2: return sets(n);
        case 3: return dictionary(n);
        case 4: return states(n);
        case 5: return lr1();
        case 7: return deep_items(n);
        default: return containers(n);
    }
}

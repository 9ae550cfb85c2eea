// Conflicts decided in the definition: '[conflict=...]' after a symbol that can be shifted, and precedence sections.  What they decide is not
// reported, everything else is, and the parser makes the derivations that they choose.
//   args: mode(0 attribute, 1 attribute in an EBNF item, 2 precedence) K
//   0: nonterminals terminals rules length [inherited]      1: length inner-length [inherited]     2: rules levels
#include <cstdlib>
#include "lang.h"
#include "parse_ref.h"
#include "lalr_ref.h"
static std::string term(int t) { static const char* n[3] = { "a", "'b'", "\"c\"" }; return n[t]; }
static std::string nont(int n) { return std::string("<") + (char) ('A' + n) + ">"; }
static const char* const ATTR[3] = { "shift", "reduce", "weak reduce" };
struct mark { int kind; const it* at; };        // the symbol with the attribute
static std::string write(const seq& s, const mark& m);
static std::string write(const it& x, const mark& m) {
    if (x.kind == TERM) return term(x.sym) + (m.at == &x ? std::string(" [conflict=") + ATTR[m.kind] + "]" : "");
    if (x.kind == NONT) return nont(x.sym);
    if (x.kind == ALT) return "(" + write(x.rules[0], m) + " | " + write(x.rules[1], m) + ")";
    return "(" + write(x.rules[0], m) + ")" + (x.kind == OPT ? "?" : x.kind == REP ? "+" : "*");
}
static std::string write(const seq& s, const mark& m) { std::string r; for (size_t i = 0; i < s.size(); ++i) { if (i) r += ' '; r += write(s[i], m); } return r; }
struct action { bool shift, weak; std::vector<int> reduce; };
struct machine {        // the parser that the definition asks for
    const bnf& b; const lalr_ref& l; std::vector<std::vector<action> > act; bool sr, rr, accepts;
    std::vector<int> state; std::vector<std::string> val;
    machine(const bnf& bn, const lalr_ref& lr) : b(bn), l(lr), sr(false), rr(false), accepts(false) {
        for (size_t s = 0; s < l.states.size(); ++s) {
            act.push_back(std::vector<action>());
            for (int t = 0; t <= b.NT; ++t) { action a; a.weak = false; a.shift = t < b.NT && !l.shifts((int) s, t).empty(); std::set<int> r = l.reductions((int) s, t); a.reduce.assign(r.begin(), r.end()); act.back().push_back(a); }
        }
    }
    void conflicts() {
        for (size_t s = 0; s < act.size(); ++s) for (int t = 0; t <= b.NT; ++t) {
            action& a = act[s][t];
            if (a.reduce.size() > 1) for (size_t i = 0; i < a.reduce.size(); ++i) accepts |= b.rules[a.reduce[i]].lhs < 0;
            if (a.shift && !a.reduce.empty() && !a.weak) sr = true; else if (a.reduce.size() > 1) rr = true;
        }
    }
    // the next token can be shifted in the end
    bool can(std::vector<int> st, int t, int fuel) const {
        for (;;) {
            if (fuel-- < 0) return false;
            const action& a = act[st.back()][t];
            if (a.shift && !a.weak) return true;
            if (a.reduce.empty()) return false;
            const brule& r = b.rules[a.reduce[0]]; if (r.lhs < 0) return true;
            if (a.weak && can(reduced(st, r), t, fuel)) return true;
            if (a.shift) return true;
            st = reduced(st, r);
        }
    }
    std::vector<int> reduced(std::vector<int> st, const brule& r) const { st.resize(st.size() - r.rhs.size()); st.push_back(l.go[st.back()].find(r.lhs)->second); return st; }
    // 1 accepted, 0 refused, -1 does not end
    int run(const std::vector<int>& in) {
        state.assign(1, l.initial[0]); val.clear(); int fuel = 60;
        for (size_t p = 0;;) {
            if (fuel-- < 0) return -1;
            int t = p < in.size() ? in[p] : b.NT; const action& a = act[state.back()][t];
            bool shift = a.shift && (a.reduce.empty() || (a.weak && !can(reduced(state, b.rules[a.reduce[0]]), t, 60)));
            if (shift) { state.push_back(l.go[state.back()].find(t)->second); val.push_back(std::string(1, (char) ('a' + t))); ++p; continue; }
            if (a.reduce.empty()) return 0;
            const brule& r = b.rules[a.reduce[0]]; if (r.lhs < 0) return 1;
            std::string v = "("; for (size_t i = val.size() - r.rhs.size(); i < val.size(); ++i) v += val[i];
            val.resize(val.size() - r.rhs.size()); val.push_back(v + ")"); state = reduced(state, r);
        }
    }
};
static std::string shape(const astnode& n) {
    if (n.lexeme().item()) { std::string o; for (size_t i = 0; i < n.lexeme()->content().size(); ++i) o += (char) n.lexeme()->content()[i]; return o; }
    std::string o; for (size_t i = 0; i < n.children().size(); ++i) o += shape(*n.children()[i]);
    return "(" + o + ")";
}
int sym_main(int argc, char** argv) {
    int mode = atoi(argv[1]), K = atoi(argv[2]); gram g; mark m = { 0, NULL }; std::string section; int level[4] = { 0 }, assoc[4] = { 0 };
    if (mode == 2) {
        // expressions: operands c, operators a and b in different places
        static const char* RULES[6] = { "AaA", "AbA", "aA", "Ab", "AaAbA", "bA" }; int n = atoi(argv[3]), levels = atoi(argv[4]), last = -1;
        g.NN = 1; g.NT = 3; rl c; c.lhs = 0; c.id = 0; c.rhs.push_back(it(TERM, 2)); g.rules.push_back(c);
        for (int i = 0; i < n; ++i) {
            int k = pick("rule", 6); if (k <= last) return 0; last = k;
            rl r; r.lhs = 0; r.id = 0; for (const char* p = RULES[k]; *p; ++p) r.rhs.push_back(*p == 'A' ? it(NONT, 0) : it(TERM, *p - 'a')); g.rules.push_back(r);
        }
        static const char* const WORDS[3] = { "left", "right", "non-associative" };
        for (int t = 0; t < 2; ++t) level[t] = pick("level", levels + 1);
        if (level[0] > 1 && level[1] != 1) return 0;        // levels are used in order
        if (level[1] > 1 && level[0] != 1) return 0;
        for (int l = 1; l <= levels; ++l) {
            std::string in; for (int t = 0; t < 2; ++t) if (level[t] == l) in += " " + term(t);
            if (in.empty()) continue;
            assoc[l] = pick("associativity", 3); bool bare = level[0] != level[1] && pick("without brackets", 2);
            section += std::string("  ") + WORDS[assoc[l]] + (bare ? in : " {" + in + " }") + "\n";
        }
        if (!section.empty()) section = " precedence {\n" + section + " }\n";
    } else if (mode == 0) {
        g = choose_bnf(atoi(argv[3]), atoi(argv[4]), atoi(argv[5]), atoi(argv[6])); m.kind = pick("attribute", 3);
        int n = 0; for (size_t i = 0; i < g.rules.size(); ++i) for (size_t k = 0; k < g.rules[i].rhs.size(); ++k) n += g.rules[i].rhs[k].kind == TERM;
        if (!n) return 0;
        n = pick("symbol", n); for (size_t i = 0; i < g.rules.size(); ++i) for (size_t k = 0; k < g.rules[i].rhs.size(); ++k) if (g.rules[i].rhs[k].kind == TERM && n-- == 0) m.at = &g.rules[i].rhs[k];
    } else {
        // A -> ... (...)?  | c   with the attribute on the first symbol of the EBNF item
        int len = atoi(argv[3]), in = atoi(argv[4]); g.NN = 1; g.NT = 3; m.kind = pick("attribute", 3);
        rl r; r.lhs = 0; r.id = 0; for (int n = pick("length", len + 1); n > 0; --n) r.rhs.push_back(plain(g));
        it e(OPT + pick("kind", 4)); seq q(1, it(TERM, pick("terminal", 2))); for (int n = pick("inner length", in + 1); n > 0; --n) q.push_back(plain(g)); e.rules.push_back(q);
        if (e.kind == ALT) e.rules.push_back(seq(1, it(TERM, 2)));
        r.rhs.push_back(e); if (pick("more", 2)) r.rhs.push_back(plain(g));
        g.rules.push_back(r); rl c; c.lhs = 0; c.id = 0; c.rhs.push_back(it(TERM, 2)); g.rules.push_back(c);
        for (size_t i = 0; i < g.rules[0].rhs.size(); ++i) if (g.rules[0].rhs[i].kind >= OPT) m.at = &g.rules[0].rhs[i].rules[0][0];
    }
    { bool defined[8] = { false }; for (size_t i = 0; i < g.rules.size(); ++i) defined[g.rules[i].lhs] = true; for (int n = 0; n < g.NN; ++n) if (!defined[n]) return 0; }
    std::string rules; for (size_t i = 0; i < g.rules.size(); ++i) rules += (i && g.rules[i].lhs == g.rules[i - 1].lhs ? " | " : "\n  " + nont(g.rules[i].lhs) + " = ") + write(g.rules[i].rhs, m);
    rules = " grammar {" + rules + "\n }\n"; bool inherit = mode < 2 && argc > (mode ? 5 : 7) && atoi(argv[mode ? 5 : 7]); int where = mode == 2 && !section.empty() ? pick("where", 4) : inherit ? 3 : 0;
    std::string text = " lexer { a = /a/ }\n" + (where == 1 ? section + rules : rules + (where == 2 ? "" : section));
    text = where == 2 || where == 3 ? "language B {\n" + text + "}\nlanguage L : B {\n" + (where == 2 ? section : " lexer-symbols { s = /x/ }\n") + "}\n" : "language L {\n" + text + "}\n";
    __sym_note(text.c_str());
    { reference ref(g, K); prefixes pre(ref); if (!pre.sound()) return 0; }
    // what the definition asks for
    grammar lib; std::vector<int> ids; build(lib, g, ids);
    bnf b(lib, g, ids); int rule = (int) b.rules.size(); b.language(0); b.complete();
    lalr_ref l(b, std::vector<int>(1, rule)); machine ma(b, l);
    std::set<std::pair<int, int> > marked;          // rule and position of the symbol with the attribute
    if (m.at) for (size_t i = 0; i < g.rules.size(); ++i) for (size_t k = 0; k < g.rules[i].rhs.size(); ++k) {
        const it& x = g.rules[i].rhs[k];
        if (&x == m.at) marked.insert(std::make_pair((int) i, (int) k));
        if (x.kind >= OPT) { int s = b.symbol(x), t = m.at->sym; for (size_t r = 0; r < b.rules.size(); ++r) if (b.rules[r].lhs == s) for (int p = 0; p < 2 && p < (int) b.rules[r].rhs.size(); ++p) if (b.rules[r].rhs[p] == t && (p == 0 || b.rules[r].rhs[0] == s)) { marked.insert(std::make_pair((int) r, p)); break; } }
    }
    // a marked rule of the grammar, by its place among the rules of the reference
    if (mode == 0) { std::set<std::pair<int, int> > n; for (std::set<std::pair<int, int> >::iterator i = marked.begin(); i != marked.end(); ++i) n.insert(std::make_pair(b.rule_with(g.rules[i->first].id), i->second)); marked = n; }
    for (size_t s = 0; s < ma.act.size(); ++s) for (int t = 0; t < b.NT; ++t) {
        action& a = ma.act[s][t]; if (!a.shift || a.reduce.empty()) continue;
        if (mode == 2) {
            if (a.reduce.size() > 1) continue;
            int op = -1, ops = 0; const brule& r = b.rules[a.reduce[0]]; for (size_t i = 0; i < r.rhs.size(); ++i) if (r.rhs[i] < 3 && level[r.rhs[i]]) { op = r.rhs[i]; ++ops; }
            if (ops != 1 || !level[t]) continue;
            int d = level[t] - level[op], as = assoc[level[op]];
            if (d < 0 || (d == 0 && as == 0)) a.shift = false; else if (d > 0 || as == 1) a.reduce.clear();
            continue;
        }
        bool hit = false; std::set<lritem> sh = l.shifts((int) s, t); for (std::set<lritem>::iterator i = sh.begin(); i != sh.end(); ++i) hit |= marked.count(*i) > 0;
        if (!hit || (a.reduce.size() > 1 && m.kind != 1)) continue;
        if (m.kind == 0) a.reduce.clear(); else if (m.kind == 1) a.shift = false; else a.weak = true;
        sym_reach("decided");
    }
    ma.conflicts();
    compiled c;
    sym_assert(c.parse(wide(text)), "the definition is accepted");
    c.language(L"L");
    bool undefined = level[1] && rules.find("'b'") == std::string::npos;
    sym_assert(c.reported(L"UNDEFINE_TERMINAL") == undefined, "precedence of a symbol that is not defined is an error");
    if (undefined) { sym_reach("undefined"); return 0; }
    sym_assert(c.count(compiler::error::sev_error) == 0, "a correct definition has no errors");
    c.build(names(L"<A>"));
    bool reported = c.reported(L"CONFLICT_SHIFT_REDUCE") || c.reported(L"CONFLICT_REDUCE_REDUCE"), open = ma.sr || ma.rr;
    if (!ma.accepts) sym_assert(reported == open, open ? "a conflict that is not decided is reported" : "a conflict that is decided is not reported");
    if (open) { sym_reach("reported"); return 0; }
    strings all(b.NT, K); std::vector<int> yes; std::vector<std::string> trees;
    for (size_t i = 0; i < all.s.size(); ++i) { int r = ma.run(all.s[i]); if (r < 0) return 0; if (r) { yes.push_back((int) i); trees.push_back(ma.val[0]); } }
    __sym_refuel();
    int s[8]; for (int i = 0; i < K; ++i) s[i] = sym_int("c", 0, 126);
    ast_parser p(c.lr->get_tables(), false);
    ast_parser::state* st = p.create_parser(new ast_parser_actions(c.lex->get_lexer()->create_stream(new chars(s, K))));
    bool accepted = st->parse();
    std::string made = accepted ? shape(*st->get_item()) : "", want; bool ok = false; int at = -1;
    for (size_t i = 0; i < yes.size(); ++i) {
        const std::vector<int>& v = all.s[yes[i]]; bool same = true;
        for (size_t k = 0; k < v.size(); ++k) same = same & (s[k] == 'a' + v[k]);
        if ((int) v.size() < K) same = same & (s[v.size()] == 0);
        if (same) { ok = true; at = (int) i; break; }
    }
    sym_assert(accepted == ok, accepted ? "an accepted input is one that the decided parser accepts" : "an input that the decided parser accepts is accepted");
    if (accepted && ok) { want = trees[at]; sym_assert(made == want, "the derivation is the one that was decided"); sym_reach("accepted"); } else sym_reach("rejected");
    delete st;
    sym_reach("end");
    return 0;
}

// Definition files with any small grammar, written in any of the notations for it, compile to a parser for exactly the language of the grammar.
//   args: mode(0 BNF, 1 EBNF) nonterminals terminals rules length K [EBNF inner length]
// The terminals are written as a defined symbol, a defined literal, a character, a string and an undefined symbol.
#include <cstdlib>
#include "lang.h"
#include "gram_ref.h"
using namespace gr;
static int rot;
static std::string term(int t) { static const char* n[5] = { "a", "b", "'c'", "\"d\"", "e" }; return n[(t + rot) % 5]; }
static std::string nont(int n) { return std::string("<") + (char) ('A' + n) + ">"; }
static std::string write(const seq& s);
static std::string write(const it& x) {
    if (x.kind == TERM) return term(x.sym);
    if (x.kind == NONT) return nont(x.sym);
    if (x.kind == ALT) { std::string r = "("; for (size_t i = 0; i < x.rules.size(); ++i) { if (i) r += " | "; r += write(x.rules[i]); } return r + ")"; }
    std::string in = write(x.rules[0]);
    // brackets can be left out around one item; more of them mean the same
    int form = pick("brackets", x.rules[0].size() == 1 ? 2 : 1);
    return (form ? in : "(" + in + ")") + (x.kind == OPT ? "?" : x.kind == REP ? "+" : "*");
}
static std::string write(const seq& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) { if (i) r += ' '; r += write(s[i]); } return r; }
int sym_main(int argc, char** argv) {
    int mode = atoi(argv[1]), NN = atoi(argv[2]), NT = atoi(argv[3]), R = atoi(argv[4]), len = atoi(argv[5]), K = atoi(argv[6]), in = argc > 7 ? atoi(argv[7]) : 0;
    gram g = choose_bnf(NN, NT, R, len);
    if (mode) {
        it e = choose_ebnf(g, in); int wrap = pick("wrap", 6);
        if (wrap) {
            it w(wrap < 4 ? OPT + wrap - 1 : ALT); w.rules.push_back(seq(1, e));
            if (wrap == 4) w.rules.push_back(seq(1, plain(g)));
            if (wrap == 5) { w.rules.insert(w.rules.begin(), seq(1, plain(g))); w.rules.insert(w.rules.begin(), seq()); }
            e = w;
        }
        int where = pick("where", (int) g.rules[0].rhs.size() + 1); g.rules[0].rhs.insert(g.rules[0].rhs.begin() + where, e);
    }
    rot = pick("notation", 5);
    std::string body; int style = pick("style", 3);
    for (size_t i = 0; i < g.rules.size(); ++i) {
        bool more = i && g.rules[i].lhs == g.rules[i - 1].lhs; std::string w = write(g.rules[i].rhs);
        if (!more) body += "\n " + nont(g.rules[i].lhs) + " = " + w;
        else if (style == 0) body += " | " + w;
        else if (style == 1) body += "\n " + nont(g.rules[i].lhs) + " |= " + w;
        else body += " // an alternative\n }\n grammar { " + nont(g.rules[i].lhs) + "|=" + w;
    }
    std::string text = "language L {\n lexer { a = /a/ }\n keywords { b }\n grammar {" + body + "\n }\n}\n";
    if (style == 2) text = "/* a comment */ language L { grammar {" + body + "} keywords { b } lexer { a = \"a\" } }";
    __sym_note(text.c_str());
    reference ref(g, K); prefixes pre(ref);
    compiled c;
    sym_assert(c.parse(wide(text)), "the definition is accepted");
    c.language(L"L");
    bool defined[8] = { false }, used[8] = { false };
    for (size_t i = 0; i < g.rules.size(); ++i) defined[g.rules[i].lhs] = true;
    for (int n = 0; n < NN; ++n) used[n] = text.find(nont(n)) != std::string::npos;
    bool undefined = false; for (int n = 0; n < NN; ++n) undefined |= used[n] && !defined[n];
    sym_assert(c.reported(L"UNDEFINED_NONTERMINAL") == undefined, "an undefined nonterminal is an error");
    if (undefined) { sym_reach("undefined"); return 0; }
    sym_assert(c.count(compiler::error::sev_error) == 0, "a correct definition has no errors");
    if (!pre.sound()) return 0;
    c.build(names(L"<A>"));
    if (c.reported(L"CONFLICT_SHIFT_REDUCE") || c.reported(L"CONFLICT_REDUCE_REDUCE")) return 0;
    sym_assert(c.count(compiler::error::sev_error) == 0, "a correct definition has no errors");
    __sym_refuel();
    int s[8]; for (int i = 0; i < K; ++i) s[i] = sym_int("c", 0, 126);
    ast_parser p(c.lr->get_tables(), false);
    ast_parser::state* st = p.create_parser(new ast_parser_actions(c.lex->get_lexer()->create_stream(new chars(s, K))));
    bool accepted = st->parse();
    std::vector<int> v; bool ok = true;
    for (int i = 0; ok && i < K; ++i) {
        if (s[i] == 0) break;
        int t = 0; for (; t < NT; ++t) if (s[i] == 'a' + (t + rot) % 5) break;
        if (t < NT) v.push_back(t); else ok = false;
    }
    if (ok) ok = ref.nt[0][ref.st.code(v)];
    sym_assert(accepted == ok, accepted ? "an accepted input is in the language" : "an input in the language is accepted");
    sym_reach(accepted ? "accepted" : "rejected");
    delete st;
    sym_reach("end");
    return 0;
}

// Languages that inherit from others: a language is what the inherited language and its own definitions say, '=' defines, '|=' adds,
// 'replace' replaces; redefining with '=', and adding to or replacing what is not there, are errors.
//   args: mode(0 grammar, 1 lexer) ...
//   0: rules length definitions length K        1: K first-grammar grammars changes kind-of-the-first-symbol (-1: any) its-definitions kinds-of-the-second its-definitions definitions-of-changes
#include <cstdlib>
#include "lang.h"
#include "lexdef_ref.h"
using namespace gr;
static std::string term(int t) { static const char* n[3] = { "a", "b", "'c'" }; return n[t]; }
static std::string nont(int n) { return std::string("<") + (char) ('A' + n) + ">"; }
static std::string write(const seq& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) { if (i) r += ' '; r += s[i].kind == TERM ? term(s[i].sym) : nont(s[i].sym); } return r; }
static const char* const OPS[3] = { "=", "|=", "replace" };
static std::string file(const std::string& base, const std::string& middle, const std::string& last, bool chain) {
    std::string b = "language B {\n" + base + "}\n", m = chain ? "language M : B {\n" + middle + "}\n" : "", l = std::string("language L : ") + (chain ? "M" : "B") + " {\n" + last + "}\n";
    std::string t = chain ? l + m + b : b + l;
    __sym_note(t.c_str());
    return t;
}
static bool conflicts(compiled& c) { return c.reported(L"CONFLICT_SHIFT_REDUCE") || c.reported(L"CONFLICT_REDUCE_REDUCE"); }
static bool run(compiled& c, int* s, int K) {
    __sym_refuel();
    for (int i = 0; i < K; ++i) s[i] = sym_int("c", 0, 126);
    ast_parser p(c.lr->get_tables(), false);
    ast_parser::state* st = p.create_parser(new ast_parser_actions(c.lex->get_lexer()->create_stream(new chars(s, K))));
    bool accepted = st->parse();
    delete st;
    return accepted;
}
static int grammar_main(char** argv) {
    int R = atoi(argv[2]), len = atoi(argv[3]), D = atoi(argv[4]), dlen = atoi(argv[5]), K = atoi(argv[6]), NN = 2, NT = 3;
    gram g = choose_bnf(NN, NT, R, len); std::string text[3]; int chain = pick("chain", D > 1 ? 3 : 2);
    bool defined[2] = { false, false }, used[2] = { false, false }, undefined = false, twice = false;
    for (size_t i = 0; i < g.rules.size(); ++i) {
        const rl& r = g.rules[i]; text[0] += i && g.rules[i - 1].lhs == r.lhs ? " | " + write(r.rhs) : "\n  " + nont(r.lhs) + " = " + write(r.rhs);
        defined[r.lhs] = true; for (size_t k = 0; k < r.rhs.size(); ++k) if (r.rhs[k].kind == NONT) used[r.rhs[k].sym] = true;
    }
    text[0] = " lexer { a = /a/ }\n keywords { b }\n grammar {" + text[0] + "\n }\n";
    for (int n = 0; n < NN; ++n) undefined |= used[n] && !defined[n];
    if (undefined) return 0;        // see h_lang.cpp
    for (int d = 0; d < D; ++d) {
        int lhs = pick("nonterminal", NN), op = pick("operator", 3), at = chain == 2 && d + 1 < D ? 1 : 2; seq rhs; int n = pick("length", dlen + 1);
        for (int k = 0; k < n; ++k) rhs.push_back(plain(g));
        text[at] += std::string(" grammar {\n  ") + (op == 2 ? "replace " : "") + nont(lhs) + (op == 1 ? " |= " : " = ") + write(rhs) + "\n }\n";
        twice |= op == 0 && defined[lhs]; defined[lhs] = true;
        for (int k = 0; k < n; ++k) if (rhs[k].kind == NONT) used[rhs[k].sym] = true;
        if (op == 2) for (size_t i = g.rules.size(); i-- > 0;) if (g.rules[i].lhs == lhs) g.rules.erase(g.rules.begin() + i);
        rl r; r.lhs = lhs; r.rhs = rhs; r.id = 0; g.rules.push_back(r);
        if (at == 1 || d + 1 == D) for (int i = 0; i < NN; ++i) undefined |= used[i] && !defined[i];
    }
    compiled c;
    sym_assert(c.parse(wide(file(text[0], text[1], text[2], chain))), "the definition is accepted");
    c.language(L"L");
    sym_assert(c.reported(L"DUPLICATE_NONTERMINAL_DEFINITION") == twice, "redefining an inherited nonterminal without replace is an error");
    sym_assert(c.reported(L"UNDEFINED_NONTERMINAL") == undefined, "an undefined nonterminal is an error");
    sym_assert((c.count(compiler::error::sev_error) != 0) == (twice || undefined), "a correct definition has no errors");
    if (twice || undefined) { sym_reach("refused"); return 0; }
    reference ref(g, K); prefixes pre(ref);
    if (!pre.sound()) return 0;
    c.build(names(L"<A>"));
    if (conflicts(c)) return 0;
    sym_assert(c.count(compiler::error::sev_error) == 0, "a correct definition has no errors");
    int s[8]; bool accepted = run(c, s, K);
    std::vector<int> v; bool ok = true;
    for (int i = 0; ok && i < K; ++i) { if (s[i] == 0) break; int t = 0; while (t < NT && s[i] != 'a' + t) ++t; if (t < NT) v.push_back(t); else ok = false; }
    if (ok) ok = ref.nt[0][ref.st.code(v)];
    sym_assert(accepted == ok, accepted ? "an accepted input is in the language" : "an input in the language is accepted");
    sym_reach(accepted ? "accepted" : "rejected"); sym_reach("end");
    return 0;
}
static const kind KINDS[] = { { "lexer", 1, false, false }, { "keywords", 0, false, false }, { "ignore", 2, false, false }, { "weak lexer", 1, true, false }, { "case insensitive lexer", 1, false, true } };
struct def { const char* text; const char* meaning; };
static const def DEFS[] = { { "/{s}c/", "(S)c" }, { "/a/", "a" }, { "/[ab]/", "a|b" }, { "\"ab\"", "ab" } };
static const def YDEFS[] = { { "/b/", "b" }, { "/{s}c/", "(S)c" }, { "/[ab]/", "a|b" } };
static const def SDEFS[] = { { "/c/", "c" }, { "\"ab\"", "ab" } };
static const char* GRAMMARS[] = { "0* 1", "(0|1)*", "0 1?" };
struct change { int target, op, at; };
struct lexeme { int unit; bool weak, there; std::vector<std::pair<std::string, bool> > defs; };
static int lexer_main(int argc, char** argv) {
    int K = atoi(argv[2]), from = atoi(argv[3]), count = atoi(argv[4]), C = atoi(argv[5]), only = atoi(argv[6]), DX = atoi(argv[7]), YK = atoi(argv[8]), DY = atoi(argv[9]), DC = atoi(argv[10]);
    lexeme sym[3]; for (int i = 0; i < 3; ++i) sym[i].there = false;
    std::vector<std::string> s(1, "a"), t; std::string text[3] = { " lexer-symbols { s = /a/\n s |= \"b\" }\n", "", "" }; const char* const name = "xyz"; bool moved[3] = { false, false, false }; s.push_back("b");
    for (int i = 0; i < 2; ++i) {
        const kind& k = KINDS[i == 0 && only >= 0 ? only : pick("kind", i ? YK : 5)]; const def& d = (i ? YDEFS[pick("definition", DY)] : DEFS[pick("definition", DX)]);
        sym[i].there = true; sym[i].unit = k.unit; sym[i].weak = k.weak; sym[i].defs.push_back(std::make_pair(std::string(d.meaning), k.ci));
        text[0] += std::string(" ") + k.words + " { " + name[i] + " = " + d.text + (d.text[1] == '{' ? std::string(" ") + name[i] + " |= /bb/" : "") + " }\n";
        if (d.text[1] == '{') sym[i].defs.push_back(std::make_pair(std::string("bb"), k.ci));        // with a second definition
    }
    int gn = from + pick("grammar", count); gram g; g.NN = 1; g.NT = 3; add_rules(g, 0, GRAMMARS[gn]); std::string gt;
    for (const char* p = GRAMMARS[gn]; *p; ++p) gt += *p >= '0' && *p <= '2' ? std::string(" ") + name[*p - '0'] + " " : std::string(1, *p);
    text[0] += " grammar { <A> =" + gt + " }\n";
    int chain = pick("chain", C > 1 ? 3 : 2); std::string error; int previous = -1;
    for (int n = 0; n < C; ++n) {
        int target = pick("target", 5), op = pick("operator", 3), at = chain == 2 && n + 1 < C ? 1 : 2;
        if (at == 2 && n && chain != 2 && target == previous) return 0;        // changes of the same symbol in one language: the order of the blocks is not specified
        previous = target;
        std::string head = op == 2 ? "replace " : "", sign = op == 1 ? " |= " : " = ", e;
        if (target < 2) {       // a lexer symbol: s is there, t is not
            std::vector<std::string>& x = target ? t : s; const def& d = SDEFS[pick("expression", 2)];
            text[at] += " lexer-symbols { " + head + (target ? "t" : "s") + sign + d.text + " }\n";
            if (op == 0 && !x.empty()) e = "DUPLICATE_LEXER_SYMBOL";
            if (op == 1 && x.empty()) e = "MISSING_LEXER_SYMBOL_FOR_ADDING";
            if (op == 2 && x.empty()) e = "MISSING_LEXER_SYMBOL_FOR_REPLACING";
            if (op == 2) x.clear();
            x.push_back(d.meaning);
        } else {
            lexeme& x = sym[target == 2 ? 0 : target == 3 ? 1 : 2]; const kind& k = KINDS[pick("kind", 5)]; const def& d = DEFS[pick("definition", DC)];
            text[at] += std::string(" ") + k.words + " { " + head + name[&x - sym] + sign + d.text + " }\n";
            if (op == 0 && x.there) e = "DUPLICATE_LEXER_SYMBOL";
            else if (op && !x.there) e = op == 1 ? "MISSING_LEXER_SYMBOL_FOR_ADDING" : "MISSING_LEXER_SYMBOL_FOR_REPLACING";
            else if (op == 1 && x.unit != k.unit) e = "CANNOT_ADD_TO_DIFFERENT_LEXER_SYMBOL_TYPE";
            if (op == 1 && x.there && x.unit == k.unit && x.weak != k.weak) return 0;       // partly weak: not specified
            if (op == 2) { x.defs.clear(); moved[&x - sym] |= x.unit != k.unit; }
            x.there = true; x.unit = k.unit; x.weak = k.weak; x.defs.push_back(std::make_pair(std::string(d.meaning), k.ci));
        }
        if (error.empty()) error = e; else if (!e.empty()) return 0;
    }
    bool third = sym[2].there && error.empty(); if (third) { text[2] += " grammar { <A> |= z z }\n"; add_rules(g, 0, "22"); }
    std::vector<symbol> all;
    for (int i = 0; i < 2 + third; ++i) {
        symbol y; y.unit = sym[i].unit; y.weak = sym[i].weak;
        for (size_t k = 0; k < sym[i].defs.size(); ++k) {
            std::string m = sym[i].defs[k].first;
            size_t at = m.find('S'); if (at != std::string::npos) { std::string e; for (size_t j = 0; j < s.size(); ++j) e += (j ? "|" : "") + s[j]; m = m.substr(0, at) + e + m.substr(at + 1); }
            y.defs.push_back(regex(m, sym[i].defs[k].second));
        }
        all.push_back(y);
    }
    if (error.empty() && !specified(all, false)) return 0;
    // which of two symbols of the same kind comes first when one was in another kind of block before is not specified
    for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < all.size(); ++j) if (moved[i] && i != j && all[i].unit == all[j].unit && all[i].weak == all[j].weak && overlap(all[i], all[j])) return 0;
    compiled c;
    sym_assert(c.parse(wide(file(text[0], text[1], text[2], chain))), "the definition is accepted");
    c.language(L"L");
    if (!error.empty()) { sym_assert(c.reported(wide(error)), "redefining without replace, and adding to or replacing what is not there, are errors"); sym_reach("refused"); return 0; }
    c.build(names(L"<A>"));
    sym_assert(c.count(compiler::error::sev_error) == 0, "a correct definition has no errors");
    if (conflicts(c)) return 0;
    int in[8]; bool accepted = run(c, in, K);
    int n = 0; while (n < K && in[n] != 0) ++n;
    bool ok = lexed_language(all, g, in, n, K);
    sym_assert(accepted == ok, accepted ? "an accepted input is in the language" : "an input in the language is accepted");
    sym_reach(accepted ? "accepted" : "rejected"); sym_reach("end");
    return 0;
}
int sym_main(int argc, char** argv) { return atoi(argv[1]) ? lexer_main(argc, argv) : grammar_main(argv); }

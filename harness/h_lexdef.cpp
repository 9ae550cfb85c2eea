// The lexer sections of a definition file: which symbol a piece of input is, for two symbols defined in any kinds of block by any of a
// set of definitions, and a symbol defined in the grammar.  Longest match, weak before strong, then keywords, lexer, ignore, then the
// earlier one; a weak symbol is its strong equivalent where the grammar does not want it; ignored symbols are skipped where the grammar
// does not want them.
//   args: K first-grammar grammars [only-kind (-1: any)] [1: weak symbols that are not always the same strong symbol too]
#include <cstdlib>
#include "lang.h"
#include "lexdef_ref.h"
using namespace gr;
static const kind KINDS[] = { { "keywords", 0, false, false }, { "lexer", 1, false, false }, { "ignore", 2, false, false }, { "weak keywords", 0, true, false }, { "weak lexer", 1, true, false },
    { "case insensitive lexer", 1, false, true }, { "weak case insensitive keywords", 0, true, true }, { "case sensitive weak lexer", 1, true, false } };
struct def { const char* text; const char* meaning; };
static const def DEFS[] = { { "/a/", "a" }, { "/[ab]/", "a|b" }, { "\"ab\"", "ab" }, { "/(a|b)+/", "(a|b)+" }, { "/{s}c/", "(a|b)c" }, { "'b'", "b" }, { "/ab?/", "ab?" } };
static const char* GRAMMARS[] = { "0", "01", "02", "0* 1", "10?", "2 0 1", "(0|1)*2", "02?1", "0|12" };
int sym_main(int argc, char** argv) {
    int K = atoi(argv[1]), from = atoi(argv[2]), count = atoi(argv[3]), only = argc > 4 ? atoi(argv[4]) : -1; bool varied = argc > 5;
    std::vector<symbol> sym(3); std::string text = "language L {\n lexer-symbols { s = /a|b/ }\n"; const char* name[3] = { "x", "y", "'a'" };
    std::string blocks[2];
    for (int i = 0; i < 2; ++i) {
        const kind& k = KINDS[i == 0 && only >= 0 ? only : pick("kind", 8)]; const def& d = DEFS[pick("definition", 7)];
        sym[i].unit = k.unit; sym[i].weak = k.weak;
        sym[i].defs.push_back(regex(d.meaning, k.ci));
        blocks[i] = std::string(" ") + k.words + " { " + name[i] + " = " + d.text + " }\n";
    }
    // the grammar's own symbol is a weak keyword
    sym[2].unit = 0; sym[2].weak = true; sym[2].defs.push_back(regex("a"));
    int gn = from + pick("grammar", count); std::string gt; for (const char* p = GRAMMARS[gn]; *p; ++p) gt += *p >= '0' && *p <= '2' ? std::string(" ") + name[*p - '0'] + " " : std::string(1, *p);
    bool last = pick("grammar last", 2); std::string gb = " grammar { <A> = " + gt + " }\n";
    text += last ? blocks[0] + blocks[1] + gb : gb + blocks[0] + blocks[1]; text += "}\n";
    gram g; g.NN = 1; g.NT = 3; add_rules(g, 0, GRAMMARS[gn]);
    if (std::string(GRAMMARS[gn]).find('2') == std::string::npos) sym.resize(2);      // the grammar's symbol may not be used
    if (!specified(sym, varied)) return 0;
    __sym_note(text.c_str());
    compiled c;
    sym_assert(c.parse(wide(text)), "the definition is accepted");
    c.language(L"L"); c.build(names(L"<A>"));
    sym_assert(c.count(compiler::error::sev_error) == 0, "a correct definition has no errors");
    sym_assert(!c.reported(L"CONFLICT_SHIFT_REDUCE"), "weak and ignored symbols bring no conflicts");
    __sym_refuel();
    int s[8]; for (int i = 0; i < K; ++i) s[i] = sym_int("c", 0, 126);
    ast_parser p(c.lr->get_tables(), false);
    ast_parser::state* st = p.create_parser(new ast_parser_actions(c.lex->get_lexer()->create_stream(new chars(s, K))));
    bool accepted = st->parse();
    delete st;
    // reference
    int n = 0; while (n < K && s[n] != 0) ++n;
    bool ok = lexed_language(sym, g, s, n, K);
    sym_assert(accepted == ok, accepted ? "an accepted input is in the language" : "an input in the language is accepted");
    sym_reach(accepted ? "accepted" : "rejected");
    sym_reach("end");
    return 0;
}

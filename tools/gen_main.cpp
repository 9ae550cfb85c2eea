// Writes the C++ parser for a definition file:  gen FILE.tp LANGUAGE CLASS START...   (files named after CLASS, in the current directory)
#include <fstream>
#include <iostream>
#include "TameParse/Language/language_parser.h"
#include "TameParse/Compiler/parser_stage.h"
#include "TameParse/Compiler/import_stage.h"
#include "TameParse/Compiler/language_stage.h"
#include "TameParse/Compiler/lexer_stage.h"
#include "TameParse/Compiler/lr_parser_stage.h"
#include "TameParse/Compiler/std_console.h"
#include "TameParse/Compiler/OutputStages/cplusplus.h"
using namespace compiler; using namespace std;
static wstring w(const char* s) { return wstring(s, s + char_traits<char>::length(s)); }
int main(int argc, char** argv) {
    if (argc < 5) return 2;
    wstring file = w(argv[1]), language = w(argv[2]), name = w(argv[3]); vector<wstring> start; for (int i = 4; i < argc; ++i) start.push_back(w(argv[i]));
    std_console con(file); console_container cons(&con, false);
    parser_stage p(cons, file); p.compile(); if (con.exit_code()) return 3;
    import_stage im(cons, file, p.definition_file()); im.compile(); if (con.exit_code()) return 4;
    const yy_language::language_block* b = im.language_with_name(language); if (!b) return 5;
    language_stage l(cons, file, b, &im); l.compile(); if (con.exit_code()) return 6;
    lexer_stage lex(cons, file, &l); lex.compile(); if (con.exit_code()) return 7;
    lr_parser_stage lr(cons, file, &l, &lex, start); lr.compile(); if (con.exit_code()) return 8;
    output_cplusplus out(cons, file, &lex, &l, &lr, name, name, L"gen"); out.compile(); return con.exit_code();
}

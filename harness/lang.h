// Compiling a definition file with the real stages: language_parser, import_stage, language_stage, lexer_stage, lr_parser_stage
#pragma once
#include <string>
#include <vector>
#include <set>
#include <sstream>
#include "sym.h"
#include "TameParse/Language/language_parser.h"
#include "TameParse/Compiler/parser_stage.h"
#include "TameParse/Compiler/import_stage.h"
#include "TameParse/Compiler/language_stage.h"
#include "TameParse/Compiler/lexer_stage.h"
#include "TameParse/Compiler/lr_parser_stage.h"
#include "TameParse/Lr/ast_parser.h"
using namespace yy_language; using namespace compiler; using namespace contextfree; using namespace lr;

struct quiet : public console {        // a console that keeps the errors
    std::vector<compiler::error>* errors; std::set<std::wstring> options; std::wstring file; std::wostream* null;
    quiet() : errors(new std::vector<compiler::error>()), file(L"test.tp"), null(new std::wostream(NULL)) {}
    virtual console* clone() const { return new quiet(*this); }
    virtual void report_error(const compiler::error& e) { errors->push_back(e); }
    virtual int exit_code() { return 0; }
    virtual std::wostream& message_stream() { return *null; }
    virtual std::wostream& verbose_stream() { return *null; }
    virtual std::wstring get_option(const std::wstring& n) const { return options.count(n) ? L"1" : L""; }
    virtual const std::wstring& input_file() const { return file; }
    virtual std::istream* open_file(const std::wstring&) { return NULL; }
    virtual std::ostream* open_binary_file_for_writing(const std::wstring&) { return NULL; }
};

struct compiled {       // the stages for one language of a definition file
    quiet con; console_container cons; language_parser parser; bool parsed; import_stage* import; language_stage* lang; lexer_stage* lex; lr_parser_stage* lr;
    compiled() : cons(&con, false), parsed(false), import(NULL), lang(NULL), lex(NULL), lr(NULL) {}
    ~compiled() { delete lr; delete lex; delete lang; delete import; delete con.errors; delete con.null; }
    bool parse(const std::wstring& text) { parsed = parser.parse(text); return parsed; }
    void language(const std::wstring& name) {
        import = new import_stage(cons, L"test.tp", parser.file_definition()); import->compile();
        const language_block* b = import->language_with_name(name);
        if (!b) return;
        lang = new language_stage(cons, L"test.tp", b, import); lang->compile();
    }
    void build(const std::vector<std::wstring>& start) {
        lex = new lexer_stage(cons, L"test.tp", lang); lex->compile();
        lr = new lr_parser_stage(cons, L"test.tp", lang, lex, start); lr->compile();
    }
    int count(compiler::error::severity from) const { int n = 0; for (size_t i = 0; i < con.errors->size(); ++i) n += (*con.errors)[i].sev() >= from; return n; }
    bool reported(const std::wstring& code) const { for (size_t i = 0; i < con.errors->size(); ++i) if ((*con.errors)[i].identifier() == code) return true; return false; }
};

// A stream of (symbolic) characters: the first n of s, up to a character 0
struct chars : public dfa::lexer_symbol_stream {
    const int* s; int p, n; chars(const int* a, int k) : s(a), p(0), n(k) {}
    virtual dfa::lexer_symbol_stream& operator>>(int& r) { if (p < n && s[p] == 0) n = p; r = p < n ? s[p++] : (int) dfa::symbol_set::end_of_input; return *this; }
};
inline std::wstring wide(const std::string& s) { return std::wstring(s.begin(), s.end()); }
inline std::vector<std::wstring> names(const wchar_t* a, const wchar_t* b = NULL) { std::vector<std::wstring> v; v.push_back(a); if (b) v.push_back(b); return v; }

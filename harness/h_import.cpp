// Files that import others and languages in them that inherit from others: every language of a file that is imported, directly or not, is
// found once; languages defined twice, files and languages that are not there, and languages that inherit from themselves are errors.
//   args: files names languages-per-file(1,2) missing(0 everything is there, 1 also a file and a language that are not there, 2 a file that is not a definition, 3 two names for each file)
#include <cstdlib>
#include "lang.h"
static int pick(const char* name, int n) { return n < 2 ? 0 : sym_split(sym_int(name, 0, n - 1), 0, n - 1); }
static std::string filename(int f) { return std::string("f") + (char) ('0' + f) + ".tp"; }
struct disk : public quiet {        // files in memory
    std::vector<std::string>* files;
    disk(std::vector<std::string>* f) : files(f) { file = L"f0.tp"; }
    virtual console* clone() const { return new disk(*this); }
    struct stream : public std::istringstream { stream(const std::string& s) : std::istringstream(s) { ++opened; } ~stream() { --opened; } };
    static int opened;
    virtual std::wstring real_path(const std::wstring& n) { return n.compare(0, 2, L"./") == 0 ? n.substr(2) : n; }
    virtual std::istream* open_file(const std::wstring& name) {
        std::wstring n = real_path(name); for (size_t i = 0; i < files->size(); ++i) if (n == wide(filename((int) i))) return new stream((*files)[i]);
        return NULL;
    }
};
int disk::opened = 0;
static bool has(const std::vector<compiler::error>& e, const wchar_t* code) { for (size_t i = 0; i < e.size(); ++i) if (e[i].identifier() == code) return true; return false; }
static int worst(const std::vector<compiler::error>& e) { int n = 0; for (size_t i = 0; i < e.size(); ++i) n += e[i].sev() >= compiler::error::sev_error; return n; }
struct deflang { int file, name, from, id; };      // from: -1 none, -2 one that is not there
int sym_main(int argc, char** argv) {
    int F = atoi(argv[1]), N = atoi(argv[2]), per = atoi(argv[3]), missing = atoi(argv[4]);
    std::vector<std::string> text(F); std::vector<std::vector<int> > imports(F); std::vector<deflang> defs; std::string all;
    for (int f = 0; f < F; ++f) {
        std::string im, la;
        for (int g = 0; g < F + (missing == 1 || missing == 2); ++g) if (int i = pick("imports", missing == 3 ? 3 : 2)) { imports[f].push_back(g); im += std::string("import \"") + (i == 2 ? "./" : "") + filename(g) + "\"\n"; }
        for (int k = 0; k < per; ++k) {
            deflang d; d.file = f; d.id = (int) defs.size(); d.name = pick("name", N + 1) - 1;
            if (d.name < 0) { if (k == 0 && f == 0) return 0; break; }
            d.from = pick("inherits", N + 1 + (missing == 1)) - 1; if (d.from == N) d.from = -2;
            std::string x(1, (char) ('0' + d.id));
            la += std::string("language L") + (char) ('0' + d.name) + (d.from == -1 ? "" : std::string(" : L") + (d.from == -2 ? '9' : (char) ('0' + d.from))) + " { lexer { x" + x + " = /" + x + "/ } grammar { <A" + x + "> = x" + x + " } }\n";
            defs.push_back(d);
        }
        text[f] = f % 2 ? im + la : la + im;
        all += "-- " + filename(f) + "\n" + text[f];
    }
    if (missing == 2) text.push_back("language L0 {\n lexer\n");
    __sym_note(all.c_str());
    // what is to be found
    std::vector<bool> seen(F + 1, false); std::vector<int> todo(1, 0); seen[0] = true; bool lost = false;
    while (!todo.empty()) { int f = todo.back(); todo.pop_back(); for (size_t i = 0; i < imports[f].size(); ++i) { int g = imports[f][i]; if (g == F) lost = true; else if (!seen[g]) { seen[g] = true; todo.push_back(g); } } }
    std::vector<int> found(N, -1); bool twice = false;
    for (size_t i = 0; i < defs.size(); ++i) if (seen[defs[i].file]) { int& at = found[defs[i].name]; if (at >= 0) twice = true; at = (int) i; }
    disk* d = new disk(&text); console_container cons(d, true);
    {
        parser_stage root(cons, L"f0.tp"); root.compile();
        sym_assert(d->errors->empty(), "the file is accepted");
        import_stage import(cons, L"f0.tp", root.definition_file()); import.compile();
        sym_assert(disk::opened == 0, "every file is closed after it was read");
        sym_assert(has(*d->errors, L"CANT_OPEN_FILE") == (lost && missing == 1), "a file that cannot be read is an error");
        sym_assert(has(*d->errors, L"AMBIGUOUS_LANGUAGE_DEFINITION") == twice, "a language that is defined more than once is an error, one that is imported more than once is not");
        sym_assert(worst(*d->errors) > 0 || !(lost || twice), "errors are errors"); sym_assert(worst(*d->errors) == 0 || lost || twice, "nothing else is an error");
        int count = 0; for (import_stage::language_iterator i = import.begin_language(); i != import.end_language(); ++i) ++count;
        int want = 0; for (int n = 0; n < N; ++n) want += found[n] >= 0;
        sym_assert(count == want, "every language is found once");
        for (int n = 0; n < N; ++n) {
            std::wstring name = L"L"; name += (wchar_t) (L'0' + n);
            const language_block* b = import.language_with_name(name);
            sym_assert((b != NULL) == (found[n] >= 0), "exactly the languages of the imported files are found");
            if (b) sym_assert(b->identifier() == name, "the language has its name");
            if (b && !twice) sym_assert(d->real_path(import.file_with_language(name)) == wide(filename(defs[found[n]].file)), "the file of a language is known");
        }
        if (lost) sym_reach("no file");
        if (twice) { sym_reach("twice"); return 0; }
        // the language in the first file
        std::vector<bool> in(defs.size(), false); int at = 0; bool absent = false, loop = false;
        for (;;) { if (in[at]) { loop = true; break; } in[at] = true; int from = defs[at].from; if (from == -1) break; if (from == -2 || found[from] < 0) { absent = true; break; } at = found[from]; }
        std::vector<compiler::error>().swap(*d->errors);
        std::wstring name = L"L"; name += (wchar_t) (L'0' + defs[0].name);
        language_stage lang(cons, L"f0.tp", import.language_with_name(name), &import); lang.compile();
        sym_assert(has(*d->errors, L"CANT_FIND_LANGUAGE") == absent, "a language that inherits from one that is not there is an error");
        sym_assert((worst(*d->errors) > 0) == (absent || loop), loop ? "a language that inherits from itself is an error" : "a language that inherits from another is no error");
        if (absent) sym_reach("no language");
        if (loop) sym_reach("loop");
        if (absent || loop) return 0;
        lexer_stage lex(cons, L"f0.tp", &lang); lex.compile();
        int s[1] = { sym_int("c", 1, 126) };
        dfa::lexeme_stream* st = lex.get_lexer()->create_stream(new chars(s, 1)); dfa::lexeme* got = NULL; *st >> got; dfa::lexeme_container l(got, true);
        bool defined = false; for (size_t i = 0; i < defs.size(); ++i) if (in[i]) defined = defined | (s[0] == '0' + defs[i].id);
        bool matched = l->matched() >= 0;
        sym_assert(matched == defined, "the symbols are those of the language and all it inherits from");
        sym_reach(matched ? "symbol" : "no symbol");
        delete st;
    }
    sym_reach("end");
    return 0;
}

// Weak and ignored symbols on every small conflict-free grammar: a token is taken as itself when the language allows it there, a weak symbol
// otherwise as its strong symbol, an ignored symbol otherwise is skipped, and the input is rejected when neither is possible.
//   args: mode(0 ignored, 1 weak, 2 both, 3 two weak) nonterminals terminals rules length K [EBNF inner length]
#include <cstdlib>
#include "parse_ref.h"
#include "TameParse/Lr/weak_symbols.h"
#include "TameParse/Lr/ignored_symbols.h"
int sym_main(int argc, char** argv) {
    int mode = atoi(argv[1]), NN = atoi(argv[2]), NT = atoi(argv[3]), R = atoi(argv[4]), len = atoi(argv[5]), K = atoi(argv[6]), in = argc > 7 ? atoi(argv[7]) : 0;
    gram g = choose_bnf(NN, NT, R, len);
    if (in) { it e = choose_ebnf(g, in); int where = pick("where", (int) g.rules[0].rhs.size() + 1); g.rules[0].rhs.insert(g.rules[0].rhs.begin() + where, e); }
    reference ref(g, K); prefixes pre(ref);
    if (!pre.sound()) return 0;
    int skip = -1, weak[2] = { -1, -1 }, strong = -1;
    if (mode == 0 || mode == 2) skip = pick("ignored", NT);
    if (mode) {
        strong = pick("strong", NT); if (strong == skip) return 0;
        weak[0] = pick("weak", NT); if (weak[0] == skip || weak[0] == strong) return 0;
        if (mode == 3) { weak[1] = pick("weak", NT); if (weak[1] <= weak[0] || weak[1] == strong) return 0; }
    }
    std::string note = g.text(); if (skip >= 0) note += std::string(" ignore ") + (char) ('a' + skip);
    for (int i = 0; i < 2; ++i) if (weak[i] >= 0) note += std::string(" weak ") + (char) ('a' + weak[i]) + " for " + (char) ('a' + strong);
    __sym_note(note.c_str());
    grammar lib; std::vector<int> ids; build(lib, g, ids);
    terminal_dictionary dict; item_container root(new nonterminal(ids[0]), true);
    { lalr_builder plain(lib, dict); plain.add_initial_state(root); plain.complete_parser(); conflict_list c; conflict::find_conflicts(plain, c); if (!c.empty()) return 0; }
    lalr_builder b(lib, dict); int start = b.add_initial_state(root);
    weak_symbols ws(&lib);
    if (mode) {
        int calls = mode == 3 ? pick("calls", 3) : 0;       // both in one call, or one after the other, in either order
        for (int c = 0; c < (calls ? 2 : 1); ++c) {
            item_set w(&lib); for (int i = 0; i < 2; ++i) if (weak[i] >= 0 && (!calls || (i == c) == (calls == 1))) w.insert(item_container(new terminal(weak[i]), true));
            ws.add_symbols(item_container(new terminal(strong), true), w);
        }
        b.add_rewriter(action_rewriter_container(new weak_symbols(ws), true));
    }
    if (skip >= 0) { ignored_symbols* ig = new ignored_symbols(); ig->add_item(item_container(new terminal(skip), true)); b.add_rewriter(action_rewriter_container(ig, true)); }
    b.complete_parser();
    conflict_list conflicts; conflict::find_conflicts(b, conflicts);
    sym_assert(conflicts.empty(), "weak and ignored symbols bring no conflicts into a grammar that has none");
    int s[8]; for (int i = 0; i < K; ++i) s[i] = sym_int("t", 0, NT);
    ast_parser p(b, mode ? &ws : NULL);
    ast_parser::state* st = p.create_parser(new ast_parser_actions(new tokens(s, K, NT)), start);
    bool accepted = st->parse();
    // reference
    std::vector<int> v; int from[8]; bool ok = true;
    for (int i = 0; ok && i < K; ++i) {
        int t = sym_split(s[i], 0, NT); if (t == NT) break;
        if (pre.has(v, t)) { from[v.size()] = i; v.push_back(t); }
        else if ((t == weak[0] || t == weak[1]) && pre.has(v, strong)) { from[v.size()] = i; v.push_back(strong); sym_reach("strong"); }
        else if (t == skip) sym_reach("skipped");
        else ok = false;
    }
    if (ok) ok = ref.nt[0][ref.st.code(v)];
    sym_assert(accepted == ok, accepted ? "an accepted input is in the language" : "an input in the language is accepted");
    if (accepted) {
        tree t(lib, s, from);
        t.node(*st->get_item(), root);
        sym_assert(t.at == (int) v.size(), "the tree covers the whole input");
        sym_reach("accepted");
    } else sym_reach("rejected");
    delete st;
    sym_reach("end");
    return 0;
}

// The C++ sources generated (on this run, by the real generator) for the definitions in gen/: their lexer and parser do what the tables in memory
// do, and the fields of their syntax tree nodes, in the order of the definition, are the input.
//   args: definition mode(0 parse, 1 lexer, 2 tables) K lo hi [start]
#include <cstdlib>
#include "lang.h"
#include "defs.h"
#include "g0.h"
#include "g1.h"
#include "g2.h"
#include "g3.h"
#include "g4.h"
#include "g5.h"
#include "gram_ref.h"
using dfa::position;
struct token { int sym; position from, to; };
struct walk {       // the leaves of a tree must be the tokens; a node begins where its first item does and ends where its last one does; one without items is at the next token
    std::vector<token> t; position end; size_t at; const terminal_dictionary* dict; compiled* c;
    walk() : end(-1, -1, -1), at(0) {}       // (at the end of the input there is no position)
    position next() const { return at < t.size() ? t[at].from : end; }
    template<class P> position leaf(const P& p, const wchar_t* name) {
        sym_assert(p.item() != NULL, "a field of the rule that was used is set");
        sym_assert(at < t.size() && (t[at].sym == dict->symbol_for_name(name) || strong(t[at].sym) == dict->symbol_for_name(name)), "the leaves are the tokens of the input");
        sym_assert(p->pos() == t[at].from && p->final_pos() == t[at].to, "a leaf is where its token is");
        return t[at++].to;
    }
    int strong(int sym) const { return c->lr->get_tables()->strong_for_weak(sym); }
    // an item that matched nothing
    template<class P> position none(const P& p) { sym_assert(p->pos() == next() && p->final_pos() == next(), "an empty node is at the next token"); return next(); }
    template<class P> position done(const P& p, position from, position to) { sym_assert(p->pos() == from && p->final_pos() == to, "a node is where its tokens are"); return to; }
};
#define NODE sym_assert(p.item() != NULL, "a field of the rule that was used is set"); position from = w.next(), to;
#define DONE return w.done(p, from, to);
#define UNSET(x) sym_assert(p->x.item() == NULL, "the fields of the other rules are not set")
namespace G0 {
    typedef yy_gen::yy_g0 G;
    typedef util::syntax_ptr<G::yy_S_n> S; typedef util::syntax_ptr<G::yy_E_n> E;
    static position s(walk& w, const S& p);
    static position e(walk& w, const E& p) {
        NODE
        if (p->yy_id.item()) { to = w.leaf(p->yy_id, L"id"); UNSET(yy_k); UNSET(yy_inner); UNSET(yy_t); UNSET(yy_E); UNSET(yy_S); }
        else if (p->yy_k.item()) { w.leaf(p->yy_k, L"k"); e(w, p->yy_inner); w.leaf(p->yy_t, L"'t'"); to = e(w, p->yy_E); UNSET(yy_S); UNSET(yy__openparen_); }
        else { w.leaf(p->yy__openparen_, L"'('"); s(w, p->yy_S); to = w.leaf(p->yy__closeparen_, L"')'"); UNSET(yy_E); UNSET(yy_inner); sym_reach("nested"); }
        DONE
    }
    static position s(walk& w, const S& p) {
        NODE
        to = e(w, p->yy_first);
        sym_assert(p->yy_rest.item() && p->yy_last.item(), "a field of the rule that was used is set");
        if (p->yy_rest->size() == 0) to = w.none(p->yy_rest);
        else { position f = w.next(); for (size_t i = 0; i < p->yy_rest->size(); ++i) { position g = w.next(); w.leaf((*p->yy_rest)[i]->yy__comma_, L"','"); to = e(w, (*p->yy_rest)[i]->yy_E); w.done((*p->yy_rest)[i], g, to); } w.done(p->yy_rest, f, to); sym_reach("list"); }
        if (!p->yy_last->yy__semicolon_.item()) to = w.none(p->yy_last); else { position f = w.next(); to = w.leaf(p->yy_last->yy__semicolon_, L"';'"); w.done(p->yy_last, f, to); }
        DONE
    }
    static void start(walk& w, G::state* st, int) { util::syntax_ptr<G::syntax_node> r = st->get_item(); s(w, r.cast_to<G::yy_S_n>()); }
    static G::state* create(dfa::lexeme_stream* l, int) { return G::create_yy_S(l, true); }
}
namespace G1 {
    typedef yy_gen::yy_g1 G; typedef util::syntax_ptr<G::yy_S_n> S; typedef util::syntax_ptr<G::yy_T_n> T;
    static position t(walk& w, const T& p) {
        NODE
        if (p->yy_one.item()) { w.leaf(p->yy_one, L"'x'"); w.leaf(p->yy_two, L"'x'"); to = w.leaf(p->yy_x, L"'x'"); UNSET(yy_y); UNSET(yy_T); UNSET(yy_last); sym_reach("names"); }
        else if (p->yy_y.item()) {
            w.leaf(p->yy_y, L"'y'"); sym_assert(p->yy_last.item() != NULL, "a field of the rule that was used is set");
            position f = w.next(); if (p->yy_last->yy_z.item()) { w.done(p->yy_last, f, w.leaf(p->yy_last->yy_z, L"'z'")); sym_reach("optional"); } else w.none(p->yy_last);
            to = t(w, p->yy_T); UNSET(yy_two); UNSET(yy_x);
        } else { to = w.none(p); UNSET(yy_two); UNSET(yy_x); UNSET(yy_T); UNSET(yy_last); }
        DONE
    }
    static void start(walk& w, G::state* st, int) {
        util::syntax_ptr<G::syntax_node> r = st->get_item(); S p = r.cast_to<G::yy_S_n>();
        NODE sym_assert(p->yy_alt.item() && p->yy_list_of_d.item(), "a field of the rule that was used is set");
        if (p->yy_alt->yy_a.item()) { w.done(p->yy_alt, from, w.leaf(p->yy_alt->yy_a, L"'a'")); UNSET(yy_alt->yy_b); UNSET(yy_alt->yy_c); }
        else { w.leaf(p->yy_alt->yy_b, L"'b'"); w.done(p->yy_alt, from, w.leaf(p->yy_alt->yy_c, L"'c'")); }
        sym_assert(p->yy_list_of_d->size() > 0, "a list of one or more is not empty");
        position f = w.next(); for (size_t i = 0; i < p->yy_list_of_d->size(); ++i) { position g = w.next(); to = w.leaf((*p->yy_list_of_d)[i]->yy_d, L"'d'"); w.done((*p->yy_list_of_d)[i], g, to); } w.done(p->yy_list_of_d, f, to);
        to = t(w, p->yy_T);
        w.done(p, from, to);
    }
    static G::state* create(dfa::lexeme_stream* l, int) { return G::create_yy_S(l, true); }
}
namespace G2 {
    typedef yy_gen::yy_g2 G; typedef util::syntax_ptr<G::yy_S_n> S; typedef util::syntax_ptr<G::yy_T_n> T;
    static position t(walk& w, const T& p) {
        NODE sym_assert(p->yy_optional_f_T.item() != NULL, "a field of the rule that was used is set");
        if (p->yy_optional_f_T->yy_f.item()) { w.leaf(p->yy_optional_f_T->yy_f, L"'f'"); w.done(p->yy_optional_f_T, from, t(w, p->yy_optional_f_T->yy_T)); sym_reach("optional"); } else { w.none(p->yy_optional_f_T); UNSET(yy_optional_f_T->yy_T); }
        to = w.leaf(p->yy_g, L"'g'");
        DONE
    }
    static void start(walk& w, G::state* st, int) {
        util::syntax_ptr<G::syntax_node> r = st->get_item(); S p = r.cast_to<G::yy_S_n>();
        NODE sym_assert(p->yy_list.item() && p->yy_tail.item() && p->yy_optional_T.item(), "a field of the rule that was used is set");
        if (p->yy_list->size() == 0) w.none(p->yy_list);
        for (size_t i = 0; i < p->yy_list->size(); ++i) {
            position f = w.next(); const auto* e = (*p->yy_list)[i]; sym_assert(e && e->yy_in.item(), "a field of the rule that was used is set");
            if (e->yy_in->size() == 0) w.none(e->yy_in);
            else {
                for (size_t k = 0; k < e->yy_in->size(); ++k) {
                    position g = w.next(); const auto* a = (*e->yy_in)[k]; w.leaf(a->yy_a, L"'a'"); position h = w.next();
                    if (a->yy_optional_b->yy_b.item()) w.done(a->yy_optional_b, h, to = w.leaf(a->yy_optional_b->yy_b, L"'b'")); else to = w.none(a->yy_optional_b);
                    w.done(a, g, to); sym_reach("list in a list");
                }
                w.done(e->yy_in, f, to);
            }
            to = w.leaf(e->yy_c, L"'c'"); w.done(e, f, to);
        }
        if (p->yy_list->size()) w.done(p->yy_list, from, to);
        sym_assert(p->yy_tail->size() > 0, "a list of one or more is not empty");
        {
            position f = w.next();
            for (size_t i = 0; i < p->yy_tail->size(); ++i) {
                position g = w.next(); const auto* e = (*p->yy_tail)[i]; sym_assert(e && e->yy_one_of_d_or_e.item(), "a field of the rule that was used is set"); const auto& o = e->yy_one_of_d_or_e;
                if (o->yy_d.item()) { to = w.leaf(o->yy_d, L"'d'"); sym_assert(!o->yy_e.item(), "the fields of the other rules are not set"); } else to = w.leaf(o->yy_e, L"'e'");
                w.done(o, g, to); w.done(e, g, to);
            }
            w.done(p->yy_tail, f, to);
        }
        position f = w.next(); if (p->yy_optional_T->yy_T.item()) w.done(p->yy_optional_T, f, to = t(w, p->yy_optional_T->yy_T)); else to = w.none(p->yy_optional_T);
        w.done(p, from, to);
    }
    static G::state* create(dfa::lexeme_stream* l, int) { return G::create_yy_S(l, true); }
}
namespace G3 {
    typedef yy_gen::yy_g3 G; typedef util::syntax_ptr<G::yy_S_n> S; typedef util::syntax_ptr<G::yy_T_n> T; typedef util::syntax_ptr<G::yy_P_n> P;
    static position t(walk& w, const T& p) {
        NODE
        if (p->yy_a.item()) { w.leaf(p->yy_a, L"number"); to = w.leaf(p->yy_b, L"number"); UNSET(yy_number); UNSET(yy_optional_wide); UNSET(yy_P); sym_reach("guard"); }
        else if (p->yy_number.item()) {
            to = w.leaf(p->yy_number, L"number"); position f = w.next(); sym_assert(p->yy_optional_wide.item() != NULL, "a field of the rule that was used is set");
            if (p->yy_optional_wide->yy_wide.item()) w.done(p->yy_optional_wide, f, to = w.leaf(p->yy_optional_wide->yy_wide, L"wide")); else to = w.none(p->yy_optional_wide);
            UNSET(yy_b); UNSET(yy_P);
        } else {
            const P& q = p->yy_P; sym_assert(q.item() != NULL, "a field of the rule that was used is set"); w.leaf(q->yy__plus_, L"'+'"); to = w.leaf(q->yy_wide, L"wide"); w.done(q, from, to); UNSET(yy_b); UNSET(yy_optional_wide); sym_reach("plus");
        }
        DONE
    }
    static void start(walk& w, G::state* st, int which) {
        util::syntax_ptr<G::syntax_node> r = st->get_item(); if (which) { t(w, r.cast_to<G::yy_T_n>()); return; }
        S p = r.cast_to<G::yy_S_n>();
        NODE if (p->yy_in.item()) { w.leaf(p->yy_in, L"in"); to = w.leaf(p->yy_name, L"number"); UNSET(yy_id); UNSET(yy_rest); sym_reach("weak"); }
        else if (p->yy_strong.item()) { w.leaf(p->yy__slash_, L"'/'"); bool weak = w.at < w.t.size() && w.t[w.at].sym == w.dict->symbol_for_name(L"in"); to = w.leaf(p->yy_strong, L"id"); UNSET(yy_id); UNSET(yy_in); if (weak) sym_reach("strong"); }
        else { w.leaf(p->yy_id, L"id"); to = t(w, p->yy_rest); UNSET(yy_name); }
        w.done(p, from, to);
    }
    static G::state* create(dfa::lexeme_stream* l, int which) { return which ? G::create_yy_T(l, true) : G::create_yy_S(l, true); }
}
namespace G4 {
    typedef yy_gen::yy_g4 G; typedef util::syntax_ptr<G::yy_S_n> S; typedef util::syntax_ptr<G::yy_T_n> T; typedef util::syntax_ptr<G::yy_A_B_n> A; typedef util::syntax_ptr<G::yy_A_B_2_n> B; typedef util::syntax_ptr<G::yy_state_2_n> X;
    static position t(walk& w, const T& p) {
        NODE
        if (p->yy_a_b.item()) { w.leaf(p->yy_a_b, L"a-b"); to = w.leaf(p->yy_a_b_2, L"a_b"); UNSET(yy__greaterthan_); sym_reach("names"); }
        else if (p->yy__lessthan_.item()) { w.leaf(p->yy__lessthan_, L"'<'"); w.leaf(p->yy__equals__greaterthan_, L"\"=>\""); to = w.leaf(p->yy__minus_, L"'-'"); UNSET(yy__greaterthan_); UNSET(yy_a_b_2); }
        else if (p->yy___.item()) { w.leaf(p->yy___, L"\"--\""); to = w.leaf(p->yy__greaterthan_, L"'>'"); }
        else { w.leaf(p->yy__percent_, L"\"%\""); to = w.leaf(p->yy__backslash_t, L"\"\\t\""); UNSET(yy__minus_); sym_reach("tab"); }
        DONE
    }
    static position a(walk& w, const A& p) { NODE to = w.leaf(p->yy_x, L"'x'"); DONE }
    static position b(walk& w, const B& p) { NODE to = w.leaf(p->yy_y, L"'y'"); DONE }
    static position x(walk& w, const X& p) { NODE to = w.leaf(p->yy_z, L"'z'"); DONE }
    static void start(walk& w, G::state* st, int) {
        util::syntax_ptr<G::syntax_node> r = st->get_item(); S p = r.cast_to<G::yy_S_n>();
        NODE
        if (p->yy_f.item()) { w.leaf(p->yy_f, L"'a'"); to = t(w, p->yy_T); UNSET(yy_f_2); UNSET(yy_b); }
        else if (p->yy_b.item()) { w.leaf(p->yy_b, L"'b'"); to = t(w, p->yy_f_2); UNSET(yy_T); sym_reach("same name"); }
        else if (p->yy_num_2.item()) { w.leaf(p->yy_num, L"num"); to = w.leaf(p->yy_num_2, L"num_2"); UNSET(yy_num_3); }
        else if (p->yy_num.item()) { w.leaf(p->yy_num, L"num"); to = w.leaf(p->yy_num_3, L"num"); sym_reach("numbered"); }
        else if (p->yy__opensquare_.item()) { w.leaf(p->yy__opensquare_, L"'['"); a(w, p->yy_A_B); b(w, p->yy_A_B_2); to = w.leaf(p->yy__closesquare_, L"']'"); UNSET(yy_state); }
        else if (p->yy__openparen__star_.item()) {
            w.leaf(p->yy__openparen__star_, L"\"(*\""); sym_assert(p->yy_optional_A_B.item() != NULL, "a field of the rule that was used is set");
            position f = w.next(); if (p->yy_optional_A_B->yy_A_B.item()) w.done(p->yy_optional_A_B, f, a(w, p->yy_optional_A_B->yy_A_B)); else w.none(p->yy_optional_A_B);
            to = w.leaf(p->yy__star__closeparen_, L"\"*)\""); UNSET(yy_A_B); UNSET(yy_A_B_2); sym_reach("comment");
        } else { w.leaf(p->yy_state, L"state"); to = x(w, p->yy_state_2); }
        w.done(p, from, to);
    }
    static G::state* create(dfa::lexeme_stream* l, int) { return G::create_yy_S(l, true); }
    static void constants(compiled& c) {
        const terminal_dictionary& d = *c.lang->terminals(); contextfree::grammar& g = *c.lang->grammar();
        sym_assert(G::t::yy_state == d.symbol_for_name(L"state") && G::t::yy_num == d.symbol_for_name(L"num") && G::t::yy_num_2 == d.symbol_for_name(L"num_2") && G::t::yy_a == d.symbol_for_name(L"'a'") && G::t::yy_z == d.symbol_for_name(L"'z'") && G::t::yy__opensquare_ == d.symbol_for_name(L"'['") &&
            G::t::yy_a_b + G::t::yy_a_b_1 == d.symbol_for_name(L"a-b") + d.symbol_for_name(L"a_b") && G::t::yy__openparen__star_ == d.symbol_for_name(L"\"(*\"") && G::t::yy__minus_ == d.symbol_for_name(L"'-'") && G::t::yy__equals__greaterthan_ == d.symbol_for_name(L"\"=>\""), "the constants for terminals");
        sym_assert(G::nt::yy_S == g.identifier_for_item(g.get_nonterminal(L"<S>")) && G::nt::yy_T == g.identifier_for_item(g.get_nonterminal(L"<T>")) && G::nt::yy_state == g.identifier_for_item(g.get_nonterminal(L"<state>")) && G::nt::yy_A_B + G::nt::yy_A_B_1 == g.identifier_for_item(g.get_nonterminal(L"<A-B>")) + g.identifier_for_item(g.get_nonterminal(L"<A_B>")), "the constants for nonterminals");
    }
}
namespace G5 {
    typedef yy_gen::yy_g5 G; typedef util::syntax_ptr<G::yy_S_n> S;
    static void start(walk& w, G::state* st, int) {
        util::syntax_ptr<G::syntax_node> r = st->get_item(); S p = r.cast_to<G::yy_S_n>();
        NODE to = from;
        sym_assert(p->yy_all.item() && p->yy_all->size() > 0, "a list of one or more is not empty");
        for (size_t i = 0; i < p->yy_all->size(); ++i) {
            const auto& o = (*p->yy_all)[i]->yy_E; sym_assert(o.item() != NULL, "a field of the rule that was used is set");
            position f = w.next();
            to = o->yy_w.item() ? w.leaf(o->yy_w, L"w") : o->yy_id.item() ? w.leaf(o->yy_id, L"id") : o->yy_k.item() ? w.leaf(o->yy_k, L"k") : o->yy_l.item() ? w.leaf(o->yy_l, L"l") : o->yy_m.item() ? w.leaf(o->yy_m, L"m") : w.leaf(o->yy__comma_, L"','");
            w.done(o, f, to); w.done((*p->yy_all)[i], f, to);
        }
        w.done(p, from, to);
    }
    static G::state* create(dfa::lexeme_stream* l, int) { return G::create_yy_S(l, true); }
}
static bool same(const parser_tables::action* a, const parser_tables::action* ea, const parser_tables::action* b, const parser_tables::action* eb, int sym) {
    for (;; ++a, ++b) {
        bool la = a != ea && a->symbolId == sym, lb = b != eb && b->symbolId == sym;
        if (la != lb) return false; if (!la) return true;
        if (a->type != b->type || a->nextState != b->nextState) return false;
    }
}
template<class G> static void tables(compiled& c) {
    const parser_tables& m = *c.lr->get_tables(); const parser_tables& g = G::ast_parser.get_tables();
    sym_assert(m.count_states() == g.count_states() && m.count_reduce_rules() == g.count_reduce_rules() && m.count_end_of_guards() == g.count_end_of_guards() && m.count_weak_to_strong() == g.count_weak_to_strong() && m.end_of_input() == g.end_of_input() && m.end_of_guard() == g.end_of_guard(), "the generated tables are as large");
    for (int i = 0; i < m.count_reduce_rules(); ++i) sym_assert(m.rule(i).identifier == g.rule(i).identifier && m.rule(i).ruleId == g.rule(i).ruleId && m.rule(i).length == g.rule(i).length, "the generated reduce rules");
    int st = gr::pick("state", m.count_states()), x = sym_int("symbol", -2, 40);
    const parser_tables::action *a, *b;
    a = m.find_terminal(st, x); b = g.find_terminal(st, x); sym_assert(same(a, m.last_terminal_action(st), b, g.last_terminal_action(st), x), "the generated actions for terminals");
    a = m.find_nonterminal(st, x); b = g.find_nonterminal(st, x); sym_assert(same(a, m.last_nonterminal_action(st), b, g.last_nonterminal_action(st), x), "the generated actions for nonterminals");
    sym_assert(m.strong_for_weak(x) == g.strong_for_weak(x), "the generated weak symbols"); sym_assert(m.has_end_of_guard(st) == g.has_end_of_guard(st), "the generated guards");
}
template<class G> static void run(int mode, int K, int lo, int hi, int which, compiled& c, typename G::state* (*create)(dfa::lexeme_stream*, int), void (*start)(walk&, typename G::state*, int)) {
    if (mode == 2) { tables<G>(c); sym_reach("end"); return; }
    int s[8]; for (int i = 0; i < K; ++i) s[i] = sym_int("c", lo, hi);
    walk w; w.c = &c; w.dict = c.lang->terminals();
    dfa::lexeme_stream* ls = c.lex->get_lexer()->create_stream(new chars(s, K)); dfa::lexeme_stream* gs = mode ? G::lexer.create_stream(new chars(s, K)) : NULL;
    for (;;) {
        dfa::lexeme* l = NULL; (*ls) >> l;
        if (mode) {
            dfa::lexeme* g = NULL; (*gs) >> g;
            sym_assert((g == NULL) == (l == NULL), "the generated lexer finds as many lexemes");
            if (g && l) { sym_assert(g->matched() == l->matched() && g->pos() == l->pos() && g->final_pos() == l->final_pos() && g->content<wchar_t>() == l->content<wchar_t>(), "the generated lexer finds the same lexemes"); if (l->matched() < 0) sym_reach("no match"); }
            delete g;
        }
        if (!l) break;
        token t; t.sym = l->matched(); t.from = l->pos(); t.to = l->final_pos();
        if (t.sym < 0 || !c.lang->ignored_symbols()->count(t.sym)) w.t.push_back(t);
        delete l;
    }
    delete ls; delete gs;
    if (!mode) {
        ast_parser p(c.lr->get_tables(), false); ast_parser::state* ms = p.create_parser(new ast_parser_actions(c.lex->get_lexer()->create_stream(new chars(s, K))), which);
        bool want = ms->parse(); delete ms;
        typename G::state* st = create(G::lexer.create_stream(new chars(s, K)), which);
        bool got = st->parse();
        sym_assert(got == want, "the generated parser accepts what the parser in memory accepts");
        if (got) { start(w, st, which); sym_assert(w.at == w.t.size(), "the tree covers the whole input"); sym_reach("accepted"); } else sym_reach("rejected");
        delete st;
    }
    sym_reach("end");
}
int sym_main(int argc, char** argv) {
    int d = atoi(argv[1]), mode = atoi(argv[2]), K = atoi(argv[3]), lo = atoi(argv[4]), hi = atoi(argv[5]), which = argc > 6 ? atoi(argv[6]) : 0;
    compiled c; sym_assert(c.parse(wide(DEFS[d])), "the definition is accepted");
    c.language(L"L"); c.build(d == 3 ? names(L"<S>", L"<T>") : names(L"<S>"));
    sym_assert(c.count(compiler::error::sev_error) == 0, "a correct definition has no errors");
    __sym_refuel();
    switch (d) {
        case 0: run<G0::G>(mode, K, lo, hi, which, c, G0::create, G0::start); break;
        case 1: run<G1::G>(mode, K, lo, hi, which, c, G1::create, G1::start); break;
        case 2: run<G2::G>(mode, K, lo, hi, which, c, G2::create, G2::start); break;
        case 4: if (mode == 2) G4::constants(c); run<G4::G>(mode, K, lo, hi, which, c, G4::create, G4::start); break;
        case 5: run<G5::G>(mode, K, lo, hi, which, c, G5::create, G5::start); break;
        default: run<G3::G>(mode, K, lo, hi, which, c, G3::create, G3::start);
    }
    return 0;
}

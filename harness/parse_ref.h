// A stream of symbolic tokens for the real parser, and a check that an AST is a derivation of those tokens by the grammar's rules.
#ifndef PARSE_REF_H
#define PARSE_REF_H
#include "gram_ref.h"
#include "TameParse/Lr/lalr_builder.h"
#include "TameParse/Lr/conflict.h"
#include "TameParse/Lr/ast_parser.h"
#include "TameParse/Lr/parser.h"
using namespace gr; using namespace lr; using namespace dfa; using util::astnode;
struct tokens : lexeme_stream {
    const int* s; int p, n, end; tokens(const int* a, int k, int e) : s(a), p(0), n(k), end(e) {}
    virtual lexeme_stream& operator>>(lexeme*& r) {
        if (p >= n || s[p] == end) { r = NULL; return *this; }
        lexeme::symbols text; text += p;
        r = new lexeme(text, position(p, 0, p), s[p]); ++p; return *this;
    }
    virtual void set_initial_state(int) {}
};
struct tree {
    const grammar& g; const int* s; int at; const int* from;      // from: the input position of each token kept (all of them if NULL)
    tree(const grammar& gram, const int* a, const int* f = NULL) : g(gram), s(a), at(0), from(f) {}
    void leaf(const astnode& n, const item& want) {
        if (want.type() == item::guard) { sym_assert(n.lexeme().item() && n.lexeme()->content()[0] == (from ? from[at] : at), "a guard has the token it stands before"); return; }
        sym_assert(want.type() == item::terminal, "a token stands where the rule has a terminal");
        sym_assert(n.lexeme().item() && n.lexeme()->content()[0] == (from ? from[at] : at), "the leaves are the input in order");
        sym_assert(n.lexeme()->matched() == want.symbol() , "the token is the terminal the rule asks for");
        ++at;
    }
    void node(const astnode& n, const item_container& want) {
        if (n.lexeme().item()) { leaf(n, *want); return; }
        sym_assert(n.item_identifier() == g.identifier_for_item(want), "a node is for the item its parent's rule asks for");
        const rule_container& r = g.rule_with_identifier(n.rule());
        sym_assert(r->nonterminal() == want, "the node's rule is a rule of that item");
        if (want->type() == item::nonterminal) {
            const rule_list& l = g.rules_for_nonterminal(want->symbol());
            bool found = false; for (size_t i = 0; i < l.size(); ++i) found |= l[i]->identifier(g) == n.rule();
            sym_assert(found, "the node's rule is one of the grammar's");
        }
        sym_assert(n.children().size() == r->items().size(), "as many children as the rule has items");
        for (size_t i = 0; i < n.children().size() && i < r->items().size(); ++i) {
            sym_assert(n.children()[i].item() != NULL, "a child is present"); node(*n.children()[i], r->items()[i]);
        }
    }
};
#endif

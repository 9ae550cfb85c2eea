// Expression grammars with operators of any precedence and associativity: a shift/reduce conflict is resolved exactly when both sides have a
// precedence and (for equal precedences) the operator reduced is left or right associative, and the trees then follow the precedences.
//   args: rules operators K
#include <cstdlib>
#include <climits>
#include "parse_ref.h"
#include "TameParse/Lr/precedence_rewriter.h"
enum { INFIX, PREFIX, POSTFIX, TERNARY };
typedef precedence_rewriter PR;
static int prec[8], assoc[8];
struct rewriter : precedence_rewriter {
    virtual action_rewriter* clone() const { return new rewriter(*this); }
    virtual int get_precedence(const item_container& t, const lr0_item_set& shifts) const {
        for (lr0_item_set::const_iterator i = shifts.begin(); i != shifts.end(); ++i)
            sym_assert(!(*i)->at_end() && (*i)->rule()->items()[(*i)->offset()] == t, "the items given for a symbol are those that shift it");
        return prec[t->symbol()];
    }
    virtual associativity get_associativity(const item_container& t, const lr0_item_set&) const { return (associativity) assoc[t->symbol()]; }
};
struct shape { int kind, op, second; };
// the precedence of a rule is that of its only terminal with a precedence
static int rule_op(const shape& r) {
    bool a = prec[r.op] != INT_MIN, b = r.kind == TERNARY && prec[r.second] != INT_MIN;
    if (a && b) return -1;
    return a ? r.op : b ? r.second : -1;
}
enum { SHIFT, REDUCE, CONFLICT };
static int resolve(const shape& r, int t) {
    int op = rule_op(r);
    if (op < 0 || prec[t] == INT_MIN) return CONFLICT;
    if (prec[t] < prec[op]) return REDUCE;
    if (prec[t] > prec[op]) return SHIFT;
    return assoc[op] == PR::left ? REDUCE : assoc[op] == PR::right ? SHIFT : CONFLICT;
}
// operator precedence parse of the tokens with an operator stack, giving the tree as text
struct parse {
    const std::vector<shape>& rs; const int* s; int n; bool ok;
    struct pending { int rule; bool middle; }; std::vector<std::string> vals; std::vector<pending> ops;
    parse(const std::vector<shape>& r, const int* t, int k) : rs(r), s(t), n(k) { ok = run(); }
    const shape& top() { return rs[ops.back().rule]; }
    void reduce() {
        const shape& r = top(); std::string b = vals.back(), v; vals.pop_back();
        if (r.kind == PREFIX) v = "(" + std::string(1, (char) ('a' + r.op)) + b + ")";
        else {
            std::string a = vals.back(); vals.pop_back(); std::string m;
            if (r.kind == TERNARY) { m = a + std::string(1, (char) ('a' + r.second)); a = vals.back(); vals.pop_back(); }
            v = "(" + a + std::string(1, (char) ('a' + r.op)) + m + b + ")";
        }
        vals.push_back(v); ops.pop_back();
    }
    bool run() {
        bool operand = false;       // an operand has just ended
        for (int p = 0; p < n; ++p) {
            int t = s[p];
            if (!operand) {
                if (t == 0) { vals.push_back("n"); operand = true; continue; }
                size_t i = 0; for (; i < rs.size(); ++i) if (rs[i].kind == PREFIX && rs[i].op == t) break;
                if (i == rs.size()) return false;
                pending x = { (int) i, false }; ops.push_back(x); continue;
            }
            size_t i = 0; for (; i < rs.size(); ++i) if (rs[i].kind != PREFIX && rs[i].op == t) break;
            if (i < rs.size()) {
                while (!ops.empty() && !ops.back().middle && resolve(top(), t) == REDUCE) reduce();
                if (rs[i].kind == POSTFIX) { vals.back() = "(" + vals.back() + std::string(1, (char) ('a' + t)) + ")"; continue; }
                pending x = { (int) i, rs[i].kind == TERNARY }; ops.push_back(x); operand = false; continue;
            }
            while (!ops.empty() && !ops.back().middle) reduce();
            if (ops.empty() || top().second != t) return false;
            ops.back().middle = false; operand = false;
        }
        if (!operand) return false;
        while (!ops.empty()) { if (ops.back().middle) return false; reduce(); }
        return true;
    }
};
static std::string text(const astnode& n) {
    if (n.lexeme().item()) return n.lexeme()->matched() ? std::string(1, (char) ('a' + n.lexeme()->matched())) : std::string("n");
    std::string o; for (size_t i = 0; i < n.children().size(); ++i) o += text(*n.children()[i]);
    return n.children().size() > 1 ? "(" + o + ")" : o;
}
int sym_main(int argc, char** argv) {
    int R = atoi(argv[1]), ops = atoi(argv[2]), K = atoi(argv[3]);
    int NT = 1 + ops;
    // terminal 0 is the operand; 1.. are operators
    gram g; g.NN = 1; g.NT = NT;
    std::vector<shape> rs; int used = 0; bool infix[8] = { false }, prefix[8] = { false }, other[8] = { false };
    for (int i = 0; i < R; ++i) {
        shape r; r.kind = pick("shape", 4); r.op = 1 + pick("operator", ops); r.second = 0;
        if (r.op > used + 1) sym_assume(false);
        if (r.op > used) used = r.op;
        if (i && r.kind < rs[i - 1].kind) sym_assume(false);
        if (r.kind == TERNARY) { r.second = 1 + pick("operator", ops); if (r.second > used + 1) sym_assume(false); if (r.second > used) used = r.second; }
        bool* set = r.kind == INFIX ? infix : r.kind == PREFIX ? prefix : other;
        if (set[r.op] || (r.kind == TERNARY && (set[r.second] || r.second == r.op || infix[r.second] || prefix[r.second]))) sym_assume(false);
        if (r.kind != PREFIX && (infix[r.op] || other[r.op])) sym_assume(false);
        if (r.kind > PREFIX && prefix[r.op]) sym_assume(false);
        set[r.op] = true; if (r.kind == TERNARY) other[r.second] = true;
        rs.push_back(r);
    }
    for (int t = 0; t < 8; ++t) { prec[t] = INT_MIN; assoc[t] = 0; }
    for (int t = 1; t <= used; ++t) { prec[t] = sym_int("precedence", INT_MIN, INT_MAX); assoc[t] = sym_int("associativity", 0, 3); }
    { rl r; r.lhs = 0; r.id = 0; r.rhs.push_back(it(TERM, 0)); g.rules.push_back(r); }
    for (int i = 0; i < R; ++i) {
        rl r; r.lhs = 0; r.id = 0; int k = rs[i].kind;
        if (k != PREFIX) r.rhs.push_back(it(NONT, 0));
        r.rhs.push_back(it(TERM, rs[i].op));
        if (k != POSTFIX) r.rhs.push_back(it(NONT, 0));
        if (k == TERNARY) { r.rhs.push_back(it(TERM, rs[i].second)); r.rhs.push_back(it(NONT, 0)); }
        g.rules.push_back(r);
    }
    __sym_note(g.text().c_str());
    grammar lib; std::vector<int> ids; build(lib, g, ids);
    terminal_dictionary dict;
    lalr_builder b(lib, dict);
    int start = b.add_initial_state(item_container(new nonterminal(ids[0]), true));
    b.add_rewriter(action_rewriter_container(new rewriter(), true));
    b.complete_parser();
    // conflicts are left for exactly the unresolved pairs of a rule that ends in an operand and an operator that follows one
    conflict_list conflicts; conflict::find_conflicts(b, conflicts);
    std::set<std::pair<int, int> > expect, got;
    for (int i = 0; i < R; ++i) if (rs[i].kind != POSTFIX) for (int k = 0; k < R; ++k) if (rs[k].kind != PREFIX)
        if (resolve(rs[i], rs[k].op) == CONFLICT) expect.insert(std::make_pair(g.rules[i + 1].id, rs[k].op));
    for (size_t i = 0; i < conflicts.size(); ++i)
        for (conflict::reduce_iterator k = conflicts[i]->first_reduce_item(); k != conflicts[i]->last_reduce_item(); ++k)
            got.insert(std::make_pair(k->first->rule()->identifier(lib), conflicts[i]->token()->symbol()));
    sym_assert(got == expect, "conflicts are left for exactly the operators whose precedences do not resolve them");
    sym_assert(conflicts.size() == expect.size(), "each such conflict is reported once");
    if (!expect.empty()) { sym_reach("unresolved"); return 0; }
    int s[8]; for (int i = 0; i < K; ++i) s[i] = sym_int("t", 0, NT);
    ast_parser p(b, NULL);
    ast_parser::state* st = p.create_parser(new ast_parser_actions(new tokens(s, K, NT)), start);
    bool accepted = st->parse();
    int n = 0; for (; n < K; ++n) { s[n] = sym_split(s[n], 0, NT); if (s[n] == NT) break; }
    parse ref(rs, s, n);
    sym_assert(accepted == ref.ok, accepted ? "an accepted input is an expression" : "an expression is accepted");
    if (accepted) {
        tree t(lib, s);
        t.node(*st->get_item(), item_container(new nonterminal(ids[0]), true));
        sym_assert(t.at == n, "the tree covers the whole input");
        sym_assert(text(*st->get_item()) == ref.vals[0], "the tree groups the operators by precedence and associativity");
        sym_reach("accepted");
    } else sym_reach("rejected");
    delete st;
    sym_reach("end");
    return 0;
}

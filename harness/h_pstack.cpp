// Parser stacks that share their entries: every reference keeps its own contents whatever is pushed, popped, copied, assigned or destroyed
// through the others.   args: steps slots
#include <cstdlib>
#include <vector>
#include <iostream>
#include "sym.h"
#include "TameParse/Lr/parser_stack.h"
#include "gram_ref.h"
typedef lr::parser_stack<int, 2> stack_t2;
struct model { stack_t2* s; int family; std::vector<std::pair<int, int> > v; };
static std::vector<model> m; static int families;
static void fresh(model& x) { x.s = new stack_t2(); x.family = families++; int a = sym_int("state", 0, 1000000), b = sym_int("item", -1000000, 1000000); (*x.s)->state = a; (*x.s)->item = b; x.v.assign(1, std::make_pair(a, b)); }
int sym_main(int argc, char** argv) {
    int steps = atoi(argv[1]), slots = atoi(argv[2]);
    m.resize(slots); for (int i = 0; i < slots; ++i) m[i].s = NULL;
    fresh(m[0]);
    for (int k = 0; k < steps; ++k) {
        int op = gr::pick("operation", 6), i = gr::pick("stack", slots), j = 0;
        if (op >= 3 && op <= 4) j = gr::pick("other", slots);
        if (op == 5 ? m[i].s != NULL : m[i].s == NULL) { sym_assume(false); return 0; }
        model& x = m[i];
        if (op == 0) { int a = sym_int("state", 0, 1000000), b = sym_int("item", -1000000, 1000000); x.s->push(a, b); x.v.push_back(std::make_pair(a, b)); }
        else if (op == 1) { bool more = x.s->pop(); sym_assert(more == (x.v.size() > 1), "an entry can be popped if it is not the last"); if (x.v.size() > 1) x.v.pop_back(); }
        else if (op == 2) { delete x.s; x.s = NULL; }
        else if (op == 3) { if (m[j].s) { sym_assume(false); return 0; } m[j].s = new stack_t2(*x.s); m[j].family = x.family; m[j].v = x.v; sym_reach("copied"); }
        else if (op == 4) { if (j == i || !m[j].s || m[j].family != x.family) { sym_assume(false); return 0; } *m[j].s = *x.s; m[j].v = x.v; sym_reach("assigned"); }
        else fresh(x);
        for (int q = 0; q < slots; ++q) if (m[q].s) {
            const stack_t2& s = *m[q].s; int n = (int) m[q].v.size();
            for (int d = 0; d < n; ++d) {
                sym_assert(s[-d].state == m[q].v[n - 1 - d].first, "the state of an entry"); sym_assert(s[-d].item == m[q].v[n - 1 - d].second, "the item of an entry");
            }
            sym_assert(s->state == m[q].v[n - 1].first && (*s).item == m[q].v[n - 1].second, "the top entry");
        }
        if (x.s && x.v.size() > 3) sym_reach("grown");
    }
    for (int q = 0; q < slots; ++q) delete m[q].s;
    sym_reach("end");
    return 0;
}

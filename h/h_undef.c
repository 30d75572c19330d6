// C04: one predicate of every kind whose attribute may be undefined, under negation and
// connectives with a second optional attribute; the shortcut must never change a result.
// param 0: kind, 1: tree parameters
#include "kinds.h"
void harness(void)
{
    int k1 = (int)dse_param(0), cfg = (int)dse_param(1);
    struct betree* t = cfg ? betree_make() : betree_make_with_parameters(10, 0);
    k_schema(t);
    k_inputs(4);
    k_choose(k1, 39);
    E a = k_leaf(k1, 0, 3), d = e_leaf("d", kh_d & kv_d), nd = e_not(d);
    E e[9];
    e[0] = a;
    e[1] = e_not(a);
    e[2] = e_and(a, d);
    e[3] = e_or(a, d);
    e[4] = e_not(e_and(a, d));
    e[5] = e_not(e_or(a, nd));
    e[6] = e_not(e_and(e_not(a), d));
    e[7] = e_or(e_not(a), nd);
    e[8] = e_not(e_not(e_or(d, e_not(a))));
    int want[9];
    for(int i = 0; i < 9; i++) {
        dse_assert(k_insert(t, (u64)i + 1, dse_text(e[i].t), 3), "a valid expression is inserted");
        want[i] = e[i].v;
    }
    check_exact(t, k_event(), 9, want);
    dse_cover(1);
    betree_free(t);
}

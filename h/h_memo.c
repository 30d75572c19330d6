// C05: more remembered predicates than one machine word holds.
// param 0: number of distinct predicates, 1: order, 2: predicate family
#include "common.h"
void harness(void)
{
    int n = (int)dse_param(0), ord = (int)dse_param(1), fam = (int)dse_param(2);
    struct betree* t = betree_make_with_parameters(n > 250 ? 600 : 255, 0);
    betree_add_integer_variable(t, "i", true, 0, 1000);
    betree_add_integer_variable(t, "j", true, 0, 1000);
    betree_add_integer_list_variable(t, "il", true, 0, 1000);
    int64_t i = dse_int("i", 9);
    int h = dse_choice("has", 2);
    dse_bind(10, i);
    int want[700], m = 0;
    for(int r = 0; r < 2; r++) for(int q = 0; q < n; q++) {
        int k = ord == 0 ? q : ord == 1 ? n - 1 - q : (q * 37) % n;
        if(r && ord == 2) k = n - 1 - k;
        E a;
        dse_bind(0, k);
        char x[60] = "";
        switch(fam) {
            case 0: cat(x, "i = $0"); a = e_leaf(dse_text(x), h & (i == k)); break;
            case 1: cat(x, "i <= $0"); a = e_leaf(dse_text(x), h & (i <= k)); break;
            default: cat(x, "$0 in il"); a = e_leaf(dse_text(x), h & ((i == k) | (k == 65))); break;
        }
        E e = r ? e_not(a) : q % 3 == 1 ? e_or(a, e_leaf("j = 5", 0)) : a;
        want[m] = e.v;
        dse_assert(betree_insert(t, (u64)++m, e.t), "inserted");
    }
    check_exact(t, h ? dse_text(fam == 2 ? "{\"il\": [$a, 65], \"j\": 6}" : "{\"i\": $a, \"j\": 6}") : "{\"j\": 6}", m, want);
    dse_cover(1);
    betree_free(t);
}

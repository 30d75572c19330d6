// C05: four subscriptions built from two predicates, each used in several places so that
// results are remembered; every report must be what the expressions mean on their own.
// param 0: kind of the first predicate, 1: arrangement, 2: 0 second of the same class, 1 of another
#include "kinds.h"
void harness(void)
{
    int k1 = (int)dse_param(0), arr = (int)dse_param(1);
    static const int cls[KIND_N] = {1,1,0,0,0,0,2,2,4,4,1,0,0,0,2,1,1,2,2,9,9,9,1,1,1,3,3,3,2,2,4,4,3,3,3,2,2,4,5,5,6,6,6,6,7,7,7,7,7,8,8,8,8,5,5,5,5,5,0,1};
    int pool[KIND_N], np = 0;
    // equality of symbolic floating-point values is dear: only with the other float predicates
    for(int k = k1; k < KIND_N; k++) if((k != 59 || k1 == 12 || k1 == 13 || k1 >= 58) && (cls[k] == cls[k1] ? !dse_param(2) : dse_param(2) && (k1 + k) % 6 == 0)) pool[np++] = k;
    if(np == 0) { dse_cover(1); return; }
    int k2 = pool[dse_choice("k2", (unsigned)np)];
    struct betree* t = betree_make_with_parameters(arr == 2 ? 1 : 10, 0);
    k_schema(t);
    k_inputs(4);
    k_choose(k1, k2);
    int64_t fa = 3, fb = 3;
    if(k_uses(k1, 12) || k_uses(k2, 12)) { fa = (int64_t)dse_sym("fa", 3); fb = (int64_t)dse_sym("fb", 3); }
    E a = k_leaf(k1, 0, fa), b = k_leaf(k2, 1, fb);
    E e[5]; int64_t id[5]; int n;
    switch(arr) {
        case 0: e[0] = a; e[1] = b; e[2] = a; e[3] = b; e[4] = e_not(a); id[0] = id[2] = id[4] = fa; id[1] = id[3] = fb; n = 5; break;
        case 1: e[0] = e_not(a); e[1] = e_not(b); e[2] = e_and(e_not(b), e_leaf("j <= 100", kh_j)); e[3] = e_not(a); id[0] = id[3] = fa; id[1] = id[2] = fb; n = 4; break;
        default: e[0] = b; e[1] = a; e[2] = e_or(b, e_leaf("d", kh_d & kv_d)); e[3] = a; id[0] = id[2] = fb; id[1] = id[3] = fa; n = 4; break;
    }
    int want[5];
    for(int i = 0; i < n; i++) {
        dse_assert(k_insert(t, (u64)i + 1, dse_text(e[i].t), id[i]), "a valid expression is inserted");
        want[i] = e[i].v;
    }
    check_exact(t, k_event(), n, want);
    dse_cover(1);
    betree_free(t);
}

// C03: the index (domain splits, per-attribute directories, clustering) never hides a match.
// Filler subscriptions force splits around one (or two) subscriptions whose constants are
// symbolic; the event value is symbolic too and may lie outside the declared domain.
#include "common.h"
static int64_t lo, hi, v, a, b;
static int hasx;
static E cmp(int op, int k, int64_t c)
{
    static const char* ops[] = {"<", "<=", ">", ">=", "=", "<>"};
    char t[64]; strcpy(t, "x "); cat(t, ops[op]); cat(t, k == 0 ? " $0" : k == 1 ? " $1" : " $2");
    int r = op == 0 ? v < c : op == 1 ? v <= c : op == 2 ? v > c : op == 3 ? v >= c : op == 4 ? v == c : v != c;
    return e_leaf(t, hasx & r);
}
static E leafx(int kind, int k, int64_t c)
{
    if(kind < 6) return cmp(kind, k, c);
    char t[64];
    if(kind == 6) { strcpy(t, "x in (3, $0)"); t[10] = (char)('0' + k); return e_leaf(t, hasx & ((v == 3) | (v == c))); }
    if(kind == 7) { strcpy(t, "x not in ($0, 4)"); t[11] = (char)('0' + k); return e_leaf(t, hasx & (v != 4) & (v != c)); }
    if(kind == 8) return e_leaf("x is null", !hasx);
    if(kind == 9) return e_leaf("x is not null", hasx);
    if(kind == 10) return e_leaf("y = 1", 1);
    return e_leaf("false", 0);
}
static E shape(int s, E l, E r)
{
    switch(s) {
        case 0: return l;
        case 1: return e_not(l);
        case 2: return e_and(l, r);
        case 3: return e_or(l, r);
        case 4: return e_not(e_and(l, r));
        case 5: return e_not(e_or(l, r));
        case 6: return e_not(e_and(e_not(l), r));
        case 7: return e_or(e_not(l), r);
        default: return e_not(e_or(l, e_not(r)));
    }
}
void harness(void)
{
    int s = (int)dse_param(0), cfg = (int)dse_param(1), k1 = (int)dse_param(2), nk2 = (int)dse_param(3);
    static const int64_t dlo[] = {0, -8, -3, 5}, dhi[] = {10, 8, 1, 6};
    lo = dlo[cfg]; hi = dhi[cfg];
    struct betree* t = betree_make_with_parameters(1, 0);
    betree_add_integer_variable(t, "x", true, lo, hi);
    betree_add_integer_variable(t, "y", true, 0, 1000000);
    v = dse_int("v", 6); a = dse_int("a", 6); b = dse_int("b", 6);
    hasx = dse_choice("has", 2);
    dse_bind(0, a); dse_bind(1, b);
    E l = leafx(k1 < 0 ? dse_choice("k1", 8) : k1, 0, a);
    E r = s < 2 ? l : leafx(dse_choice("k2", (unsigned)nk2), 1, b);
    E e = shape(s, l, r);
    int want[8]; int n = 0;
    // the subscription under test goes in first, in the middle or last
    int pos = (int)dse_param(4);
    static const char* fill[] = {"x = $u", "x <= $v", "x >= $w", "x = $x"};
    int64_t fv[] = {lo, lo + 1, hi, (lo + hi) / 2};
    for(int i = 0; i < 5; i++) {
        if(i == pos) {
            dse_assert(betree_insert(t, (betree_sub_t)(n + 1), dse_text(e.t)), "insert");
            want[n++] = e.v;
        }
        if(i == 4) break;
        dse_bind(30 + i, fv[i]);
        dse_assert(betree_insert(t, (betree_sub_t)(n + 1), dse_text(fill[i])), "insert");
        want[n++] = hasx & (i == 0 ? v == fv[0] : i == 1 ? v <= fv[1] : i == 2 ? v >= fv[2] : v == fv[3]);
    }
    J j; j_init(&j);
    j_add(&j, "\"y\": 1");
    if(hasx) { dse_bind(10, v); j_add(&j, "\"x\": $a"); }
    check_exact(t, j_end(&j), n, want);
    dse_cover(1);
    betree_free(t);
}

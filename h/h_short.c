// C04: undefined attributes and the three-valued shortcut.  Boolean structure of up to three
// leaves; every attribute optional; values symbolic.
#include "common.h"
static int has[4];
static int64_t val[4];
static E leaf(int i, int kind)
{
    char n[2] = {(char)('p' + i), 0};
    char t[100] = "";
    switch(kind) {
        case 0: cat(t, n); cat(t, " = 1"); return e_leaf(t, has[i] & (val[i] == 1));
        case 1: cat(t, n); cat(t, " is null"); return e_leaf(t, !has[i]);
        case 2: cat(t, n); cat(t, " is not null"); return e_leaf(t, has[i]);
        case 3: cat(t, n); cat(t, " <> 1"); return e_leaf(t, has[i] & (val[i] != 1));
        case 4: cat(t, n); cat(t, " not in (1, 2)"); return e_leaf(t, has[i] & (val[i] != 1) & (val[i] != 2));
        case 5: return e_leaf("true", 1);
        case 6: return e_leaf("false", 0);
    }
    return e_leaf("true", 1);
}
void harness(void)
{
    int shape = (int)dse_param(0), kinds = (int)dse_param(1);
    struct betree* t = betree_make();
    static const char* nm[] = {"p", "q", "r"};
    J j; j_init(&j);
    for(int i = 0; i < 3; i++) betree_add_integer_variable(t, nm[i], true, 0, 5);
    int nl = shape < 2 ? 1 : shape < 9 ? 2 : 3;
    E l[3];
    for(int i = 0; i < nl; i++) {
        has[i] = dse_choice("has", 2);
        val[i] = dse_int("val", 4);
        l[i] = leaf(i, dse_choice("kind", (unsigned)kinds));
        if(has[i]) { dse_bind(i, val[i]); char b[40] = "\"p\": $0"; b[1] = (char)('p' + i); b[6] = (char)('0' + i); j_add(&j, b); }
    }
    E e;
    switch(shape) {
        case 0: e = l[0]; break;
        case 1: e = e_not(l[0]); break;
        case 2: e = e_and(l[0], l[1]); break;
        case 3: e = e_or(l[0], l[1]); break;
        case 4: e = e_not(e_and(l[0], l[1])); break;
        case 5: e = e_not(e_or(l[0], l[1])); break;
        case 6: e = e_not(e_and(e_not(l[0]), l[1])); break;
        case 7: e = e_or(e_not(l[0]), e_not(l[1])); break;
        case 8: e = e_and(e_not(e_not(l[0])), l[1]); break;
        case 9: e = e_and(e_or(l[0], l[1]), l[2]); break;
        case 10: e = e_or(e_and(l[0], l[1]), l[2]); break;
        case 11: e = e_not(e_or(e_and(l[0], l[1]), l[2])); break;
        case 12: e = e_not(e_and(e_or(l[0], l[1]), l[2])); break;
        case 13: e = e_or(e_not(e_and(l[0], l[1])), l[2]); break;
        case 14: e = e_and(l[0], e_not(e_or(l[1], e_not(l[2])))); break;
        case 15: e = e_not(e_or(l[0], e_not(e_and(l[1], l[2])))); break;
        default: e = e_or(l[0], e_or(l[1], l[2])); break;
    }
    dse_assert(betree_insert(t, 1, e.t), "insert");
    int want[1] = {e.v};
    check_exact(t, j_end(&j), 1, want);
    dse_cover(1);
    betree_free(t);
}

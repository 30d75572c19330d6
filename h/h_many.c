// C22: many attributes.
// param 0: number, 1/2: positions used, 3: 1 event defines all others, 4: type offset
#include "common.h"
static int off;
static int typ(int k) { return (k + off) % 6; }
static void name(char* d, int k) { int n = 0; *d++ = 'a'; if(k >= 100) { *d++ = (char)('0' + k / 100); } if(k >= 10) *d++ = (char)('0' + k / 10 % 10); *d++ = (char)('0' + k % 10); *d = 0; (void)n; }
typedef struct { int k, has, slot, v; E yes, null; } A;
static void use(A* a, int k, int slot)
{
    char n[8], t[60] = "";
    a->k = k; a->slot = slot; a->has = dse_choice("has", 2); a->v = 1;
    name(n, k);
    int w;
    if(typ(k) == 1 || typ(k) == 5) {
        int64_t x = dse_int("x", 6);
        dse_bind(10 + slot, x);
        char c[] = " = 3"; c[3] = (char)('3' + slot);
        cat(t, n); cat(t, c);
        w = x == slot + 3;
    } else {
        a->v = dse_choice("v", 2); w = a->v;
        switch(typ(k)) {
            case 0: cat(t, n); break;
            case 2: cat(t, n); cat(t, " = \"x\""); break;
            case 3: cat(t, n); cat(t, " < 2.5"); break;
            default: cat(t, "1 in "); cat(t, n); break;
        }
    }
    a->yes = e_leaf(t, a->has & w);
    strcpy(t, n); cat(t, " is null");
    a->null = e_leaf(t, !a->has);
}
static void fill(char* d, int k, int v, int slot)
{
    char n[8]; name(n, k);
    cat(d, "\""); cat(d, n); cat(d, "\": ");
    char s[] = "$a";
    switch(typ(k)) {
        case 0: cat(d, v ? "true" : "false"); break;
        case 1: case 5: if(slot < 0) cat(d, "7"); else { s[1] = (char)('a' + slot); cat(d, s); } break;
        case 2: cat(d, v ? "\"x\"" : "\"y\""); break;
        case 3: cat(d, v ? "2.25" : "2.5"); break;
        default: cat(d, v ? "[1]" : "[2]"); break;
    }
}
void harness(void)
{
    int n = (int)dse_param(0), p = (int)dse_param(1), q = (int)dse_param(2), all = (int)dse_param(3);
    off = (int)dse_param(4);
    struct betree* t = dse_param(5) ? betree_make() : betree_make_with_parameters(1, 0);
    for(int k = 0; k < n; k++) {
        char m[8]; name(m, k);
        switch(typ(k)) {
            case 0: betree_add_boolean_variable(t, m, true); break;
            case 1: betree_add_integer_variable(t, m, true, 0, 15); break;
            case 2: betree_add_string_variable(t, m, true, 3); break;
            case 3: betree_add_float_variable(t, m, true, 0., 10.); break;
            case 4: betree_add_integer_list_variable(t, m, true, 0, 5); break;
            default: betree_add_integer_enum_variable(t, m, true, 9); break;
        }
    }
    static const enum betree_value_type_e ty[] = {BETREE_BOOLEAN, BETREE_INTEGER, BETREE_STRING, BETREE_FLOAT, BETREE_INTEGER_LIST, BETREE_INTEGER_ENUM};
    for(int k = 0; k < n; k++) {
        char m[8]; name(m, k);
        struct betree_variable_definition d = betree_get_variable_definition(t, (size_t)k);
        dse_assert(strcmp(d.name, m) == 0 && d.type == ty[typ(k)], "definitions come in declaration order with their types");
    }
    A a[3];
    use(&a[0], p, 0); use(&a[1], q, 1); use(&a[2], p >= 64 ? p - 64 : p + 64 < n && p + 64 != q ? p + 64 : (q + n / 2) % n == p ? (p + 1) % n : (q + n / 2) % n, 2);
    if(a[2].k == q) a[2].has = a[1].has;
    E L = a[0].yes, M = a[1].yes, R = a[2].yes, e[9];
    if(a[2].k == q) R = M;
    e[0] = L;
    e[1] = e_not(M);
    e[2] = e_and(L, M);
    e[3] = e_not(e_and(L, e_not(M)));
    e[4] = e_or(a[0].null, M);
    e[5] = e_and(e_not(L), a[1].null);
    e[6] = e_or(R, e_and(L, e_not(R)));
    e[7] = e_not(e_or(M, R));
    e[8] = e_not(R);
    int want[9];
    for(int i = 0; i < 9; i++) {
        dse_assert(betree_insert(t, (u64)i + 1, e[i].t), "a valid expression is inserted");
        want[i] = e[i].v;
    }
    static char ev[8000];
    strcpy(ev, "{");
    int first = 1;
    for(int k = n - 1; k >= 0; k--) {
        int u = -1;
        for(int i = 0; i < 3; i++) if(a[i].k == k && u < 0) u = i;
        if(u < 0 ? !all : !a[u].has) continue;
        if(!first) cat(ev, ",");
        first = 0;
        fill(ev, k, u < 0 ? k & 1 : a[u].v, u);
    }
    cat(ev, "}");
    check_exact(t, dse_text(ev), 9, want);
    dse_cover(1);
    betree_free(t);
}

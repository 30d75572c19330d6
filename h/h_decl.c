// C26: attributes declared by lines of text, and emptied trees.
// param 0..2: types of three attributes (-1 none), 3: form of the bounds (0 none, 1 one number, 2 both),
// 4: end of the line, 5: 1 the tree is emptied and filled again
#include "common.h"
#include "tree.h"
#include "config.h"
#include "helper.h"
enum { B, I, F, S, IE, IL, SL, SEG, CAP };
static const char* const ty[] = {"boolean", "integer", "float", "string", "integer enum", "integer list", "string list", "segments", "frequency"};
static const char* const nm[] = {"xa", "xb", "xc"};
static int form;
typedef struct { int t, opt, has, used; int64_t lo, hi, x; double flo, fhi; E e; } A;
static void number(char* line, int slot, int fl)
{
    char s[] = "|$0"; s[1] = fl ? '#' : '$'; s[2] = (char)('0' + slot); cat(line, s);
}
static void declare(struct betree* t, A* a, int k)
{
    char line[120]; line[0] = 0;
    cat(line, nm[k]); cat(line, "|"); cat(line, ty[a->t]); cat(line, a->opt ? "|true" : "|false");
    a->lo = INT64_MIN; a->hi = INT64_MAX;
    int fl = a->t == F, cnt = a->t == S || a->t == IE || a->t == SL;
    if(form && a->t != B && a->t != SEG && a->t != CAP) {
        if(fl) { a->flo = dse_sym_double_hi("flo", 20); dse_assume(a->flo == a->flo); dse_bindf(2 * k, a->flo); }
        else if(cnt) { a->lo = (int64_t)dse_sym("cnt", 2); dse_bind(2 * k, a->lo); }
        else { a->lo = dse_int("lo", 64); dse_bind(2 * k, a->lo); }
        number(line, 2 * k, fl);
        if(form == 2 && !cnt) {
            if(fl) { a->fhi = dse_sym_double_hi("fhi", 20); dse_assume(a->fhi >= a->flo); dse_bindf(2 * k + 1, a->fhi); }
            else { a->hi = dse_int("hi", 64); dse_assume(a->hi >= a->lo); dse_bind(2 * k + 1, a->hi); }
            number(line, 2 * k + 1, fl);
        }
    }
    if(dse_param(4)) cat(line, "\n");
    add_variable_from_string(t, dse_text(line));
}
static void check_definition(struct betree* t, A* a, int k)
{
    static const enum betree_value_type_e bt[] = {BETREE_BOOLEAN, BETREE_INTEGER, BETREE_FLOAT, BETREE_STRING, BETREE_INTEGER_ENUM, BETREE_INTEGER_LIST, BETREE_STRING_LIST, BETREE_SEGMENTS, BETREE_FREQUENCY_CAPS};
    struct betree_variable_definition d = betree_get_variable_definition(t, (size_t)k);
    dse_assert(strcmp(d.name, nm[k]) == 0 && d.type == bt[a->t], "the definition has the name and the type of the line");
    const struct attr_domain* m = t->config->attr_domains[k];
    dse_assert(m->allow_undefined == (a->opt != 0), "optional as the line says");
    if(a->t == I || (a->t == IL && form != 1)) dse_assert((m->bound.imin == a->lo) & (m->bound.imax == a->hi), "the bounds of the line");
    if(a->t == F && form >= 1) dse_assert(m->bound.fmin == a->flo, "the lower bound of the line");
    if(a->t == F && form == 2) dse_assert(m->bound.fmax == a->fhi, "the upper bound of the line");
}
// the expression on attribute k and its part of the event
static int want_insert(A* a)
{
    if((a->t == S || a->t == IE || a->t == SL) && form) return a->lo >= 1;
    return 1;
}
static void expr(A* a, int k)
{
    char t[80] = ""; int w = 1;
    char s[] = "$a"; s[1] = (char)('a' + k);
    cat(t, nm[k]);
    a->x = a->t == B || a->t == S || a->t == SL ? dse_choice("v", 2) : a->t == F || a->t == SEG || a->t == CAP ? 0 : dse_int("x", 8);
    dse_bind(10 + k, a->x);
    switch(a->t) {
        case B: w = (int)a->x; break;
        case I: cat(t, " >= 5"); w = a->x >= 5; break;
        case F: cat(t, " < 2.5"); a->x = dse_choice("v", 2); w = (int)a->x; break;
        case S: cat(t, " = \"p\""); w = (int)a->x; break;
        case IE: cat(t, " = 7"); w = a->x == 7; break;
        case IL: cat(t, " one of (1, 9)"); w = (a->x == 1) | (a->x == 9); break;
        case SL: cat(t, " one of (\"p\")"); w = (int)a->x; break;
        case SEG: case CAP: cat(t, " is not null"); break;
    }
    a->e = e_leaf(t, a->has & w);
}
static void value(J* j, A* a, int k)
{
    if(!a->has) return;
    char t[60] = "\""; char s[] = "$a"; s[1] = (char)('a' + k);
    cat(t, nm[k]); cat(t, "\": ");
    switch(a->t) {
        case B: cat(t, a->x ? "true" : "false"); break;
        case I: case IE: cat(t, s); break;
        case F: cat(t, a->x ? "2.25" : "2.5"); break;
        case S: cat(t, a->x ? "\"p\"" : "\"z\""); break;
        case IL: cat(t, "["); cat(t, s); cat(t, "]"); break;
        case SL: cat(t, a->x ? "[\"p\"]" : "[\"z\"]"); break;
        case SEG: cat(t, "[[1, 2]]"); break;
        case CAP: cat(t, "[]"); break;
    }
    j_add(j, t);
}
static void round_(struct betree* t, A* a, int n, int negate)
{
    int want[3] = {0, 0, 0}, valid = 1;
    J j; j_init(&j);
    for(int k = 0; k < n; k++) {
        a[k].has = dse_choice("has", 2);
        expr(&a[k], k);
        E e = negate ? e_not(a[k].e) : a[k].e;
        int all = want_insert(&a[k]);
        bool ok = betree_insert(t, (u64)(k + 1), dse_text(e.t));
        dse_assert(ok == (all != 0), "accepted exactly when the value fits the number of values of the line");
        want[k] = ok ? e.v : 0;
        value(&j, &a[k], k);
        if(!a[k].opt && !a[k].has) valid = 0;
    }
    const char* ev = j_end(&j);
    if(valid) check_exact(t, ev, n, want);
    else {
        struct report* r = make_report();
        dse_assert(!betree_search(t, ev, r) && r->matched == 0, "an event without a mandatory attribute is refused");
        free_report(r);
    }
    dse_cover(valid);
}
void harness(void)
{
    form = (int)dse_param(3);
    struct betree* t = betree_make();
    A a[3]; int n = 0;
    for(int k = 0; k < 3 && dse_param(k) >= 0; k++, n++) {
        a[k].t = (int)dse_param(k); a[k].opt = dse_choice("opt", 2);
        declare(t, &a[k], k);
    }
    for(int k = 0; k < n; k++) check_definition(t, &a[k], k);
    round_(t, a, n, 0);
    if(dse_param(5)) {
        empty_tree(t);
        J j; j_init(&j);
        int none[3] = {0, 0, 0};
        for(int k = 0; k < n; k++) { a[k].has = 1; value(&j, &a[k], k); }
        check_exact(t, j_end(&j), n, none);
        for(int k = 0; k < n; k++) check_definition(t, &a[k], k);
        round_(t, a, n, 1);
    }
    betree_free(t);
    dse_assert(dse_live_allocs() == 0, "nothing is left allocated");
}

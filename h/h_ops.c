// C02: one predicate, one subscription, operands over the whole type.
// param 0: family, 1: operator
#include "common.h"
static int has;
static E sub1;
static const char* other;         // an earlier subscription with id 8 (its matching is not at issue)
static void finish(struct betree* t, J* j)
{
    dse_assert(betree_insert(t, 7, dse_text(sub1.t)), "a valid expression is inserted");
    struct report* r = make_report();
    dse_assert(betree_search(t, j_end(j), r), "a valid event is searched");
    dse_observe(r->matched);
    dse_assert(r->matched == (size_t)sub1.v, "the predicate decides whether the subscription matches");
    if(r->matched) dse_assert(r->subs[0] == 7, "the id is the one inserted");
    free_report(r);
    dse_cover(1);
    betree_free(t);
}
static void ints(int op)
{
    struct betree* t = betree_make();
    betree_add_integer_variable(t, "x", true, op & 1 ? INT64_MIN : -10, op & 1 ? INT64_MAX : 10);
    int64_t v = dse_int("v", 64), a = dse_int("a", 64);
    // INT64_MIN cannot be written as a literal (the grammar negates a positive one)
    dse_assume((v != INT64_MIN) & (a != INT64_MIN));
    static const char* f[] = {"x < $0", "x <= $0", "x > $0", "x >= $0", "x = $0", "x <> $0", "$0 < x", "$0 <= x", "$0 > x", "$0 >= x", "$0 = x", "$0 <> x"};
    int w[] = {v < a, v <= a, v > a, v >= a, v == a, v != a, a < v, a <= v, a > v, a >= v, a == v, a != v};
    dse_bind(0, a); dse_bind(10, v);
    sub1 = e_leaf(f[op], has & w[op]);
    J j; j_init(&j); if(has) j_add(&j, "\"x\": $a");
    finish(t, &j);
}
static void floats(int op)
{
    struct betree* t = betree_make();
    betree_add_float_variable(t, "x", true, op & 1 ? -1.7976931348623157e308 : -1., op & 1 ? 1.7976931348623157e308 : 1.);
    int eq = op == 4 || op == 5 || op == 10 || op == 11;
    double v = eq ? dse_sym_double_hi("v", 18) : dse_sym_double("v"), a = eq ? dse_sym_double_hi("a", 18) : dse_sym_double("a");
    dse_assume((v >= -1.7976931348623157e308) & (v <= 1.7976931348623157e308)); dse_assume((a >= -1.7976931348623157e308) & (a <= 1.7976931348623157e308));
    if(eq) { dse_assume((v >= -64.) & (v <= 64.)); dse_assume((a >= -64.) & (a <= 64.)); }
    static const char* f[] = {"x < #0", "x <= #0", "x > #0", "x >= #0", "x = #0", "x <> #0", "#0 < x", "#0 <= x", "#0 > x", "#0 >= x", "#0 = x", "#0 <> x"};
    int w;
    double d;
    switch(op) {
        case 0: case 8: w = v < a; break;
        case 1: case 9: w = v <= a; break;
        case 2: case 6: w = v > a; break;
        case 3: case 7: w = v >= a; break;
        default:
            // numbers closer than the machine epsilon count as equal
            d = v - a; if(d < 0) d = -d;
            w = d < 2.2204460492503131e-16;
            if(op == 5 || op == 11) w = !w;
    }
    dse_bindf(0, a); dse_bindf(1, v);
    sub1 = e_leaf(f[op], has & w);
    J j; j_init(&j); if(has) j_add(&j, "\"x\": #1");
    finish(t, &j);
}
static void bools(int op)
{
    struct betree* t = betree_make();
    betree_add_boolean_variable(t, "x", true);
    int v = dse_choice("v", 2);
    static const char* f[] = {"x", "not x", "not (not x)", "x or x", "x and not x", "true", "false", "not false"};
    int w[] = {has & v, !(has & v), has & v, has & v, 0, 1, 0, 1};
    sub1 = e_leaf(f[op], w[op]);
    J j; j_init(&j); if(has) j_add(&j, v ? "\"x\": true" : "\"x\": false");
    finish(t, &j);
}
// a string of up to two arbitrary bytes, length chosen by the solver
static void symstr(char* d, const char* n, int max)
{
    int l = dse_choice(n, (unsigned)max + 1);
    for(int i = 0; i < l; i++) { d[i] = (char)dse_sym("c", 8); dse_assume(d[i] != 0); }
    d[l] = 0;
}
static int same(const char* a, const char* b)
{
    size_t n = strlen(a); if(n != strlen(b)) return 0;
    int r = 1;
    for(size_t i = 0; i < n; i++) r &= a[i] == b[i];
    return r;
}
static void finish_event(struct betree* t, struct betree_event* ev)
{
    dse_assert(betree_insert(t, 7, dse_text(sub1.t)), "a valid expression is inserted");
    struct report* r = make_report();
    dse_assert(betree_search_with_event(t, ev, r), "a valid event is searched");
    int got = 0;
    for(size_t i = 0; i < r->matched; i++) {
        dse_assert(r->subs[i] == 7 || (other && r->subs[i] == 8), "the id is one inserted");
        got += r->subs[i] == 7;
    }
    dse_observe((u64)got);
    dse_assert(got == sub1.v, "the predicate decides whether the subscription matches");
    free_report(r);
    betree_free_event(ev);
    dse_cover(1);
    betree_free(t);
}
static void strs(int op)
{
    struct betree* t = betree_make();
    betree_add_string_variable(t, "x", true, op & 1 ? 5 : SIZE_MAX);
    char v[4]; symstr(v, "len", 3);
    static const char* f[] = {"x = \"ab\"", "x <> \"ab\"", "\"ab\" = x", "'ab' <> x", "x in (\"ab\", \"a\", \"b c\")", "x not in (\"ab\", \"a\", \"b c\")", "x in ('zz')", "x not in ('', 'q')", "x = \"\"", "x <> \"\""};
    int ab = same(v, "ab"), in3 = ab | same(v, "a") | same(v, "b c");
    int w[] = {ab, !ab, ab, !ab, in3, !in3, same(v, "zz"), !(same(v, "") | same(v, "q")), same(v, ""), !same(v, "")};
    sub1 = e_leaf(f[op], has & w[op]);
    struct betree_event* ev = betree_make_event(t);
    if(has) betree_set_variable(ev, 0, betree_make_string_variable("x", v));
    finish_event(t, ev);
}
static void enums(int op)
{
    struct betree* t = betree_make();
    betree_add_integer_enum_variable(t, "x", true, op & 1 ? 5 : SIZE_MAX);
    int64_t v = dse_int("v", 64), a = dse_int("a", 64);
    dse_assume((v != INT64_MIN) & (a != INT64_MIN));
    static const char* f[] = {"x = $0", "x <> $0", "$0 = x", "$0 <> x"};
    int w[] = {v == a, v != a, v == a, v != a};
    dse_bind(0, a); dse_bind(10, v);
    sub1 = e_leaf(f[op], has & w[op]);
    J j; j_init(&j); if(has) j_add(&j, "\"x\": $a");
    finish(t, &j);
}
static void sets(int op)
{
    struct betree* t = betree_make();
    betree_add_integer_variable(t, "x", true, -10, 10);
    int64_t v = dse_int("v", 64), c[4];
    int n = 1 + op / 2;
    char s[64]; strcpy(s, op & 1 ? "x not in (" : "x in (");
    int in = 0;
    dse_assume(v != INT64_MIN);
    for(int i = 0; i < n; i++) {
        c[i] = dse_int("c", 64); dse_assume(c[i] != INT64_MIN);
        dse_bind(i, c[i]);
        char o[5] = {'$', (char)('0' + i), i < n - 1 ? ',' : ')', ' ', 0};
        cat(s, o);
        in |= v == c[i];
    }
    dse_bind(10, v);
    sub1 = e_leaf(s, has & (op & 1 ? !in : in));
    J j; j_init(&j); if(has) j_add(&j, "\"x\": $a");
    finish(t, &j);
}
// lists: op = operator + 6 * list constants (1..3) ; event list of 0..nmax values
static void ilists(int op)
{
    int o = op % 6, nc = 1 + op / 6;
    struct betree* t = betree_make();
    betree_add_integer_list_variable(t, "x", true, -10, 10);
    int64_t c[3], v[3];
    int n = dse_choice("n", nc == 3 ? 3 : 4);
    for(int i = 0; i < n; i++) { v[i] = dse_int("v", 64); dse_assume(v[i] != INT64_MIN); dse_bind(10 + i, v[i]); }
    for(int i = 0; i < nc; i++) { c[i] = dse_int("c", 64); dse_assume(c[i] != INT64_MIN); dse_bind(i, c[i]); }
    int one = 0, all = 1;
    for(int i = 0; i < nc; i++) {
        int in = 0;
        for(int k = 0; k < n; k++) in |= v[k] == c[i];
        one |= in; all &= in;
    }
    static const char* f[] = {"x one of (", "x none of (", "x all of (", "$0 in x", "$0 not in x", "x is empty"};
    int w[] = {one, !one, all, one, !one, n == 0};
    char s[64]; strcpy(s, f[o]);
    if(o < 3) for(int i = 0; i < nc; i++) { char p[5] = {'$', (char)('0' + i), i < nc - 1 ? ',' : ')', ' ', 0}; cat(s, p); }
    sub1 = e_leaf(s, has & w[o]);
    J j; j_init(&j);
    if(has) j_add(&j, n == 0 ? "\"x\": []" : n == 1 ? "\"x\": [$a]" : n == 2 ? "\"x\": [$a, $b]" : "\"x\": [$a, $b, $c]");
    finish(t, &j);
}
static void slists(int op)
{
    struct betree* t = betree_make();
    betree_add_string_list_variable(t, "x", true, op & 1 ? 5 : SIZE_MAX);
    // an earlier subscription decides which strings come first in the tree's own numbering
    other = dse_param(2) == 1 ? "x one of ('a', 'z')" : dse_param(2) == 2 ? "x none of ('z', 'c', 'b')" : NULL;
    if(other) dse_assert(betree_insert(t, 8, other), "a valid expression is inserted");
    int n = dse_choice("n", 4);
    char v[3][3];
    for(int i = 0; i < n; i++) symstr(v[i], "len", 1);
    static const char* f[] = {"x one of (\"b\", \"a\")", "x none of (\"b\", \"a\")", "x all of (\"b\", \"a\")", "\"a\" in x", "'a' not in x", "x is empty", "x all of ('a', 'b', 'a')", "x one of ('c')", "x all of ('c')", "x none of ('a', 'c', 'b')"};
    int A = 0, B = 0, C = 0;
    for(int i = 0; i < n; i++) { A |= same(v[i], "a"); B |= same(v[i], "b"); C |= same(v[i], "c"); }
    int w[] = {A | B, !(A | B), A & B, A, !A, n == 0, A & B, C, C, !(A | B | C)};
    sub1 = e_leaf(f[op], has & w[op]);
    struct betree_event* ev = betree_make_event(t);
    if(has) {
        struct betree_string_list* l = betree_make_string_list((size_t)n);
        for(int i = 0; i < n; i++) betree_add_string(l, (size_t)i, v[i]);
        betree_set_variable(ev, 0, betree_make_string_list_variable("x", l));
    }
    finish_event(t, ev);
}
// null and empty tests of every type
static void nulls(int op)
{
    struct betree* t = betree_make();
    int T = op / 3, o = op % 3;
    static const char* val[] = {"\"x\": true", "\"x\": $a", "\"x\": #0", "\"x\": \"s\"", "\"x\": $a", "\"x\": [$a]", "\"x\": [\"s\", \"t\"]", "\"x\": [[$a, 4]]", "\"x\": [[[\"flight\", 1, \"ns\"], 1, 2]]"};
    int empty = 0;
    switch(T) {
        case 0: betree_add_boolean_variable(t, "x", true); break;
        case 1: betree_add_integer_variable(t, "x", true, 0, 5); break;
        case 2: betree_add_float_variable(t, "x", true, 0., 5.); break;
        case 3: betree_add_string_variable(t, "x", true, 5); break;
        case 4: betree_add_integer_enum_variable(t, "x", true, 5); break;
        case 5: betree_add_integer_list_variable(t, "x", true, 0, 5); break;
        case 6: betree_add_string_list_variable(t, "x", true, 5); break;
        case 7: betree_add_segments_variable(t, "x", true); break;
        default: betree_add_frequency_caps_variable(t, "x", true); break;
    }
    int64_t v = dse_int("v", 32); dse_bind(10, v);
    double d = dse_sym_double_hi("d", 20); dse_assume((d >= -100.) & (d <= 100.)); dse_bindf(0, d);
    J j; j_init(&j);
    int k = dse_choice("null", 2);
    if(T >= 5) empty = dse_choice("empty", 2);
    if(has) j_add(&j, empty ? "\"x\": []" : val[T]);
    else if(k) j_add(&j, "\"x\": null");
    static const char* f[] = {"x is null", "x is not null", "x is empty"};
    int w[] = {!has, has, has & empty};
    sub1 = e_leaf(f[o], w[o]);
    finish(t, &j);
}
void harness(void)
{
    int fam = (int)dse_param(0), op = (int)dse_param(1);
    has = dse_choice("has", 2);
    switch(fam) {
        case 0: ints(op); break;
        case 1: floats(op); break;
        case 2: bools(op); break;
        case 3: strs(op); break;
        case 4: enums(op); break;
        case 5: sets(op); break;
        case 6: ilists(op); break;
        case 7: slists(op); break;
        default: nulls(op); break;
    }
}

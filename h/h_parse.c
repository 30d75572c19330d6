// C14: expression text.  param 0: 0 operator sequences, 1 integer literals, 2 decimal literals,
// 3 spellings, 4 quoted strings
#include <math.h>
#include <stdio.h>
#include "kinds.h"
// ---- operator sequences: a grammar state machine writes the text, a small evaluator reads the tokens
enum { P, AND, OR, NOT, LP, RP };
static int tok[40], ntok, at, val[6], used;
static int ev_or(void);
static int ev_un(void)
{
    if(tok[at] == NOT) { at++; return 1 ^ ev_un(); }
    if(tok[at] == LP) { at++; int v = ev_or(); at++; return v; }
    at++;
    return val[used++];
}
static int ev_and(void) { int v = ev_un(); while(at < ntok && tok[at] == AND) { at++; v &= ev_un(); } return v; }
static int ev_or(void) { int v = ev_and(); while(at < ntok && tok[at] == OR) { at++; v |= ev_and(); } return v; }
// 1: spelling, 2: most tokens, 3/4: first two tokens
static void operators(void)
{
    int sp = (int)dse_param(1), max = (int)dse_param(2), depth = 0, want_op = 0, leaves = 0, ok = 1, done = 0;
    while(!done) {
        int t;
        // a leaf ends the sequence when the bound is reached
        if(ntok == 0) t = (int)dse_param(3);
        else if(ntok == 1 && dse_param(4) >= 0) t = (int)dse_param(4);
        else t = dse_choice("t", 7);
        if(t == 6) { ok = want_op && depth == 0; break; }
        if(t == P && leaves == 5) return;
        int good = want_op ? t == AND || t == OR || (t == RP && depth) : t == P || t == NOT || t == LP;
        tok[ntok++] = t;
        if(!good) { ok = 0; if(dse_choice("tail", 2) && leaves < 5) tok[ntok++] = P; break; }
        if(t == P) { leaves++; want_op = 1; }
        else if(t == AND || t == OR) want_op = 0;
        else if(t == LP) depth++;
        else if(t == RP) depth--;
        if(ntok >= max) { ok = want_op && depth == 0; done = 1; }
    }
    static const char* leaf[] = {"b0", "v1 > 0", "b2", "0 < v3", "b4", "v5>0"};
    static const char* andt[] = {" and ", "&&", " and", "&& "}, *ort[] = {" or ", "||", "\tor\n", " ||"};
    char x[400] = "";
    int k = 0;
    for(int i = 0; i < ntok; i++) {
        switch(tok[i]) {
            case P: if(sp >= 2 && i && tok[i - 1] == AND) cat(x, "\n"); cat(x, leaf[k++]); break;
            case AND: cat(x, andt[sp]); break;
            case OR: cat(x, ort[sp]); break;
            case NOT: cat(x, sp == 2 && i && tok[i - 1] == AND ? "\tnot " : "not "); break;
            case LP: cat(x, sp == 2 && i && tok[i - 1] == AND ? " ( " : "("); break;
            default: cat(x, sp == 3 ? " ) " : ")"); break;
        }
    }
    struct betree* t = betree_make();
    betree_add_boolean_variable(t, "b0", false); betree_add_integer_variable(t, "v1", false, -5, 5); betree_add_boolean_variable(t, "b2", false);
    betree_add_integer_variable(t, "v3", false, -5, 5); betree_add_boolean_variable(t, "b4", false); betree_add_integer_variable(t, "v5", false, -5, 5);
    bool r = betree_insert(t, 9, x);
    dse_observe(r);
    dse_assert(r == ok, "exactly the texts of the grammar are accepted");
    struct betree_event* ev = betree_make_event(t);
    static const char* nm[] = {"b0", "v1", "b2", "v3", "b4", "v5"};
    for(int i = 0; i < 6; i++) {
        if(i & 1) { int64_t v = i < leaves ? dse_int("v", 3) : 1; val[i] = v > 0; betree_set_variable(ev, (size_t)i, betree_make_integer_variable(nm[i], v)); }
        else { val[i] = i < leaves ? (int)dse_sym("b", 1) : 1; betree_set_variable(ev, (size_t)i, betree_make_boolean_variable(nm[i], val[i])); }
    }
    int want = ok ? ev_or() : 0;
    struct report* rep = make_report();
    dse_assert(betree_search_with_event(t, ev, rep), "a valid event is searched");
    dse_observe(rep->matched);
    dse_assert((int)rep->matched == want, "not binds tighter than and, and tighter than or, parentheses override");
    free_report(rep);
    betree_free_event(ev);
    betree_free(t);
    dse_cover(1);
}
// 1: form, 2: number of digits
static void integers(void)
{
    static const char* big[] = {"9223372036854775807", "9223372036854775806", "4611686018427387904", "2147483648", "4294967296", "1000000000000", "9007199254740993", "2147483647", "-9223372036854775808", "-9223372036854775807", "-2147483649", "-4294967297"};
    static const int64_t bigv[] = {INT64_MAX, INT64_MAX - 1, 4611686018427387904, 2147483648, 4294967296, 1000000000000, 9007199254740993, 2147483647, INT64_MIN, INT64_MIN + 1, -2147483649, -4294967297};
    int form = (int)dse_param(1), nd = (int)dse_param(2);
    char lit[40] = "", x[200] = "";
    int64_t v = 0;
    if(nd == 0) { int k = dse_choice("big", 12); strcpy(lit, big[k]); v = bigv[k]; }
    else {
        int neg = dse_choice("neg", 3), n = 0;
        if(neg) lit[n++] = '-';
        if(neg == 2) lit[n++] = ' ';
        for(int i = 0; i < nd; i++) { int d = dse_choice("d", 10); v = v * 10 + d; lit[n++] = (char)('0' + d); }
        if(neg) v = -v;
        lit[n] = 0;
    }
    static const char* f[] = {"i = @", "@ = i", "i <> @", "i < @", "@ <= i", "i in (7, @)", "i not in (@, 7)", "il one of (@, 7)", "@ in il", "il all of (@)", "e = @", "segment_within(sg, @, 100)", "f >= @"};
    for(const char* p = f[form]; *p; p++) { if(*p == '@') cat(x, lit); else { char c[2] = {*p, 0}; cat(x, c); } }
    int64_t i = dse_int("i", 64);
    dse_assume(i != INT64_MIN);
    dse_bind(0, i);
    struct betree* t = betree_make();
    betree_add_integer_variable(t, "i", true, INT64_MIN, INT64_MAX);
    betree_add_integer_list_variable(t, "il", true, INT64_MIN, INT64_MAX);
    betree_add_integer_enum_variable(t, "e", true, 9);
    betree_add_segments_variable(t, "sg", true);
    betree_add_float_variable(t, "f", true, -1e300, 1e300);
    betree_add_integer_variable(t, "now", true, 0, 1000);
    dse_assert(betree_insert(t, 1, x), "a valid expression is inserted");
    int want = 0;
    const char* ev = "{\"i\": $0}";
    switch(form) {
        case 0: case 1: want = i == v; break;
        case 2: want = i != v; break;
        case 3: want = i < v; break;
        case 4: want = v <= i; break;
        case 5: want = (i == v) | (i == 7); break;
        case 6: want = (i != v) & (i != 7); break;
        case 7: want = (i == v) | (i == 7); ev = "{\"il\": [$0]}"; break;
        case 8: case 9: want = i == v; ev = "{\"il\": [$0]}"; break;
        case 10: want = i == v; ev = "{\"e\": $0}"; break;
        case 11: want = i == v; ev = "{\"sg\": [[$0, 90000000]], \"now\": 100}"; break;
        default: { static const double df[] = {-1, -.5, 0, .25, 1}; double y = (double)v + df[dse_choice("df", 5)] * (fabs((double)v) > 1e6 ? fabs((double)v) / 1e6 : 1); dse_bindf(0, y); want = y >= (double)v; ev = y < 0 ? "{\"f\": -#1}" : "{\"f\": #0}"; dse_bindf(1, -y); }
    }
    check_exact(t, dse_text(ev), 1, &want);
    betree_free(t);
    dse_cover(1);
}
// 1: form, 2: digits before, 3: digits after the point
static void decimals(void)
{
    int form = (int)dse_param(1), a = (int)dse_param(2), b = (int)dse_param(3), neg = dse_choice("neg", 2), n = 0;
    char lit[40], x[200] = "";
    int64_t m = 0, scale = 1;
    if(neg) lit[n++] = '-';
    for(int i = 0; i < a + b; i++) {
        int d = i == 0 || i == a + b - 1 ? dse_choice("d", 10) : i == a ? (int)"059"[a > 2 ? 1 : dse_choice("d", 3)] - '0' : (i + form) % 5 + 1;
        if(i == a) lit[n++] = '.';
        m = m * 10 + d; lit[n++] = (char)('0' + d);
        if(i >= a) scale *= 10;
    }
    if(!b) lit[n++] = '.';
    lit[n] = 0;
    // numerator and denominator are exact, so the quotient is the nearest double
    double v = (double)m / (double)scale;
    if(neg) v = -v;
    static const char* f[] = {"f < @", "f >= @", "@ < f", "@ >= f", "f = @", "@ <> f"};
    for(const char* p = f[form]; *p; p++) { if(*p == '@') cat(x, lit); else { char c[2] = {*p, 0}; cat(x, c); } }
    struct betree* t = betree_make();
    betree_add_float_variable(t, "f", true, -1e6, 1e6);
    dse_assert(betree_insert(t, 1, x), "a valid expression is inserted");
    double y;
    if(form < 4) { static const double dir[] = {0, -1e9, 1e9}; int k = dse_choice("rel", 4); if(k < 3) y = k ? nextafter(v, dir[k]) : v; else { y = dse_sym_double_hi("f", 20); dse_assume((y >= -1e6) & (y <= 1e6)); } }
    else { static const double df[] = {0, 1e-9, -1e-9, 0.5}; y = v + df[dse_choice("rel", 4)]; }
    int want = form == 0 ? y < v : form == 1 ? y >= v : form == 2 ? v < y : form == 3 ? v >= y : form == 4 ? y == v : y != v;
    struct betree_event* ev = betree_make_event(t);
    betree_set_variable(ev, 0, betree_make_float_variable("f", y));
    struct report* rep = make_report();
    dse_assert(betree_search_with_event(t, ev, rep), "a valid event is searched");
    dse_observe(rep->matched);
    dse_assert((int)rep->matched == want, "a decimal literal is the number written");
    free_report(rep);
    betree_free_event(ev);
    betree_free(t);
    dse_cover(1);
}
// 1: kind, spellings of it chosen
static const struct { int kind; const char* t; } alt[] = {
    {0, "i=$@"}, {0, "$@ = i"}, {0, "$@=i"}, {0, "(i = $@)"}, {0, "(((i=$@)))"}, {0, " \t i \n = $@ "}, {0, "I = $@"}, {0, "not i <> $@ and i is not null"}, {0, "i in ($@)"},
    {1, "i<>$@"}, {1, "$@ <> i"}, {1, "$@<>i"}, {1, "i not in ($@)"}, {2, "i<$@"}, {2, "$@ > i"}, {2, "$@>i"}, {2, "(i<$@)"}, {3, "i<=$@"}, {3, "$@ >= i"}, {3, "$@>=i"},
    {4, "i>$@"}, {4, "$@ < i"}, {4, "$@<i"}, {5, "i>=$@"}, {5, "$@ <= i"}, {5, "$@<=i"}, {6, "i in($@,2)"}, {6, "i in ( 2 , $@ )"}, {6, "i  in\n($@, 2, $@)"}, {6, "(i = $@ || i = 2)"},
    {7, "i not in($@,2)"}, {7, "i not in (2, $@, 2)"}, {7, "i is not null and not i in ($@, 2)"}, {7, "(i <> $@ && i <> 2)"}, {8, "not i is not null"}, {8, "(i is null)"}, {9, "not i is null"}, {9, "not(i is null)"},
    {12, "2 > f||2.0 > f"}, {13, "2.0>=f"}, {13, "f<=2."}, {13, "2 >= f"}, {13, "f <= 2.000"},
    {15, "s='?'"}, {15, "s = '?'"}, {15, "\"?\" = s"}, {15, "'?'=s"}, {15, "s in ('?')"}, {15, "S = \"?\""}, {16, "'?' <> s"}, {16, "s<>\"?\""}, {16, "s not in (\"?\")"}, {17, "s in('?','c')"}, {17, "s in (\"c\", '?', \"c\")"}, {18, "s not in ('c','?')"},
    {19, "contains( s , '?' )"}, {19, "contains(s,\"?\")"}, {20, "starts_with(s,'?')"}, {21, "ends_with(S, \"?\")"}, {23, "$@ = e"}, {23, "e=$@"}, {24, "$@ <> e"},
    {25, "il one of(3,$@,- 4)"}, {25, "il one of (3,$@,3,-4)"}, {26, "il none of (2, $@)"}, {27, "il all of(2,$@)"}, {27, "il all of ($@, 2, $@)"}, {28, "$@ in il"}, {28, "$@  in  il"}, {29, "$@ not in il"}, {29, "IL none of ($@)"},
    {30, "(il is empty)"}, {32, "sl one of ('c','?',\"a\")"}, {33, "sl none of('?', \"c\")"}, {34, "sl all of (\"c\", '?')"}, {35, "'?' in sl"}, {36, "'?' not in sl"}, {38, "(b)"}, {38, "not not b"}, {38, "B"}, {38, "b and true"}, {38, "b||false"}, {39, "not (not d)"},
    {40, "segment_within( $@ ,20 )"}, {40, "segment_within(segments_with_timestamp, $@, 20)"}, {41, "segment_before($@,20)"}, {42, "segment_within(seg2,$@,20)"}, {42, "segment_within( SEG2 , $@ , 20 )"},
    {44, "within_frequency_cap('flight','n',4,20)"}, {44, "within_frequency_cap( \"flight\" , 'n' , 4 , 20 )"}, {45, "within_frequency_cap('campaign', \"n\", 4, 20)"},
    {49, "geo_within_radius(45.0, -73.0, 100.0)"}, {49, "geo_within_radius(45,-73,100)"}, {49, "geo_within_radius( 45. , - 73. , 100. )"}, {50, "geo_within_radius(45.0,-73.0,10.0)"},
    {53, "not true"}, {57, "not false"}, {57, "(true)"}, {54, "i = $@ and j = $@"}, {54, "i=$@&&j=$@"}, {54, "not (i <> $@ or i is null or not j = $@)"}, {55, "i=$@||j=$@"}, {55, "i = $@ or(j=$@)"}, {56, "not i = $@"}, {56, "not(i=$@)"}, {56, "i is null || i<>$@"},
};
// parts of four
enum { NALT = sizeof alt / sizeof *alt };
static void spellings(void)
{
    int part = (int)dse_param(1), lo = part * 4;
    int k = lo + dse_choice("k", NALT - lo < 4 ? (unsigned)(NALT - lo) : 4), kind = alt[k].kind;
    k_inputs(5);
    k_choose(kind, kind);
    int64_t id = k_uses(kind, 12) ? (int64_t)dse_sym("fa", 3) : 3;
    E a = k_leaf(kind, 0, id);
    struct betree* t = betree_make_with_parameters(dse_param(2) ? 1 : 3, 0);
    k_schema(t);
    char x[200];
    k_put(x, alt[k].t, 0);
    int want[4] = {a.v, a.v, !a.v, a.v & kh_j};
    char y[300] = "not ("; cat(y, x); cat(y, ")");
    char z[300] = "j is not null and ("; cat(z, x); cat(z, ")");
    dse_assert(k_insert(t, 1, dse_text(a.t), id), "a valid expression is inserted");
    dse_assert(k_insert(t, 2, dse_text(x), id), "another spelling is inserted");
    dse_assert(k_insert(t, 3, dse_text(y), id), "another spelling is inserted");
    dse_assert(k_insert(t, 4, dse_text(z), id), "another spelling is inserted");
    check_exact(t, k_event(), 4, want);
    betree_free(t);
    dse_cover(1);
}
// 1: length of the text's string, 2: of the event's, 3: quotes
static char* quoted(const char* nm, int n, int q)
{
    // units of which a quoted string is made
    static const char* unit[2][6] = {{"a", "'", "\\\"", "\\\\", " ", "\xc3\xa9"}, {"a", "\"", "\\'", "\\\\", " ", "\xc3\xa9"}};
    static char buf[4][40]; static int w;
    char* d = buf[w++ % 4];
    d[0] = 0;
    for(int i = 0; i < n; i++) cat(d, unit[q][dse_choice(nm, 6)]);
    return d;
}
static void strings(void)
{
    int q = (int)dse_param(3) & 1, q2 = (int)dse_param(3) >> 1;
    const char* a = quoted("x", (int)dse_param(1), q), *b = quoted("y", (int)dse_param(2), q2);
    int want[3] = {!strcmp(a, b), strcmp(a, b) != 0, !strcmp(a, b)};
    struct betree* t = betree_make();
    betree_add_string_variable(t, "s", true, 9);
    betree_add_string_list_variable(t, "sl", true, 9);
    char x[100]; const char* Q[] = {"\"", "'"};
    strcpy(x, "s = "); cat(x, Q[q]); cat(x, a); cat(x, Q[q]);
    dse_assert(betree_insert(t, 1, x), "a valid expression is inserted");
    strcpy(x, "s not in ("); cat(x, Q[q]); cat(x, a); cat(x, Q[q]); cat(x, ")");
    dse_assert(betree_insert(t, 2, x), "a valid expression is inserted");
    strcpy(x, Q[q]); cat(x, a); cat(x, Q[q]); cat(x, " in sl");
    dse_assert(betree_insert(t, 3, x), "a valid expression is inserted");
    strcpy(x, "{\"s\": "); cat(x, Q[q2]); cat(x, b); cat(x, Q[q2]); cat(x, ", 'sl': ['zz', "); cat(x, Q[q2]); cat(x, b); cat(x, Q[q2]); cat(x, "]}");
    check_exact(t, x, 3, want);
    betree_free(t);
    dse_cover(1);
}
void harness(void)
{
    switch(dse_param(0)) {
        case 0: operators(); break;
        case 1: integers(); break;
        case 2: decimals(); break;
        case 3: spellings(); break;
        default: strings(); break;
    }
}

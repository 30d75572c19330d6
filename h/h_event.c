// C15: event text.  param 0: 0 attribute order, nulls and spacing, 1 integer literals,
// 2 decimal literals, 3 lists
#include <math.h>
#include "common.h"
static void sub(char* d, const char* f, char what, const char* by)
{
    d += strlen(d);
    for(; *f; f++) if(*f == what) { strcpy(d, by); d += strlen(by); } else *d++ = *f;
    *d = 0;
}
// 1: order, 2: spacing and quotes, 3: which attributes may be missing
static void order(void)
{
    int p = (int)dse_param(1), sp = (int)dse_param(2), which = (int)dse_param(3);
    int64_t i = dse_int("i", 64), g = dse_int("g", 40), x = dse_int("x", 64), y = dse_int("y", 64), ci = dse_int("ci", 64), cx = dse_int("cx", 64);
    dse_assume(i != INT64_MIN && x != INT64_MIN && y != INT64_MIN && ci != INT64_MIN && cx != INT64_MIN);
    dse_bind(0, i); dse_bind(1, g); dse_bind(2, x); dse_bind(3, y); dse_bind(4, ci); dse_bind(5, cx);
    struct betree* t = betree_make_with_parameters(sp == 1 ? 1 : 3, 0);
    betree_add_integer_variable(t, "i", true, INT64_MIN, INT64_MAX);
    betree_add_float_variable(t, "g", true, -1e300, 1e300);
    betree_add_string_variable(t, "s", true, 4);
    betree_add_integer_list_variable(t, "Il", true, INT64_MIN, INT64_MAX);
    betree_add_boolean_variable(t, "bB_1-x", true);
    betree_add_string_list_variable(t, "sl", true, 4);
    int st[6], str = dse_choice("str", 3), b = dse_choice("b", 2);
    for(int k = 0; k < 6; k++) st[k] = (k + which) % 2 ? 2 : dse_choice("st", 3); // 0 missing, 1 null, 2 present
    static const char* sv[] = {"x", "y y", ""};
    static const char* names[] = {"i", "g", "s", "il", "bb_1-X", "SL"};
    char v[6][80] = {"$0", "$1", "", "[$2, $3]", "", "['q', \"x\"]"};
    sub(v[2], sp & 1 ? "'?'" : "\"?\"", '?', sv[str]);
    strcpy(v[4], b ? "true" : "false");
    if(sp == 1) strcpy(v[3], "[$2,$3]");
    if(sp == 2) strcpy(v[3], "[ $2 , $3 ]");
    char e[600] = "";
    cat(e, sp == 2 ? " \t{\n" : "{");
    int n = 0, perm[6];
    for(int k = 0; k < 6; k++) perm[k] = k;
    { int q = p; for(int k = 5; k > 0; k--) { int r = q % (k + 1), z = perm[k]; q /= k + 1; perm[k] = perm[r]; perm[r] = z; } }
    for(int q = 0; q < 6; q++) {
        int k = perm[q];
        if(!st[k]) continue;
        if(n++) cat(e, sp == 0 ? ", " : sp == 1 ? "," : "\n , \t");
        cat(e, sp & 1 ? "'" : "\""); cat(e, names[k]); cat(e, sp & 1 ? "'" : "\"");
        cat(e, sp == 0 ? ": " : sp == 1 ? ":" : " : ");
        cat(e, st[k] == 1 ? "null" : v[k]);
    }
    cat(e, sp == 2 ? "\n}\n " : "}");
    const char* subs[] = {"i = $4", "g is not null", "s = \"y y\"", "s = \"\"", "$5 in il", "bB_1-x", "\"x\" in sl", "i is null", "il is not null and not ($5 in il)", "sl all of (\"q\", \"x\")", "s is null or s = 'x'", "bb_1-x is not null", "sl is null", "il is empty"};
    int w[14] = {(st[0] == 2) & (i == ci), st[1] == 2, (st[2] == 2) & (str == 1), (st[2] == 2) & (str == 2), (st[3] == 2) & ((x == cx) | (y == cx)), (st[4] == 2) & b, st[5] == 2, st[0] != 2,
                 (st[3] == 2) & !((x == cx) | (y == cx)), st[5] == 2, (st[2] != 2) | (str == 0), st[4] == 2, st[5] != 2, 0};
    for(int k = 0; k < 14; k++) dse_assert(betree_insert(t, (u64)k + 1, dse_text(subs[k])), "a valid expression is inserted");
    check_exact(t, dse_text(e), 14, w);
    betree_free(t);
    dse_cover(1);
}
static const char* big[] = {"9223372036854775807", "9223372036854775806", "4611686018427387904", "2147483648", "4294967296", "1000000000000", "9007199254740993", "2147483647", "-9223372036854775808", "-9223372036854775807", "-2147483649", "-4294967297", "0", "-0", "00012", "-007"};
static const int64_t bigv[] = {INT64_MAX, INT64_MAX - 1, 4611686018427387904, 2147483648, 4294967296, 1000000000000, 9007199254740993, 2147483647, INT64_MIN, INT64_MIN + 1, -2147483649, -4294967297, 0, 0, 12, -7};
// 1: form, 2: digits
static void integers(void)
{
    int form = (int)dse_param(1), nd = (int)dse_param(2), hi = form >= 6;
    char lit[40] = "", x[200] = "";
    int64_t v = 0;
    // ids, counts and times of caps and segments: not negative
    if(nd == 0) { int k = dse_choice("big", hi ? 4 : 16); if(hi) k = k == 0 ? 12 : k == 1 ? 14 : k == 2 ? 7 : 3; strcpy(lit, big[k]); v = bigv[k]; }
    else {
        int neg = hi ? 0 : dse_choice("neg", 3), n = 0;
        if(neg) lit[n++] = '-';
        if(neg == 2) lit[n++] = ' ';
        for(int i = 0; i < nd; i++) { int d = dse_choice("d", 10); v = v * 10 + d; lit[n++] = (char)('0' + d); }
        if(neg) v = -v;
        lit[n] = 0;
    }
    static const char* f[] = {"{\"i\": @}", "{\"e\": @, \"now\": 100}", "{\"il\": [@]}", "{\"il\": [7, @, 7]}", "{\"f\": @}", "{\"now\": 1, \"i\":@,\"f\":2}",
        "{\"sg\": [[@, 90000000]], \"now\": 100}", "{\"sg\": [[1, @]], \"now\": 2200}",
        "{\"frequency_caps\": [[\"flight\", @, \"n\", 5, 0]], \"now\": 1}", "{\"frequency_caps\": [[\"flight\", 1, \"n\", @, 0]], \"now\": 1}", "{\"frequency_caps\": [[[\"flight\", 1, \"n\"], 9, @]], \"now\": 2200}", "{\"now\": @, \"sg\": [[1, 1000000000000000]]}"};
    sub(x, f[form], '@', lit);
    int64_t c = dse_int("c", 64);
    dse_assume(c != INT64_MIN);
    struct betree* t = betree_make();
    betree_add_integer_variable(t, "i", true, INT64_MIN, INT64_MAX);
    betree_add_integer_enum_variable(t, "e", true, 9);
    betree_add_integer_list_variable(t, "il", true, INT64_MIN, INT64_MAX);
    betree_add_float_variable(t, "f", true, -1e300, 1e300);
    betree_add_segments_variable(t, "sg", true);
    betree_add_frequency_caps_variable(t, "frequency_caps", true);
    betree_add_integer_variable(t, "now", true, 0, 1000);
    int want[2] = {0, 0};
    const char* s[2] = {"i = $0", "i >= $0"};
    int64_t fid = 1;
    switch(form) {
        case 0: case 5: want[0] = v == c; want[1] = v >= c; break;
        case 1: s[0] = "e = $0"; s[1] = "e <> $0"; want[0] = v == c; want[1] = v != c; break;
        case 2: s[0] = "$0 in il"; s[1] = "il all of ($0)"; want[0] = want[1] = v == c; break;
        case 3: s[0] = "$0 in il"; s[1] = "il none of ($0)"; want[0] = (v == c) | (c == 7); want[1] = !want[0]; break;
        case 4: { static const double df[] = {-1, -.5, 0, .25, 1}; double y = (double)v + df[dse_choice("df", 5)] * (fabs((double)v) > 1e6 ? fabs((double)v) / 1e6 : 1);
            dse_bindf(0, y); dse_bindf(1, -y); s[0] = y < 0 ? "f <= -#1" : "f <= #0"; s[1] = y < 0 ? "f < -#1" : "f < #0"; want[0] = (double)v <= y; want[1] = (double)v < y; } break;
        case 6: s[0] = "segment_within(sg, $0, 100)"; s[1] = "segment_before(sg, $0, 100)"; want[0] = v == c; break;
        case 7: { int64_t d = (int64_t)dse_sym("d", 12); c = d; s[0] = "segment_within(sg, 1, $0)"; s[1] = "segment_before(sg, 1, $0)"; want[0] = (2200 - c) * 1000000 <= v; want[1] = !want[0]; } break;
        case 8: dse_assume(c >= 0 && c <= UINT32_MAX); fid = c; s[0] = "within_frequency_cap(\"flight\", \"n\", 5, 0)"; s[1] = "within_frequency_cap(\"flight\", \"n\", 6, 0)"; want[0] = c != v; want[1] = 1; break;
        case 9: s[0] = "within_frequency_cap(\"flight\", \"n\", $0, 0)"; s[1] = "within_frequency_cap(\"flight\", \"m\", $0, 0)"; want[0] = c > v; want[1] = 1; break;
        case 10: { int64_t d = (int64_t)dse_sym("d", 12); dse_assume(d > 0); c = d; s[0] = "within_frequency_cap(\"flight\", \"n\", 9, $0)"; s[1] = "not within_frequency_cap(\"flight\", \"n\", 9, $0)"; want[0] = v < (2200 - c) * 1000000; want[1] = !want[0]; } break;
        default: dse_assume(c >= 0 && c < 1ll << 40); s[0] = "segment_within(sg, 1, $0)"; s[1] = "segment_before(sg, 1, $0)"; want[0] = v - c <= 1000000000; want[1] = !want[0];
    }
    dse_bind(0, c);
    const struct betree_constant* k[1] = {betree_make_integer_constant("flight_id", fid)};
    for(int q = 0; q < 2; q++) dse_assert(betree_insert_with_constants(t, (u64)q + 1, 1, k, dse_text(s[q])), "a valid expression is inserted");
    betree_free_constants(1, (struct betree_constant**)k);
    check_exact(t, x, 2, want);
    betree_free(t);
    dse_cover(1);
}
// 1: digits before, 2: after the point
static void decimals(void)
{
    int a = (int)dse_param(1), b = (int)dse_param(2), neg = dse_choice("neg", 3), n = 0;
    char lit[40], x[100] = "";
    int64_t m = 0, scale = 1;
    if(neg) lit[n++] = '-';
    if(neg == 2) lit[n++] = ' ';
    for(int i = 0; i < a + b; i++) {
        int d = i == 0 || i == a + b - 1 || (a + b < 4) ? dse_choice("d", 10) : i == a ? (int)"059"[dse_choice("d", 3)] - '0' : (i + a) % 5 + 1;
        if(i == a) lit[n++] = '.';
        m = m * 10 + d; lit[n++] = (char)('0' + d);
        if(i >= a) scale *= 10;
    }
    if(!b) lit[n++] = '.';
    lit[n] = 0;
    double v = (double)m / (double)scale;
    if(neg) v = -v;
    sub(x, "{\"f\": @}", '@', lit);
    static const double dir[] = {0, -1e9, 1e9};
    int k = dse_choice("rel", 4);
    double y;
    if(k < 3) y = k ? nextafter(v, dir[k]) : v; else { y = dse_sym_double_hi("y", 20); dse_assume((y >= -1e6) & (y <= 1e6)); }
    dse_bindf(0, y); dse_bindf(1, -y);
    struct betree* t = betree_make();
    betree_add_float_variable(t, "f", true, -1e6, 1e6);
    int want[2] = {v < y, v >= y};
    int ny = y < 0.;
    dse_assert(betree_insert(t, 1, dse_text(ny ? "f < -#1" : "f < #0")), "a valid expression is inserted");
    dse_assert(betree_insert(t, 2, dse_text(ny ? "-#1 <= f" : "#0 <= f")), "a valid expression is inserted");
    check_exact(t, x, 2, want);
    betree_free(t);
    dse_cover(1);
}
// 1: attribute, 2: length, 3: spacing
static void lists(void)
{
    int which = (int)dse_param(1), n = (int)dse_param(2), sp = (int)dse_param(3);
    static const char* comma[] = {", ", ",", "\n,\t"}, *lb[] = {"[", "[", " [ "}, *rb[] = {"]", "]", "\t]"};
    char e[600] = "{\"";
    static const char* nm[] = {"il", "sl", "sg", "frequency_caps"};
    cat(e, nm[which]); cat(e, "\":"); cat(e, lb[sp]);
    int64_t v[6], c = dse_int("c", 64), now = 1000; int s[6], cs = dse_choice("cs", 4), want[3] = {0, 0, 0}, any = 0;
    dse_assume(c != INT64_MIN);
    if(which > 1) dse_assume(c >= 0);
    if(which == 3) dse_assume(c <= UINT32_MAX);
    static const char* word[] = {"a", "bb", "", "c"};
    for(int k = 0; k < n; k++) {
        if(k) cat(e, comma[sp]);
        char slot[3] = {'$', (char)(k + '1'), 0};
        v[k] = which == 1 ? 0 : which == 3 ? (int64_t)dse_sym("v", 32) : dse_int("v", n > 2 && which == 0 ? 10 : 64);
        if(which == 0) dse_assume(v[k] != INT64_MIN);
        if(which == 2) { dse_assume(v[k] >= 0); for(int q = 0; q < k; q++) dse_assume(v[q] != v[k]); }
        if(which == 3) for(int q = 0; q < k; q++) dse_assume(v[q] != v[k]);
        dse_bind(k + 1, v[k]);
        if(which == 0) { cat(e, slot); any |= v[k] == c; }
        else if(which == 1) { s[k] = dse_choice("s", 4); const char* q = (k + sp) % 2 ? "'" : "\""; cat(e, q); cat(e, word[s[k]]); cat(e, q); any |= s[k] == cs; }
        else if(which == 2) { cat(e, lb[sp]); cat(e, slot); cat(e, comma[sp]); cat(e, k % 2 ? "999000000" : "5000000"); cat(e, rb[sp]); any |= (v[k] == c) & (k % 2); }
        else {
            cat(e, lb[sp]); if(k % 2) cat(e, lb[sp]);
            cat(e, k % 2 ? "'flight'" : "\"flight\""); cat(e, comma[sp]); cat(e, slot); cat(e, comma[sp]); cat(e, "'n'");
            if(k % 2) cat(e, rb[sp]);
            cat(e, comma[sp]); cat(e, k % 2 ? "7" : "3"); cat(e, comma[sp]); cat(e, "0"); cat(e, rb[sp]);
            any |= (v[k] == c) & (k % 2);
        }
    }
    cat(e, rb[sp]); cat(e, ", \"now\": 1000}");
    (void)now; (void)s;
    struct betree* t = betree_make();
    betree_add_integer_list_variable(t, "il", true, INT64_MIN, INT64_MAX);
    betree_add_string_list_variable(t, "sl", true, 9);
    betree_add_segments_variable(t, "sg", true);
    betree_add_frequency_caps_variable(t, "frequency_caps", true);
    betree_add_integer_variable(t, "now", true, 0, 1000);
    dse_bind(0, c);
    const char* x[3]; char buf[2][60];
    if(which == 0) { x[0] = "$0 in il"; x[1] = "il is empty"; x[2] = "not (il one of ($0))"; want[0] = any; want[1] = n == 0; want[2] = !any; }
    else if(which == 1) { buf[0][0] = 0; sub(buf[0], "'?' in sl", '?', word[cs]); buf[1][0] = 0; sub(buf[1], "sl none of (\"?\")", '?', word[cs]); x[0] = buf[0]; x[1] = buf[1]; x[2] = "sl is empty"; want[0] = any; want[1] = !any; want[2] = n == 0; }
    else if(which == 2) { x[0] = "segment_within(sg, $0, 10)"; x[1] = "sg is not null"; x[2] = "not segment_within(sg, $0, 10)"; want[0] = any; want[1] = 1; want[2] = !any; }
    else { x[0] = "within_frequency_cap('flight', 'n', 5, 0)"; x[1] = "frequency_caps is not null"; x[2] = "not within_frequency_cap('flight', 'n', 5, 0)"; want[0] = !any; want[1] = 1; want[2] = any; }
    const struct betree_constant* k[1] = {betree_make_integer_constant("flight_id", c)};
    for(int q = 0; q < 3; q++) dse_assert(betree_insert_with_constants(t, (u64)q + 1, 1, k, dse_text(x[q])), "a valid expression is inserted");
    betree_free_constants(1, (struct betree_constant**)k);
    check_exact(t, dse_text(e), 3, want);
    betree_free(t);
    dse_cover(1);
}
void harness(void)
{
    switch(dse_param(0)) {
        case 0: order(); break;
        case 1: integers(); break;
        case 2: decimals(); break;
        default: lists(); break;
    }
}

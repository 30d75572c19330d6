// C10 (and C20 with the leak flag): accepted and refused insertions.
// param 0: 0 bounds of strings and enums, 1 refused expressions; 9: also compare allocation counts
#include "kinds.h"
static int leak;
typedef struct { int n; int64_t used[8]; int bound; } B; // values seen by an attribute
static int in_b(const B* b, int64_t v) { for(int i = 0; i < b->n; i++) if(b->used[i] == v) return 1; return 0; }
// would the k values fit (concrete)
static int fits(const B* b, int k, const int64_t* v)
{
    int d = 0;
    for(int i = 0; i < k; i++) {
        int dup = in_b(b, v[i]);
        for(int j = 0; j < i; j++) dup |= v[j] == v[i];
        d += !dup;
    }
    return b->n + d <= b->bound;
}
static void take(B* b, int k, const int64_t* v) { for(int i = 0; i < k; i++) if(!in_b(b, v[i])) b->used[b->n++] = v[i]; }
static char* letters(char* d, const char* f, const int64_t* v)
{
    char* r = d;
    for(; *f; f++) {
        if(*f == '?' || *f == '!' || *f == '~') *d++ = (char)('a' + v[*f == '?' ? 0 : *f == '!' ? 1 : 2]);
        else *d++ = *f;
    }
    *d = 0;
    return r;
}
// 1: bound, 2: which attribute, 3: number of insertions, 4: number of values
static void bounds(void)
{
    int which = (int)dse_param(2), n = (int)dse_param(3), nv = (int)dse_param(4);
    static const char* S[] = {"s = \"?\"", "s <> \"?\" or s = \"!\"", "s in (\"?\", \"!\", \"?\")", "u = \"?\" and s = \"!\"", "not (s not in (\"!\", \"?\"))", "contains(s, \"?\")"};
    static const char* L[] = {"sl one of (\"?\", \"!\")", "\"?\" in sl", "\"!\" not in sl or \"?\" in sl", "sl none of (\"!\", \"!\")", "not (sl all of (\"?\", \"!\"))", "sl is not null"};
    static const char* N[] = {"e = $0", "e <> $0 or e = $1", "not (e = $1)", "e = $0 and e2 = $1", "e2 = $0 or e = $0", "e is null"};
    struct betree* t = dse_choice("cap", 2) ? betree_make() : betree_make_with_parameters(1, 0);
    B b = {0, {0}, (int)dse_param(1)}, b2 = {0, {0}, 2};
    if(which == 0) { betree_add_string_variable(t, "s", true, (size_t)b.bound); betree_add_string_variable(t, "u", true, 2); }
    else if(which == 1) betree_add_string_list_variable(t, "sl", true, (size_t)b.bound);
    else { betree_add_integer_enum_variable(t, "e", true, (size_t)b.bound); betree_add_integer_enum_variable(t, "e2", true, 2); }
    // the event
    int64_t x[2] = {which == 2 ? 0 : dse_choice("x", (unsigned)nv + 1), which == 1 ? dse_choice("y", (unsigned)nv + 1) : 0};
    int64_t e = 0, e2 = 0;
    if(which == 2) { e = dse_int("e", 44); e2 = dse_int("e2", 44); dse_bind(8, e); dse_bind(9, e2); }
    E ex[4]; int in[4] = {0, 0, 0, 0};
    for(int i = 0; i < n; i++) {
        int f = dse_choice("form", 6), w = 0;
        int64_t v[2] = {which == 2 ? dse_int("p", 44) : dse_choice("p", (unsigned)nv), 0};
        char text[200];
        if(f > 0 && f < 5 && !(which == 2 && f == 2)) v[1] = which == 2 ? dse_int("q", 44) : dse_choice("q", (unsigned)nv);
        int ok = 1;
        int64_t q[2] = {v[1], 0};
        if(which == 0) {
            letters(text, S[f], v);
            int64_t sx = x[0];
            w = f == 0 ? sx == v[0] : f == 1 ? sx != v[0] || sx == v[1] : f == 2 || f == 4 ? sx == v[0] || sx == v[1] : f == 3 ? sx == v[0] && sx == v[1] : sx == v[0];
            if(f == 3) { ok = fits(&b2, 1, v) & fits(&b, 1, q); if(ok) { take(&b2, 1, v); take(&b, 1, q); } }
            else if(f != 5) { int k = f == 0 ? 1 : 2; ok = fits(&b, k, v); if(ok) take(&b, k, v); }
        } else if(which == 1) {
            letters(text, L[f], v);
            int hp = x[0] == v[0] || x[1] == v[0], hq = x[0] == v[1] || x[1] == v[1];
            w = f == 0 ? hp || hq : f == 1 ? hp : f == 2 ? !hq || hp : f == 3 ? !hq : f == 4 ? !(hp && hq) : 1;
            if(f != 5) { int k = f == 1 ? 1 : f == 3 ? 1 : 2; ok = fits(&b, k, f == 3 ? q : v); if(ok) take(&b, k, f == 3 ? q : v); }
        } else {
            int64_t a = v[0], c = v[1];
            if(f == 2) { v[1] = v[0]; c = a; q[0] = v[0]; }
            dse_bind(0, a); dse_bind(1, c);
            strcpy(text, dse_text(N[f]));
            w = f == 0 ? e == a : f == 1 ? (e != a) | (e == c) : f == 2 ? e != c : f == 3 ? (e == a) & (e2 == c) : f == 4 ? (e2 == a) | (e == a) : 0;
            if(f == 3) { ok = fits(&b, 1, v) & fits(&b2, 1, q); if(ok) { take(&b, 1, v); take(&b2, 1, q); } }
            else if(f == 4) { ok = fits(&b, 1, v) & fits(&b2, 1, v); if(ok) { take(&b, 1, v); take(&b2, 1, v); } }
            else if(f != 5) { int k = f == 1 ? 2 : 1; ok = fits(&b, k, v); if(ok) take(&b, k, v); }
        }
        ex[i].v = w; in[i] = ok;
        uint64_t before = leak ? dse_live_allocs() : 0;
        bool r = betree_insert(t, (u64)(i + 1), text);
        dse_observe(r);
        dse_assert(r == ok, "an expression is accepted exactly when its values fit the declared capacity");
        if(leak && !ok) dse_assert(dse_live_allocs() == before, "a refused insertion keeps no memory");
    }
    int want[4] = {0, 0, 0, 0};
    for(int i = 0; i < n; i++) want[i] = in[i] & ex[i].v;
    char evt[200];
    if(which == 0) { int64_t v2[2] = {x[0], x[0]}; letters(evt, "{\"u\": \"?\", \"s\": \"!\"}", v2); check_exact(t, evt, n, want); }
    else if(which == 1) { letters(evt, "{\"sl\": [\"?\", \"!\"]}", x); check_exact(t, evt, n, want); }
    else check_exact(t, dse_text("{\"e\": $8, \"e2\": $9}"), n, want);
    dse_cover(1);
    betree_free(t);
}
// 1: missing attributes, 2: placement, 3: way of inserting, 4: part of the list
static const char* bad[] = { // 0..: undeclared attribute
    "zz = 1", "zz <> \"a\"", "zz < 1", "2.5 >= zz", "zz", "zz in (1, 2)", "1 in zz", "\"a\" not in zz", "zz one of (1, 2)", "zz none of (\"a\")",
    "zz all of (1)", "zz is null", "zz is not null", "zz is empty", "contains(zz, \"a\")", "starts_with(zz, \"a\")", "segment_within(zz, 1, 20)", "segment_before(zz, 1, 20)", "zz not in (\"a\")", "in not in (1)",
    // missing constants and unknown caps
    "within_frequency_cap(\"advertiser\", \"n\", 4, 20)", "within_frequency_cap(\"flightx\", \"n\", 4, 20)", "within_frequency_cap(\"product:ip\", \"n\", 4, 20)", "within_frequency_cap(\"campaign_group\", \"n\", 4, 20)",
    // beyond capacity
    "s = \"q\"", "u in (\"p\", \"q\", \"r\", \"t\", \"v\")", "sl one of (\"p\", \"q\", \"r\", \"t\", \"v\")",
    // not an expression
    "", "i =", "(i = 1", "i = 1)", "i = 1 i = 2", "and", "i in ()", "i = 1 @ i = 2", "i = 1 #", "within_frequency_cap(\"flight\", 1, 2)",
    "i = 1 or", "not", "= 1", "i = = 1", "i between 1 and 2", "1", "\"a\"", "i is", "i not null", "1 in (1, 2)", "i in il", "i > \"a\"", "contains(s, 1)", "(", ")", "il one of 1", "il one of (1, \"a\")",
    "geo_within_radius(1, 2)", "geo_within_radius(1.0, 2, 3.0)", "segment_within(1)", "i = 1,", "i = -", "i = 1.5.2", "i and or b", "b not", "i <> ", "(b", "b)", "\"a", "b ; d", "i = 1 = 2", "all of (1)", "u = a",
};
enum { NBAD = sizeof bad / sizeof *bad };
static const char* special[] = {"segment_within(1, 20)", "segment_before(1, 20)", "within_frequency_cap(\"flight\", \"n\", 4, 20)", "geo_within_radius(45, -73, 10)", "segment_within(seg2, 1, 20)", "geo_within_radius(45.0, -73.0, 10.0)"};
static void refused(void)
{
    int miss = (int)dse_param(1), place = (int)dse_param(2), way = (int)dse_param(3), part = (int)dse_param(4);
    k_c[0] = dse_int("a", 4); kv_i = dse_int("i", 4); dse_bind(0, k_c[0]); dse_bind(10, kv_i);
    struct betree* t = betree_make_with_parameters(part % 2 ? 1 : 3, 0);
    betree_add_integer_variable(t, "i", true, -4, 3);
    betree_add_boolean_variable(t, "b", true);
    betree_add_boolean_variable(t, "d", true);
    betree_add_string_variable(t, "s", true, 2);
    betree_add_string_variable(t, "u", true, 4);
    betree_add_integer_list_variable(t, "il", true, -4, 3);
    betree_add_string_list_variable(t, "sl", true, 4);
    betree_add_float_variable(t, "f", true, -4., 3.);
    if(miss != 1) betree_add_segments_variable(t, "segments_with_timestamp", true);
    if(miss != 2) betree_add_frequency_caps_variable(t, "frequency_caps", true);
    if(miss != 3) betree_add_integer_variable(t, "now", true, 0, 1000);
    if(miss != 4) betree_add_float_variable(t, "latitude", true, -90., 90.);
    if(miss != 5) betree_add_float_variable(t, "longitude", true, -180., 180.);
    betree_add_segments_variable(t, "seg2", true);
    int h = dse_choice("h", 2), w[5];
    w[0] = h & (kv_i <= k_c[0]); w[1] = 1; w[2] = h & (kv_i == k_c[0]); w[3] = 0; w[4] = h & (kv_i > k_c[0]);
    dse_assert(k_insert(t, 1, dse_text("i <= $0 and s in (\"a\", \"b\")"), 1), "a valid expression is inserted");
    dse_assert(k_insert(t, 2, dse_text("not (i = $0 and s = \"b\")"), 1), "a valid expression is inserted");
    dse_assert(k_insert(t, 3, dse_text("i = $0"), 1), "a valid expression is inserted");
    // refused ones
    const char* x;
    if(miss) {
        int k = dse_choice("special", 6);
        int needs = k < 2 ? (miss == 1) | (miss == 3) : k == 2 ? (miss == 2) | (miss == 3) : k == 4 ? miss == 3 : miss >= 4;
        dse_assume(needs);
        x = special[k];
    } else {
        int lo = part * 14, hi = lo + 14 < NBAD ? lo + 14 : NBAD;
        int k = lo + dse_choice("bad", (unsigned)(hi - lo));
        dse_assume(!(way == 2 && k >= 24 && k <= 26)); // preparing extends the capacity
        x = bad[k];
    }
    char text[300] = "";
    static const char* pl[] = {"@", "@ and i = $0", "i = $0 or @", "not (@)", "b and (i = $0 or not (@ and d))", "(@) or (u = \"zq\")"};
    const char* f = pl[place];
    char* d = text;
    for(; *f; f++) if(*f == '@') { strcpy(d, x); d += strlen(x); } else *d++ = *f;
    *d = 0;
    int empty = !*x;
    if(empty && (place == 1 || place == 2 || place > 3)) strcpy(text, "");
    const struct betree_constant* c[2];
    int nc = k_consts(c, 1);
    uint64_t before = leak ? dse_live_allocs() : 0;
    if(way == 0) dse_assert(!betree_insert_with_constants(t, 4, (size_t)nc, c, dse_text(text)), "an invalid expression is refused");
    else if(way == 1) dse_assert(!betree_insert_with_constants(t, 4, 1, c + 1, dse_text(text)), "an invalid expression is refused");
    else dse_assert(betree_make_sub(t, 4, (size_t)nc, c, dse_text(text)) == NULL, "an invalid expression is refused");
    if(leak && way < 2) dse_assert(dse_live_allocs() == before, "a refused insertion keeps no memory");
    betree_free_constants((size_t)nc, (struct betree_constant**)c);
    J j; j_init(&j);
    if(h) j_add(&j, "\"i\": $a");
    j_add(&j, "\"s\": \"a\"");
    check_exact(t, j_end(&j), 4, w);
    // and the tree still takes what fits
    dse_assert(betree_insert(t, 5, dse_text("i > $0 and u in (\"a\", \"b\", \"c\", \"d\")")), "a valid expression is inserted after a refusal");
    j_init(&j);
    if(h) j_add(&j, "\"i\": $a");
    j_add(&j, "\"s\": \"a\""); j_add(&j, "\"u\": \"d\"");
    check_exact(t, j_end(&j), 5, w);
    dse_cover(1);
    betree_free(t);
}
void harness(void)
{
    uint64_t start = dse_live_allocs();
    leak = (int)dse_param(9);
    if(dse_param(0) == 0) bounds(); else refused();
    if(leak) dse_assert(dse_live_allocs() == start, "everything is released");
}

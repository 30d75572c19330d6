// C06 C07 C08 C09: frequency caps, segments, geographic radius, string patterns.
// param 0: which
#include <math.h>
#include "common.h"
static void expect(const struct betree* t, struct betree_event* ev, const char* text, int n, const int* want)
{
    struct report* r = make_report();
    bool ok = ev ? betree_search_with_event(t, ev, r) : betree_search(t, text, r);
    dse_assert(ok, "a valid event is searched");
    int got[8];
    count_subs(r, n, got);
    for(int i = 0; i < n; i++) {
        dse_observe((u64)got[i]);
        dse_assert(got[i] == want[i], "the predicate matches exactly when documented");
    }
    free_report(r);
    if(ev) betree_free_event(ev);
}
static void putall(char* d, const char* f, char what, const char* by)
{
    d += strlen(d);
    for(; *f; f++) if(*f == what) { strcpy(d, by); d += strlen(by); } else *d++ = *f;
    *d = 0;
}
static const char* types[] = {"flight", "flight:ip", "campaign", "campaign:ip", "campaign_group", "campaign_group:ip", "advertiser", "advertiser:ip", "product", "product:ip"};
static const char* cnames[] = {"flight_id", "campaign_id", "campaign_group_id", "advertiser_id", "product_id"};
// 1: predicate type, 2: event caps 0..2, 3: shape, 4: form, 5: widths
// a - b > c over the integers
static int exceeds(int64_t a, int64_t b, int64_t c)
{
    int64_t d = (int64_t)((u64)a - (u64)b);
    int ov = ((a ^ b) & (a ^ d)) < 0;
    return (ov & (a > b)) | (!ov & (d > c));
}
static void frequency(void)
{
    int ty = (int)dse_param(1), nc = (int)dse_param(2), shape = (int)dse_param(3), form = (int)dse_param(4), wide = (int)dse_param(5);
    int64_t limit = dse_int("limit", wide ? 63 : 34), len = dse_int("len", wide ? 32 : 9), now = (int64_t)dse_sym("now", wide ? 32 : 8);
    u64 id = dse_sym("id", 32), eid[2] = {0, 0}, cnt[2] = {0, 0}; int64_t ts[2] = {0, 0}, tsec[2] = {0, 0};
    if(wide == 2) {
        static const int64_t base[] = {10000000000000, 9007199254740992, -10000000000000, INT64_MAX - 63, INT64_MIN + 1};
        now = base[dse_choice("base", 5)] + (int64_t)dse_sym("off", 6); len = dse_int("len", 6);
    }
    int et[2], ens[2], hcap = dse_choice("hcap", 2), hnow = dse_choice("hnow", 2), rel = 0;
    static const char* ns[] = {"n", "m", "z"};
    if(!hcap) nc = 0;
    for(int i = 0; i < nc; i++) {
        eid[i] = dse_sym("eid", 32); cnt[i] = dse_sym("cnt", 32);
        // the timestamp is in microseconds; wide: any second, a few offsets inside it
        if(wide == 2) { static const int64_t base[] = {0, 9223372036854, -9223372036854, 1000000000}; tsec[i] = base[dse_choice("tb", 4)]; ts[i] = tsec[i] * 1000000; }
        else if(wide) { static const int64_t off[] = {0, 1, 999999}; tsec[i] = (int64_t)dse_sym("ts", 32); ts[i] = tsec[i] * 1000000 + off[dse_choice("us", 3)]; }
        else ts[i] = (int64_t)dse_sym("ts", 24);
        rel = dse_choice("type", i ? 2 : 3); // the same, its counterpart, another
        et[i] = rel == 0 ? ty : rel == 1 ? ty ^ 1 : (ty + 2) % 10;
        ens[i] = dse_choice("ns", 3);
    }
    struct betree* t = betree_make();
    betree_add_frequency_caps_variable(t, "frequency_caps", true);
    betree_add_integer_variable(t, "now", true, INT64_MIN, INT64_MAX);
    betree_add_boolean_variable(t, "b", true);
    dse_bind(0, limit); dse_bind(1, len); dse_bind(2, now);
    int want[4];
    for(int k = 0; k < 2; k++) {
        char x[300] = "", p[200] = "";
        putall(p, "within_frequency_cap(\"?\", \"!\", $0, $1)", '?', types[ty]);
        char* q = strchr(p, '!'); *q = *ns[k];
        static const char* shapes[] = {"@", "not @", "b or @", "b and (not @)"};
        putall(x, shapes[(shape + k) % 4], '@', p);
        const struct betree_constant* c[5];
        for(int i = 0; i < 5; i++) c[(i + shape) % 5] = betree_make_integer_constant(cnames[i], i == ty / 2 ? (int64_t)id : 1000 + i);
        dse_assert(betree_insert_with_constants(t, (u64)(k + 1), 5, c, dse_text(x)), "a valid expression is inserted");
        betree_free_constants(5, (struct betree_constant**)c);
        // documented value
        int found = 0, w = 1;
        for(int i = 0; i < nc; i++) {
            int m = (et[i] == ty) & (ens[i] == k) & (eid[i] == id) & !found;
            int over = limit > (int64_t)cnt[i];
            int old = form == 3 ? 1 : wide ? exceeds(now, tsec[i], len) : ts[i] < (now - len) * 1000000;
            int ok = (len <= 0 ? over : (old | over));
            w &= !m | ok;
            found |= m;
        }
        w &= hcap & hnow;
        want[k] = (shape + k) % 4 == 1 ? !w : (shape + k) % 4 == 3 ? !w & 1 : w;
    }
    // b is true exactly when a "b and" shape is used
    int b = shape % 4 == 3 || (shape + 1) % 4 == 3;
    if(b) for(int k = 0; k < 2; k++) if((shape + k) % 4 == 2) want[k] = 1;
    if(form < 2) {
        J j; j_init(&j);
        if(hcap) {
            char x[400] = "\"frequency_caps\": [";
            for(int i = 0; i < nc; i++) {
                dse_bind(3 + 3 * i, (int64_t)eid[i]); dse_bind(4 + 3 * i, (int64_t)cnt[i]); dse_bind(5 + 3 * i, ts[i]);
                if(i) cat(x, ", ");
                cat(x, form ? "[[\"" : "[\""); cat(x, types[et[i]]); cat(x, i ? "\", $6, \"" : "\", $3, \""); cat(x, ns[ens[i]]);
                cat(x, form ? "\"]" : "\""); cat(x, i ? ", $7, $8]" : ", $4, $5]");
            }
            cat(x, "]");
            j_add(&j, x);
        }
        if(hnow) j_add(&j, "\"now\": $2");
        j_add(&j, b ? "\"b\": true" : "\"b\": false");
        expect(t, NULL, j_end(&j), 2, want);
    } else {
        struct betree_event* ev = betree_make_event(t);
        size_t at = 0;
        if(hcap) {
            struct betree_frequency_caps* c = betree_make_frequency_caps((size_t)nc);
            for(int i = 0; i < nc; i++) betree_add_frequency_cap(c, (size_t)i, betree_make_frequency_cap(types[et[i]], (uint32_t)eid[i], ns[ens[i]], form == 2, ts[i], (uint32_t)cnt[i]));
            betree_set_variable(ev, at++, betree_make_frequency_caps_variable("frequency_caps", c));
        }
        if(hnow) betree_set_variable(ev, at++, betree_make_integer_variable("now", now));
        betree_set_variable(ev, at++, betree_make_boolean_variable("b", b));
        expect(t, ev, NULL, 2, want);
    }
    dse_cover(1);
    betree_free(t);
}
// 1: number of segments, 2: form, 3: named attribute, 4: wide
static void segments(void)
{
    int n = (int)dse_param(1), form = (int)dse_param(2), named = (int)dse_param(3), wide = (int)dse_param(4);
    int64_t id = dse_int("id", 63), secs = dse_int("secs", wide ? 40 : 9), now = (int64_t)dse_sym("now", wide ? 40 : 8), eid[3], ts[3], tsec[3];
    // wide 2: times near the far ends of what an event can carry
    if(wide == 2) {
        static const int64_t base[] = {10000000000000, 9007199254740992, -10000000000000, INT64_MAX - 63, INT64_MIN + 1};
        now = base[dse_choice("base", 5)] + (int64_t)dse_sym("off", 6); secs = dse_int("len", 6);
    }
    dse_assume(id >= 0);
    int hseg = dse_choice("hseg", 2), hnow = dse_choice("hnow", 2);
    for(int i = 0; i < n; i++) {
        eid[i] = dse_int("eid", 63); dse_assume(eid[i] >= 0);
        for(int k = 0; k < i; k++) dse_assume(eid[k] != eid[i]);
        if(wide == 2) { static const int64_t base[] = {0, 9223372036854, -9223372036854, 1000000000}; tsec[i] = base[dse_choice("tb", 4)]; ts[i] = tsec[i] * 1000000; }
        else if(wide) { static const int64_t off[] = {0, 1, 999999}; tsec[i] = (int64_t)dse_sym("ts", 40); ts[i] = tsec[i] * 1000000 + off[dse_choice("us", 3)]; }
        else ts[i] = (int64_t)dse_sym("ts", 24);
    }
    struct betree* t = betree_make();
    const char* attr = named ? "segx" : "segments_with_timestamp";
    betree_add_integer_variable(t, "now", true, INT64_MIN, INT64_MAX);
    if(named) betree_add_segments_variable(t, "segments_with_timestamp", true);
    betree_add_segments_variable(t, attr, true);
    dse_bind(0, id); dse_bind(1, secs); dse_bind(2, now);
    dse_assert(betree_insert(t, 1, dse_text(named ? "segment_within(segx, $0, $1)" : "segment_within($0, $1)")), "inserted");
    dse_assert(betree_insert(t, 2, dse_text(named ? "segment_before(segx, $0, $1)" : "segment_before($0, $1)")), "inserted");
    dse_assert(betree_insert(t, 3, dse_text(named ? "not segment_within(segx, $0, $1)" : "not segment_within($0, $1)")), "inserted");
    int in = 0, be = 0;
    if(hseg && hnow) for(int i = 0; i < n; i++) {
        int m = eid[i] == id, young = wide ? !exceeds(now, secs, tsec[i]) : (now - secs) * 1000000 <= ts[i];
        in |= m & young; be |= m & !young;
    }
    int want[3] = {in, be, !in};
    if(form == 0) {
        J j; j_init(&j);
        char x[200] = "\"";
        cat(x, attr); cat(x, "\": [");
        for(int i = 0; i < n; i++) { dse_bind(3 + 2 * i, eid[i]); dse_bind(4 + 2 * i, ts[i]); cat(x, i == 0 ? "[$3, $4]" : i == 1 ? ", [$5, $6]" : ", [$7, $8]"); }
        cat(x, "]");
        if(hseg) j_add(&j, x);
        if(hnow) j_add(&j, "\"now\": $2");
        if(named && hnow) j_add(&j, "\"segments_with_timestamp\": [[1, 5000000]]");
        expect(t, NULL, j_end(&j), 3, want);
    } else {
        struct betree_event* ev = betree_make_event(t);
        size_t at = 0;
        if(hseg) {
            struct betree_segments* c = betree_make_segments((size_t)n);
            for(int i = 0; i < n; i++) betree_add_segment(c, (size_t)i, betree_make_segment(eid[i], ts[i]));
            betree_set_variable(ev, at++, betree_make_segments_variable(attr, c));
        }
        if(hnow) betree_set_variable(ev, at++, betree_make_integer_variable("now", now));
        expect(t, ev, NULL, 3, want);
    }
    dse_cover(1);
    betree_free(t);
}
// 1: pair, 2: 0 float 1 integer arguments
static void geo(void)
{
    // centre (as written in the expression) and event position
    static const struct { const char* f; const char* i; double lat, lon, elat, elon; } g[] = {
        {"45.0, -73.0", "45, -73", 45, -73, 45.25, -73.5},
        {"0.0, 0.0", "0, 0", 0, 0, 0.5, 0.25},
        {"-33.0, 151.0", "-33, 151", -33, 151, -35.5, 149.25},
        {"10.0, 179.0", "10, 179", 10, 179, 12.5, -179.5},
        {"60.0, 25.0", "60, 25", 60, 25, -33.75, 151.125},
        {"-54.0, -68.0", "-54, -68", -54, -68, 64.25, -21.75},
        {"89.0, 100.0", "89, 100", 89, 100, 88.5, -80.},
        {"45.0, -73.0", "45, -73", 45, -73, 45, -73},
        {"30.0, 40.0", "30, 40", 30, 40, -30, -140.},
        {"45.0, -73.0", "45, -73", 45, -73, -45, 107.},
        {"0.0, 0.0", "0, 0", 0, 0, 0, 180.},
        {"1.0, 1.0", "1, 1", 1, 1, -1, -179.},
        {"23.0, 57.0", "23, 57", 23, 57, -23, -123.},
        {"45.5, -73.25", NULL, 45.5, -73.25, 45.25, -73.5},
    };
    int k = (int)dse_param(1), ints = (int)dse_param(2);
    int hlat = dse_choice("hlat", 2), hlon = dse_choice("hlon", 2);
    double r; char x[100];
    strcpy(x, "geo_within_radius(");
    if(ints) { int64_t ri = (int64_t)dse_sym("r", 15); dse_bind(0, ri); r = (double)ri; cat(x, g[k].i); cat(x, ", $0)"); }
    else { r = dse_sym_double("r"); dse_assume((r >= 0.) & (r <= 25000.)); dse_bindf(0, r); cat(x, g[k].f); cat(x, ", #0)"); }
    struct betree* t = betree_make();
    betree_add_float_variable(t, "latitude", true, -90., 90.);
    betree_add_float_variable(t, "longitude", true, -180., 180.);
    dse_assert(betree_insert(t, 1, dse_text(x)), "inserted");
    char y[110] = "not "; cat(y, x);
    dse_assert(betree_insert(t, 2, dse_text(y)), "inserted");
    struct betree_event* ev = betree_make_event(t);
    size_t at = 0;
    if(hlat) betree_set_variable(ev, at++, betree_make_float_variable("latitude", g[k].elat));
    if(hlon) betree_set_variable(ev, at++, betree_make_float_variable("longitude", g[k].elon));
    struct report* rep = make_report();
    dse_assert(betree_search_with_event(t, ev, rep), "a valid event is searched");
    int got[2];
    count_subs(rep, 2, got);
    dse_assert(got[0] + got[1] == 1, "a position is inside or outside");
    // haversine form, another formula than the code's
    double R = M_PI / 180, a = sin((g[k].elat - g[k].lat) * R / 2), b = sin((g[k].elon - g[k].lon) * R / 2);
    double h = a * a + cos(g[k].lat * R) * cos(g[k].elat * R) * b * b;
    double d = 2 * 6372.8 * asin(h >= 1 ? 1 : sqrt(h));
    if(!(hlat && hlon)) dse_assert(got[0] == 0, "an undefined position is nowhere");
    else {
        // near the antipode the distance is ill-conditioned; the tolerance is far below a metre elsewhere
        double tol = d > 20000 ? .5 : 1e-5;
        if(r >= d + tol) dse_assert(got[0] == 1, "a position nearer than the radius is inside");
        if(r < d - tol) dse_assert(got[0] == 0, "a position farther than the radius is outside");
    }
    dse_cover(1);
    free_report(rep);
    betree_free_event(ev);
    betree_free(t);
}
// 1: length of the event string, 2: length of the pattern, 3: pattern alphabet
static void patterns(void)
{
    int n = (int)dse_param(1), m = (int)dse_param(2), al = (int)dse_param(3);
    static const char* alph[] = {"ab", "Aa", "%-", "\xc3\xa9"};
    char s[8], p[8];
    for(int i = 0; i < n; i++) { s[i] = (char)dse_sym("s", 8); dse_assume(s[i] != 0); }
    s[n] = 0;
    for(int i = 0; i < m; i++) p[i] = alph[al][dse_choice("p", 2)];
    p[m] = 0;
    int hs = dse_choice("hs", 2);
    struct betree* t = betree_make();
    betree_add_string_variable(t, "s", true, SIZE_MAX);
    static const char* f[] = {"contains(s, \"@\")", "starts_with(s, \"@\")", "ends_with(s, '@')", "not contains(s, \"@\")", "not starts_with(s, \"@\")", "not ends_with(s, \"@\")"};
    int want[6], at[8], any = 0;
    for(int i = 0; i <= n; i++) {
        at[i] = i + m <= n;
        if(i + m <= n) for(int k = 0; k < m; k++) at[i] &= s[i + k] == p[k];
        any |= at[i];
    }
    want[0] = hs & any; want[1] = hs & at[0]; want[2] = hs & (m <= n ? at[n - m] : 0);
    for(int i = 0; i < 3; i++) want[3 + i] = !want[i];
    for(int i = 0; i < 6; i++) {
        char x[60] = "";
        putall(x, f[i], '@', p);
        dse_assert(betree_insert(t, (u64)(i + 1), x), "inserted");
    }
    struct betree_event* ev = betree_make_event(t);
    if(hs) betree_set_variable(ev, 0, betree_make_string_variable("s", s));
    expect(t, ev, NULL, 6, want);
    dse_cover(1);
    betree_free(t);
}
void harness(void)
{
    switch(dse_param(0)) {
        case 0: frequency(); break;
        case 1: segments(); break;
        case 2: geo(); break;
        default: patterns(); break;
    }
}

// Every predicate kind of the language over a fixed schema, with symbolic constants and event
// values, and its documented value.  KIND_N kinds; slot 0/1 selects the constant a or b.
#pragma once
#include "common.h"
static int64_t k_c[2];            // integer constants
static char k_s[2];               // string constants 'a'..
static int64_t kv_i, kv_j, kv_il[2], kv_e, kv_ts, kv_now, kv_cnt, kv_fid, kv_cts;
static double kv_f;
static char kv_s, kv_u, kv_sl[2];
static int kv_b, kv_d, kh_i, kh_j, kh_f, kh_s, kh_u, kh_e, kh_il, kh_sl, kh_b, kh_d, kh_seg, kh_seg2, kh_cap, kh_now, kh_geo;
static int k_niil = 2, k_nsl = 2;
static int k_freqtype, k_freqns;  // cap present in the event
static const char* k_types[] = {"flight", "campaign", "advertiser:ip"};
enum { KIND_N = 60 };
static void k_schema(struct betree* t)
{
    betree_add_integer_variable(t, "i", true, -4, 3);
    betree_add_integer_variable(t, "j", true, -4, 3);
    betree_add_float_variable(t, "f", true, -4., 3.);
    betree_add_string_variable(t, "s", true, 4);
    betree_add_string_variable(t, "u", true, 4);
    betree_add_integer_enum_variable(t, "e", true, 20);
    betree_add_integer_list_variable(t, "il", true, -4, 3);
    betree_add_string_list_variable(t, "sl", true, 4);
    betree_add_boolean_variable(t, "b", true);
    betree_add_boolean_variable(t, "d", true);
    betree_add_segments_variable(t, "segments_with_timestamp", true);
    betree_add_segments_variable(t, "seg2", true);
    betree_add_frequency_caps_variable(t, "frequency_caps", true);
    betree_add_integer_variable(t, "now", true, 0, 1000);
    betree_add_float_variable(t, "latitude", true, -90., 90.);
    betree_add_float_variable(t, "longitude", true, -180., 180.);
}
// declare the symbolic inputs (each harness calls this once); bits: width of integers
static void k_inputs(unsigned bits)
{
    k_c[0] = dse_int("a", bits); k_c[1] = dse_int("b", bits);
    kv_i = dse_int("i", bits); kv_j = dse_int("j", bits); kv_e = dse_int("e", bits);
    kv_il[0] = dse_int("il0", bits); kv_il[1] = dse_int("il1", bits);
    kv_now = dse_int("now", 8); dse_assume(kv_now >= 0);
    kv_ts = (int64_t)dse_sym("ts", 8); kv_cts = (int64_t)dse_sym("cts", 8);
    kv_cnt = (int64_t)dse_sym("cnt", 3); kv_fid = (int64_t)dse_sym("fid", 3);
    dse_bind(0, k_c[0]); dse_bind(1, k_c[1]);
    dse_bind(10, kv_i); dse_bind(11, kv_j); dse_bind(12, kv_e); dse_bind(13, kv_il[0]); dse_bind(14, kv_il[1]);
    dse_bind(15, kv_now); dse_bind(16, kv_ts * 1000000); dse_bind(17, kv_cnt); dse_bind(18, kv_fid); dse_bind(19, kv_cts * 1000000);
    kv_f = 1.5; dse_bindf(0, kv_f);
}
static void k_put(char* d, const char* f, int k)
{
    for(; *f; f++) *d++ = *f == '@' ? (char)('0' + k) : *f == '?' ? k_s[k] : *f;
    *d = 0;
}
static int k_in_il(int64_t c) { return ((k_niil > 0) & (kv_il[0] == c)) | ((k_niil > 1) & (kv_il[1] == c)); }
static int k_in_sl(char c) { return ((k_nsl > 0) & (kv_sl[0] == c)) | ((k_nsl > 1) & (kv_sl[1] == c)); }
// whether an event attribute is used by the kind (others keep fixed values)
static int k_freq(const char* type, int ns, int64_t len, int64_t limit, int64_t id)
{
    int has = !strcmp(k_types[k_freqtype], type) & (k_freqns == ns) & (kv_fid == id);
    int64_t age = kv_now - kv_cts;
    int ok = len <= 0 ? limit > kv_cnt : (age > len) | (limit > kv_cnt);
    return kh_cap & kh_now & (!has | ok);
}
static E k_leaf(int kind, int k, int64_t flight_id)
{
    char t[160];
    int64_t c = k_c[k];
    char s = k_s[k];
    const char* f = "true"; int w = 1;
    switch(kind) {
        case 0: f = "i = $@"; w = kh_i & (kv_i == c); break;
        case 1: f = "i <> $@"; w = kh_i & (kv_i != c); break;
        case 2: f = "i < $@"; w = kh_i & (kv_i < c); break;
        case 3: f = "i <= $@"; w = kh_i & (kv_i <= c); break;
        case 4: f = "i > $@"; w = kh_i & (kv_i > c); break;
        case 5: f = "i >= $@"; w = kh_i & (kv_i >= c); break;
        case 6: f = "i in ($@, 2)"; w = kh_i & ((kv_i == c) | (kv_i == 2)); break;
        case 7: f = "i not in ($@, 2)"; w = kh_i & (kv_i != c) & (kv_i != 2); break;
        case 8: f = "i is null"; w = !kh_i; break;
        case 9: f = "i is not null"; w = kh_i; break;
        case 10: f = "j = $@"; w = kh_j & (kv_j == c); break;
        case 11: f = "j < $@"; w = kh_j & (kv_j < c); break;
        case 12: f = k ? "f < 1.5" : "f < 2"; w = kh_f & (kv_f < (k ? 1.5 : 2.)); break;
        case 13: f = k ? "f <= 2.0" : "f <= 2"; w = kh_f & (kv_f <= 2.); break;
        case 14: f = "j in (-4, $@, 3)"; w = kh_j & ((kv_j == c) | (kv_j == -4) | (kv_j == 3)); break;
        case 15: f = "s = \"?\""; w = kh_s & (kv_s == s); break;
        case 16: f = "s <> \"?\""; w = kh_s & (kv_s != s); break;
        case 17: f = "s in (\"?\", \"c\")"; w = kh_s & ((kv_s == s) | (kv_s == 'c')); break;
        case 18: f = "s not in (\"?\", \"c\")"; w = kh_s & (kv_s != s) & (kv_s != 'c'); break;
        case 19: f = "contains(s, \"?\")"; w = kh_s & (kv_s == s); break;
        case 20: f = "starts_with(s, \"?\")"; w = kh_s & (kv_s == s); break;
        case 21: f = "ends_with(s, \"?\")"; w = kh_s & (kv_s == s); break;
        case 22: f = "u = \"?\""; w = kh_u & (kv_u == s); break;
        case 23: f = "e = $@"; w = kh_e & (kv_e == c); break;
        case 24: f = "e <> $@"; w = kh_e & (kv_e != c); break;
        case 25: f = "il one of (-4, $@, 3)"; w = kh_il & (k_in_il(c) | k_in_il(-4) | k_in_il(3)); break;
        case 26: f = "il none of ($@, 2)"; w = kh_il & !(k_in_il(c) | k_in_il(2)); break;
        case 27: f = "il all of ($@, 2)"; w = kh_il & k_in_il(c) & k_in_il(2); break;
        case 28: f = "$@ in il"; w = kh_il & k_in_il(c); break;
        case 29: f = "$@ not in il"; w = kh_il & !k_in_il(c); break;
        case 30: f = "il is empty"; w = kh_il & (k_niil == 0); break;
        case 31: f = "il is null"; w = !kh_il; break;
        case 32: f = "sl one of (\"a\", \"?\", \"c\")"; w = kh_sl & (k_in_sl('a') | k_in_sl(s) | k_in_sl('c')); break;
        case 33: f = "sl none of (\"?\", \"c\")"; w = kh_sl & !(k_in_sl(s) | k_in_sl('c')); break;
        case 34: f = "sl all of (\"?\", \"c\")"; w = kh_sl & k_in_sl(s) & k_in_sl('c'); break;
        case 35: f = "\"?\" in sl"; w = kh_sl & k_in_sl(s); break;
        case 36: f = "\"?\" not in sl"; w = kh_sl & !k_in_sl(s); break;
        case 37: f = "sl is empty"; w = kh_sl & (k_nsl == 0); break;
        case 38: f = "b"; w = kh_b & kv_b; break;
        case 39: f = "d"; w = kh_d & kv_d; break;
        // the event has segments 1 (time 5) and 2 (time ts), and segment 2 (time 30) in seg2
        case 40: f = "segment_within($@, 20)"; w = kh_seg & kh_now & (((c == 2) & (kv_now - 20 <= kv_ts)) | ((c == 1) & (kv_now - 20 <= 5))); break;
        case 41: f = "segment_before($@, 20)"; w = kh_seg & kh_now & (((c == 2) & (kv_now - 20 > kv_ts)) | ((c == 1) & (kv_now - 20 > 5))); break;
        case 42: f = "segment_within(seg2, $@, 20)"; w = kh_seg2 & kh_now & (c == 2) & (kv_now - 20 <= 30); break;
        case 43: f = "segment_within($@, 30)"; w = kh_seg & kh_now & (((c == 2) & (kv_now - 30 <= kv_ts)) | ((c == 1) & (kv_now - 30 <= 5))); break;
        case 44: f = "within_frequency_cap(\"flight\", \"n\", 4, 20)"; w = k_freq("flight", 0, 20, 4, flight_id); break;
        case 45: f = "within_frequency_cap(\"campaign\", \"n\", 4, 20)"; w = k_freq("campaign", 0, 20, 4, 3); break;
        case 46: f = "within_frequency_cap(\"flight\", \"m\", 4, 20)"; w = k_freq("flight", 1, 20, 4, flight_id); break;
        case 47: f = "within_frequency_cap(\"flight\", \"n\", 5, 20)"; w = k_freq("flight", 0, 20, 5, flight_id); break;
        case 48: f = "within_frequency_cap(\"flight\", \"n\", 4, 0)"; w = k_freq("flight", 0, 0, 4, flight_id); break;
        case 49: f = "geo_within_radius(45, -73, 100)"; w = kh_geo; break;   // the event is at 45.1, -73.2: about 19 km
        case 50: f = "geo_within_radius(45, -73, 10)"; w = 0; break;
        case 51: f = "geo_within_radius(45, -75, 100)"; w = 0; break;
        case 52: f = "geo_within_radius(48, -73, 100)"; w = 0; break;
        case 53: f = "false"; w = 0; break;
        case 54: f = "(i = $@ and j = $@)"; w = kh_i & kh_j & (kv_i == c) & (kv_j == c); break;
        case 55: f = "(i = $@ or j = $@)"; w = (kh_i & (kv_i == c)) | (kh_j & (kv_j == c)); break;
        case 56: f = "not (i = $@)"; w = !(kh_i & (kv_i == c)); break;
        case 58: f = k ? "f > 1.25" : "f > 1.5"; w = kh_f & (kv_f > (k ? 1.25 : 1.5)); break;
        case 59: f = k ? "f = 1.25" : "f = 1.5"; w = kh_f & (kv_f == (k ? 1.25 : 1.5)); break;
        default: f = "true"; w = 1; break;
    }
    k_put(t, f, k);
    return e_leaf(t, w);
}
// text event from the inputs
static const char* k_event(void)
{
    J j; j_init(&j);
    char b[80];
    if(kh_i) j_add(&j, "\"i\": $a");
    if(kh_j) j_add(&j, "\"j\": $b");
    if(kh_f) j_add(&j, "\"f\": #0");
    if(kh_s) { char x[] = "\"s\": \"?\""; x[6] = kv_s; j_add(&j, x); }
    if(kh_u) { char x[] = "\"u\": \"?\""; x[6] = kv_u; j_add(&j, x); }
    if(kh_e) j_add(&j, "\"e\": $c");
    if(kh_il) j_add(&j, k_niil == 0 ? "\"il\": []" : k_niil == 1 ? "\"il\": [$d]" : "\"il\": [$d, $e]");
    if(kh_sl) {
        strcpy(b, "\"sl\": [");
        for(int i = 0; i < k_nsl; i++) { char x[] = "\"?\""; x[1] = kv_sl[i]; if(i) cat(b, ", "); cat(b, x); }
        cat(b, "]"); j_add(&j, b);
    }
    if(kh_b) j_add(&j, kv_b ? "\"b\": true" : "\"b\": false");
    if(kh_d) j_add(&j, kv_d ? "\"d\": true" : "\"d\": false");
    if(kh_seg) j_add(&j, "\"segments_with_timestamp\": [[1, 5000000], [2, $g]]");
    if(kh_seg2) j_add(&j, "\"seg2\": [[2, 30000000]]");
    if(kh_cap) {
        strcpy(b, "\"frequency_caps\": [[\""); cat(b, k_types[k_freqtype]);
        cat(b, k_freqns ? "\", $i, \"m\", $h, $j]]" : "\", $i, \"n\", $h, $j]]");
        j_add(&j, b);
    }
    if(kh_now) j_add(&j, "\"now\": $f");
    if(kh_geo) j_add(&j, "\"latitude\": 45.1, \"longitude\": -73.2");
    return j_end(&j);
}
// attribute group of a kind: 0 i, 1 j, 2 f, 3 s, 4 u, 5 e, 6 il, 7 sl, 8 b, 9 d, 10 seg, 11 seg2, 12 cap, 13 geo, 14 none
static int k_uses(int kind, int g)
{
    static const signed char m[KIND_N][2] = {
        {0,-1},{0,-1},{0,-1},{0,-1},{0,-1},{0,-1},{0,-1},{0,-1},{0,-1},{0,-1},{1,-1},{1,-1},{2,-1},{2,-1},{1,-1},
        {3,-1},{3,-1},{3,-1},{3,-1},{3,-1},{3,-1},{3,-1},{4,-1},{5,-1},{5,-1},{6,-1},{6,-1},{6,-1},{6,-1},{6,-1},{6,-1},{6,-1},
        {7,-1},{7,-1},{7,-1},{7,-1},{7,-1},{7,-1},{8,-1},{9,-1},{10,-1},{10,-1},{11,-1},{10,-1},{12,-1},{12,-1},{12,-1},{12,-1},{12,-1},
        {13,-1},{13,-1},{13,-1},{13,-1},{-1,-1},{0,1},{0,1},{0,-1},{-1,-1},{2,-1},{2,-1}};
    return m[kind][0] == g || m[kind][1] == g;
}
// choose definedness and finite-choice values for the attributes used by two kinds
static void k_choose(int k1, int k2)
{
#define U(g) (k_uses(k1, g) || k_uses(k2, g))
    kh_i = U(0) ? dse_choice("hi", 2) : 1;
    kh_j = U(1) ? dse_choice("hj", 2) : 1;
    kh_f = U(2) ? dse_choice("hf", 2) : 1;
    if(U(2) && kh_f) { kv_f = dse_sym_double_hi("f", 15); dse_assume((kv_f >= -9.) & (kv_f <= 9.)); dse_bindf(0, kv_f); }
    kh_e = U(5) ? dse_choice("he", 2) : 1;
    kh_s = U(3) ? dse_choice("hs", 2) : 1;
    kh_u = U(4) ? dse_choice("hu", 2) : 1;
    k_s[0] = k_s[1] = kv_s = kv_u = kv_sl[0] = kv_sl[1] = 'a';
    if(k_uses(k1, 3) || k_uses(k1, 4) || k_uses(k1, 7)) k_s[0] = (char)('a' + dse_choice("ca", 3));
    if(k_uses(k2, 3) || k_uses(k2, 4) || k_uses(k2, 7)) k_s[1] = (char)('a' + dse_choice("cb", 3));
    if(U(3) && kh_s) kv_s = (char)('a' + dse_choice("vs", 4));
    if(U(4) && kh_u) kv_u = (char)('a' + dse_choice("vu", 4));
    kh_il = U(6) ? dse_choice("hil", 2) : 1; k_niil = (k1 == 30 || k2 == 30) && kh_il ? 2 * dse_choice("nil", 2) : 2;
    kh_sl = U(7) ? dse_choice("hsl", 2) : 1; k_nsl = (k1 == 37 || k2 == 37) && kh_sl ? 2 * dse_choice("nsl", 2) : 2;
    if(U(7) && kh_sl) for(int i = 0; i < k_nsl; i++) kv_sl[i] = i ? (char)("bc"[dse_choice("vsl", 2)]) : (char)("acd"[dse_choice("vsl", 3)]);
    kh_b = U(8) ? dse_choice("hb", 2) : 1; kv_b = U(8) && kh_b ? dse_choice("vb", 2) : 1;
    kh_d = U(9) ? dse_choice("hd", 2) : 1; kv_d = U(9) && kh_d ? dse_choice("vd", 2) : 1;
    kh_seg = U(10) ? dse_choice("hseg", 2) : 1;
    kh_seg2 = U(11) ? dse_choice("hseg2", 2) : 1;
    kh_cap = U(12) ? dse_choice("hcap", 2) : 1;
    if(U(12) && kh_cap) { k_freqtype = dse_choice("ft", 2); k_freqns = dse_choice("fn", 2); }
    kh_now = U(10) || U(11) || U(12) ? dse_choice("hnow", 2) : 1;
    kh_geo = U(13) ? dse_choice("hgeo", 2) : 1;
#undef U
}
// constants for one subscription
static int k_consts(const struct betree_constant** c, int64_t flight_id)
{
    c[0] = betree_make_integer_constant("flight_id", flight_id);
    c[1] = betree_make_integer_constant("campaign_id", 3);
    return 2;
}
static bool k_insert(struct betree* t, u64 id, const char* text, int64_t flight_id)
{
    const struct betree_constant* c[2];
    int n = k_consts(c, flight_id);
    bool r = betree_insert_with_constants(t, id, (size_t)n, c, text);
    betree_free_constants((size_t)n, (struct betree_constant**)c);
    return r;
}
static void k_set(struct betree_event* ev, int* at, struct betree_variable* v) { betree_set_variable(ev, (size_t)(*at)++, v); }
// the same event through the API (attribute slots in a rotated order)
static struct betree_event* k_event_api(const struct betree* t, int rot)
{
    struct betree_event* ev = betree_make_event(t);
    int at = 0;
    char x[2] = {0, 0};
    for(int q = 0; q < 16; q++) { if(rot & 1) at = q; /* gaps are left for missing attributes */ switch((q + rot) % 16) {
        case 0: if(kh_i) k_set(ev, &at, betree_make_integer_variable("i", kv_i)); break;
        case 1: if(kh_j) k_set(ev, &at, betree_make_integer_variable("j", kv_j)); break;
        case 2: if(kh_f) k_set(ev, &at, betree_make_float_variable("f", kv_f)); break;
        case 3: if(kh_s) { x[0] = kv_s; k_set(ev, &at, betree_make_string_variable("s", x)); } break;
        case 4: if(kh_u) { x[0] = kv_u; k_set(ev, &at, betree_make_string_variable("u", x)); } break;
        case 5: if(kh_e) k_set(ev, &at, betree_make_integer_variable("e", kv_e)); break;
        case 6: if(kh_il) {
            struct betree_integer_list* l = betree_make_integer_list((size_t)k_niil);
            for(int i = 0; i < k_niil; i++) betree_add_integer(l, (size_t)i, kv_il[i]);
            k_set(ev, &at, betree_make_integer_list_variable("il", l));
        } break;
        case 7: if(kh_sl) {
            struct betree_string_list* l = betree_make_string_list((size_t)k_nsl);
            for(int i = 0; i < k_nsl; i++) { x[0] = kv_sl[i]; betree_add_string(l, (size_t)i, x); }
            k_set(ev, &at, betree_make_string_list_variable("sl", l));
        } break;
        case 8: if(kh_b) k_set(ev, &at, betree_make_boolean_variable("b", kv_b)); break;
        case 9: if(kh_d) k_set(ev, &at, betree_make_boolean_variable("d", kv_d)); break;
        case 10: if(kh_seg) {
            struct betree_segments* s = betree_make_segments(2);
            betree_add_segment(s, 0, betree_make_segment(1, 5000000));
            betree_add_segment(s, 1, betree_make_segment(2, kv_ts * 1000000));
            k_set(ev, &at, betree_make_segments_variable("segments_with_timestamp", s));
        } break;
        case 11: if(kh_seg2) {
            struct betree_segments* s = betree_make_segments(1);
            betree_add_segment(s, 0, betree_make_segment(2, 30000000));
            k_set(ev, &at, betree_make_segments_variable("seg2", s));
        } break;
        case 12: if(kh_cap) {
            struct betree_frequency_caps* c = betree_make_frequency_caps(1);
            betree_add_frequency_cap(c, 0, betree_make_frequency_cap(k_types[k_freqtype], (uint32_t)kv_fid, k_freqns ? "m" : "n", true, kv_cts * 1000000, (uint32_t)kv_cnt));
            k_set(ev, &at, betree_make_frequency_caps_variable("frequency_caps", c));
        } break;
        case 13: if(kh_now) k_set(ev, &at, betree_make_integer_variable("now", kv_now)); break;
        case 14: if(kh_geo) k_set(ev, &at, betree_make_float_variable("latitude", 45.1)); break;
        default: if(kh_geo) k_set(ev, &at, betree_make_float_variable("longitude", -73.2)); break;
    } }
    return ev;
}

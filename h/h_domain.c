// C19: insertion completes and the search stays exact for every domain, node capacity and
// repetition.  param 0: type, 1: domain, 2: capacity, 3: minimum partition size,
// 4: number of subscriptions, 5: mix (0: one expression and one id repeated, 1: one expression
// under different ids, 2..: different expressions)
#include "common.h"
enum { TINT, TFLOAT, TSTR, TENUM, TILIST, TSLIST, TBOOL };
static const u64 caps[] = {1, 2, 3, 0, 255, 256, 257, 1ull << 32, UINT64_MAX};
static const u64 parts[] = {0, 1, 3, 255, 256, UINT64_MAX};
static int T, has, nl;
static int64_t v, w, lo, hi, ca, cb;
static double fv, fc, flo, fhi;
static char sv, sa, sw;
static E leaf(int k)
{
    char t[120];
    switch(T) {
        case TINT: {
            static const char* f[] = {"x = $0", "x <= $0", "x > $0", "x <> $1", "x in ($0, $1)", "not (x >= $1)", "x >= $0 and x <= $1", "x < $0 or x = $1"};
            int r[] = {v == ca, v <= ca, v > ca, v != cb, (v == ca) | (v == cb), 0, (v >= ca) & (v <= cb), (v < ca) | (v == cb)};
            k %= 8; E e = e_leaf(f[k], has & r[k]);
            if(k == 5) e.v = 1 ^ (has & (v >= cb));
            return e;
        }
        case TFLOAT: {
            static const char* f[] = {"x <= #0", "x > #0", "x = #0", "x <> #0", "not (x < #0)", "x < #0 or x > #0"};
            double d = fv - fc; if(d < 0) d = -d;
            int eq = d < 2.2204460492503131e-16;
            k %= 6;
            int r = k == 0 ? fv <= fc : k == 1 ? fv > fc : k == 2 ? eq : k == 3 ? !eq : k == 4 ? fv < fc : (fv < fc) | (fv > fc);
            return e_leaf(f[k], k == 4 ? 1 ^ (has & r) : has & r);
        }
        case TSTR: {
            static const char* f[] = {"x = \"?\"", "x <> \"?\"", "x in (\"?\", \"?\")", "not (x = \"?\")"};
            k %= 4; strcpy(t, f[k]);
            for(char* p = t; *p; p++) if(*p == '?') *p = sa;
            int r = k == 1 ? sv != sa : sv == sa;
            return e_leaf(t, k == 3 ? 1 ^ (has & r) : has & r);
        }
        case TENUM: {
            static const char* f[] = {"x = $0", "x <> $0", "not (x = $0)"};
            k %= 3;
            return e_leaf(f[k], k == 0 ? has & (v == ca) : k == 1 ? has & (v != ca) : 1 ^ (has & (v == ca)));
        }
        case TILIST: {
            static const char* f[] = {"x one of ($0, $1)", "x none of ($0, $1)", "x all of ($0, $1)", "$0 in x", "$0 not in x", "not (x one of ($1))", "x is empty"};
            int a = ((nl > 0) & (v == ca)) | ((nl > 1) & (w == ca)), b = ((nl > 0) & (v == cb)) | ((nl > 1) & (w == cb));
            k %= 7;
            int r = k == 0 ? a | b : k == 1 ? !(a | b) : k == 2 ? a & b : k == 3 ? a : k == 4 ? !a : k == 5 ? b : nl == 0;
            return e_leaf(f[k], k == 5 ? 1 ^ (has & r) : has & r);
        }
        case TSLIST: {
            static const char* f[] = {"x one of (\"?\")", "x none of (\"?\")", "x all of (\"?\")", "\"?\" in x", "\"?\" not in x", "not (x one of (\"?\"))"};
            k %= 6; strcpy(t, f[k]);
            for(char* p = t; *p; p++) if(*p == '?') *p = sa;
            int a = ((nl > 0) & (sv == sa)) | ((nl > 1) & (sw == sa));
            int r = k == 0 || k == 2 || k == 3 || k == 5 ? a : !a;
            return e_leaf(t, k == 5 ? 1 ^ (has & r) : has & r);
        }
        default: {
            static const char* f[] = {"x", "not x", "x or x", "not (x and x)"};
            k %= 4;
            return e_leaf(f[k], k == 0 || k == 2 ? has & (int)v : 1 ^ (has & (int)v));
        }
    }
}
void harness(void)
{
    T = (int)dse_param(0);
    int dom = (int)dse_param(1), n = (int)dse_param(4), mix = (int)dse_param(5);
    struct betree* t = betree_make_with_parameters(caps[dse_param(2)], parts[dse_param(3)]);
    int opt = dom % 2 == 0;
    has = opt ? dse_choice("has", 2) : 1;
    J j; j_init(&j); j_add(&j, "\"y\": 1");
    char b[80];
    switch(T) {
        case TINT: case TILIST: {
            static const int64_t width[] = {0, 1, 2, 3, 4, 7, 998, 999, 1000};
            if(dom < 12) {        // width 0..7 or at the limit of what is split
                static const int64_t base[] = {0, -8, 1000000, INT64_MAX - 1010, INT64_MIN + 9};
                lo = base[(dom + mix) % 5] + (dom * 7 + mix * 5) % 16 - 8; hi = lo + width[dom % 9];
            } else if(dom == 12) { lo = INT64_MIN; hi = INT64_MAX; }
            else if(dom == 13) { lo = INT64_MIN; hi = INT64_MIN; }
            else if(dom == 14) { lo = INT64_MAX; hi = INT64_MAX; }
            else if(dom == 15) { lo = INT64_MAX - 3; hi = INT64_MAX - 1; }
            else if(dom == 16) { lo = INT64_MIN + 1; hi = INT64_MIN + 4; }
            else { lo = INT64_MIN + 1; hi = INT64_MAX - 1; }
            ca = (int64_t)dse_sym_signed("a", 64); cb = (int64_t)dse_sym_signed("b", 64);
            if(dom < 12 && hi - lo > 100) { // constants at the edges and the middle of a wide domain
                int64_t at[] = {lo - 1, lo, lo + (hi - lo) / 2, hi, hi + 1};
                ca = at[dse_choice("pa", 5)]; cb = at[dse_choice("pb", 5)];
            }
            if(T == TILIST && n > 2) { nl = dse_choice("n", 3); }
            else nl = 1;
            v = (int64_t)dse_sym_signed("v", 64); if(nl > 1) w = (int64_t)dse_sym_signed("w", 64);
            dse_assume((ca != INT64_MIN) & (cb != INT64_MIN) & (v != INT64_MIN) & (w != INT64_MIN)); // literals of their own (C14, C15)
            dse_bind(0, ca); dse_bind(1, cb); dse_bind(10, v); dse_bind(11, w);
            if(T == TINT) { betree_add_integer_variable(t, "x", opt, lo, hi); if(has) j_add(&j, "\"x\": $a"); }
            else { betree_add_integer_list_variable(t, "x", opt, lo, hi); if(has) j_add(&j, nl == 0 ? "\"x\": []" : nl == 1 ? "\"x\": [$a]" : "\"x\": [$a, $b]"); }
            break;
        }
        case TFLOAT: {
            static const double base[] = {0., 0.1, -0.3, -7.5, 1e17, -4503599627370495.5, 1e300}, width[] = {0., 0.25, 0.5, 1., 1.0000001, 1.5, 2., 2.25, 3., 7.5};
            flo = base[dom % 7]; fhi = flo + width[(dom / 7) % 10];
            if(dom == 70) { flo = -1.7976931348623157e308; fhi = -flo; }
            if(dom == 71) { flo = 0.; fhi = 999.5; }
            if(dom == 72) { flo = -500.; fhi = 500.; }
            if(dom == 73) { flo = -0.5; fhi = 1.7976931348623157e308; }
            fc = dse_sym_double_hi("a", 16); fv = dse_sym_double_hi("v", 16);
            dse_assume((fc - fc == 0.) & (fv - fv == 0.));
            dse_bindf(0, fc); dse_bindf(1, fv);
            betree_add_float_variable(t, "x", opt, flo, fhi);
            if(has) j_add(&j, "\"x\": #1");
            break;
        }
        case TSTR: case TSLIST: case TENUM: {
            static const size_t count[] = {1, 2, 3, 4, 5, 8, 999, 1000, 1001, 1u << 31, SIZE_MAX - 1, SIZE_MAX};
            size_t c = count[dom % 12];
            if(T == TENUM) {
                betree_add_integer_enum_variable(t, "x", opt, c);
                v = (int64_t)dse_sym_signed("v", 64); ca = (int64_t)dse_sym_signed("a", 64);
                dse_assume((ca != INT64_MIN) & (v != INT64_MIN));
                dse_bind(0, ca); dse_bind(10, v);
                if(has) j_add(&j, "\"x\": $a");
                break;
            }
            sa = (char)('a' + dse_choice("ca", 3)); sv = (char)('a' + dse_choice("v", 4)); sw = sv;
            if(T == TSTR) {
                betree_add_string_variable(t, "x", opt, c);
                strcpy(b, "\"x\": \"?\""); b[6] = sv; if(has) j_add(&j, b);
            } else {
                betree_add_string_list_variable(t, "x", opt, c);
                nl = dse_choice("n", 3);
                if(nl > 1) sw = (char)('a' + dse_choice("w", 4));
                strcpy(b, nl == 0 ? "\"x\": []" : nl == 1 ? "\"x\": [\"?\"]" : "\"x\": [\"?\", \"!\"]");
                for(char* p = b; *p; p++) if(*p == '?') *p = sv; else if(*p == '!') *p = sw;
                if(has) j_add(&j, b);
            }
            break;
        }
        default:
            betree_add_boolean_variable(t, "x", opt);
            v = dse_choice("v", 2);
            if(has) j_add(&j, v ? "\"x\": true" : "\"x\": false");
            break;
    }
    betree_add_integer_variable(t, "y", true, 0, 3);
    int want[300], ok = 1, total = 0;
    for(int i = 0; i < n; i++) {
        E e = mix < 2 ? leaf(dom) : mix == 2 ? leaf(i + dom) : leaf(i * 3 + mix);
        if(mix >= 3 && i % 3 == 1) e = e_and(e, e_leaf("y >= 1", 1));
        if(mix >= 3 && i % 5 == 4) e = e_leaf("y = 2", 0);
        want[i] = e.v; total += e.v;
        ok &= betree_insert(t, mix == 0 ? 1 : (u64)i + 1, dse_text(e.t));
    }
    dse_assert(ok, "a valid subscription is inserted");
    const char* ev = j_end(&j);
    if(mix == 0) {
        struct report* r = make_report();
        dse_assert(betree_search(t, ev, r), "a valid event is searched");
        dse_assert(r->matched == (size_t)total, "every copy of a repeated subscription is reported, no other");
        for(size_t i = 0; i < r->matched; i++) dse_assert(r->subs[i] == 1, "only the inserted id is reported");
        dse_observe(r->matched);
        free_report(r);
    } else check_exact(t, ev, n, want);
    dse_assert(betree_exists(t, ev) == (total > 0), "existence agrees");
    betree_free(t);
    dse_cover(1);
}

// C21: constants supplied at insertion.
// param 0: first cap type, 1: shape, 2: second cap type
#include "common.h"
static const char* types[] = {"flight", "flight:ip", "campaign", "campaign:ip", "campaign_group", "campaign_group:ip", "advertiser", "advertiser:ip", "product", "product:ip"};
static const char* names[] = {"flight_id", "campaign_id", "campaign_group_id", "advertiser_id", "product_id", "flight", "campaign", "campaign_group", "advertiser", "product", "flight_id_", "campaign_group_i", "id", ""};
void harness(void)
{
    int ty1 = (int)dse_param(0), shape = (int)dse_param(1), ty2 = (int)dse_param(2);
    struct betree* t = betree_make();
    betree_add_boolean_variable(t, "b", true);
    betree_add_integer_variable(t, "i", true, 0, 10);
    betree_add_string_variable(t, "s", true, 10);
    betree_add_integer_list_variable(t, "il", true, 0, 10);
    betree_add_integer_enum_variable(t, "e", true, 10);
    betree_add_float_variable(t, "f", true, 0., 10.);
    betree_add_segments_variable(t, "segments_with_timestamp", true);
    betree_add_frequency_caps_variable(t, "frequency_caps", true);
    betree_add_integer_variable(t, "now", true, INT64_MIN, INT64_MAX);
    betree_add_float_variable(t, "latitude", true, -90., 90.);
    betree_add_float_variable(t, "longitude", true, -180., 180.);
    // the constants: values and which of the five are supplied
    u64 val[14];
    int need1 = ty1 / 2, need2 = ty2 / 2, two = shape >= 8;
    for(int i = 0; i < 14; i++) val[i] = i == need1 ? dse_sym("id1", 32) : i == need2 ? dse_sym("id2", 32) : 70 + (u64)i;
    int have1 = dse_choice("have1", 2), have2 = need1 == need2 ? have1 : dse_choice("have2", 2), rest = dse_choice("rest", 3), rot = dse_choice("rot", 4), rev = dse_choice("rev", 2);
    const struct betree_constant* c[14]; int n = 0;
    for(int q = 0; q < 14; q++) {
        int i = (q * 5 + rot * 4) % 14;
        if(rev) i = 13 - i;
        int take = i == need1 ? have1 : i == need2 ? have2 : rest == 2 || (rest == 1 && i >= 5);
        if(take) c[n++] = betree_make_integer_constant(names[i], (int64_t)val[i]);
    }
    // the event: one count over the limit for each type, with its own id; everything else defined
    u64 eid1 = dse_sym("eid1", 32), eid2 = dse_sym("eid2", 32);
    int ok1 = !(eid1 == val[need1]) & !((ty1 == ty2) & (eid2 == val[need1])), ok2 = !(eid2 == val[need2]) & !((ty1 == ty2) & (eid1 == val[need2]));
    int b = dse_choice("b", 2);
    char p1[100] = "within_frequency_cap(\"", p2[100] = "within_frequency_cap(\"";
    cat(p1, types[ty1]); cat(p1, "\", \"n\", 5, 0)"); cat(p2, types[ty2]); cat(p2, "\", \"n\", 5, 0)");
    E P = e_leaf(p1, ok1), Q = e_leaf(p2, ok2), B = e_leaf("b", b), X, e;
    static const char* other[] = {"i in (1, 2)", "i not in (5, 1)", "i > 3", "s = \"x\"", "s in (\"x\", \"y\")", "il one of (1, 2)", "3 in il", "il is null", "e <> 5", "f <= 2.5", "segment_within(1, 20)", "geo_within_radius(45, -73, 100)", "starts_with(s, \"x\")", "not (i = 2)", "true"};
    static const int truth[] = {1, 0, 0, 1, 1, 1, 0, 0, 1, 1, 0, 1, 1, 1, 1};
    int x = (ty1 * 3 + shape + ty2) % 15;
    X = e_leaf(other[x], truth[x]);
    switch(shape) {
        case 0: e = P; break;
        case 1: e = e_not(P); break;
        case 2: e = e_and(P, X); break;
        case 3: e = e_and(X, P); break;
        case 4: e = e_or(X, e_not(P)); break;
        case 5: e = e_or(P, B); break;
        case 6: e = e_or(B, e_and(X, e_not(P))); break;
        case 7: e = e_not(e_or(e_and(X, P), B)); break;
        case 8: e = e_and(P, Q); break;
        case 9: e = e_or(Q, P); break;
        case 10: e = e_and(e_or(Q, X), e_not(P)); break;
        case 11: e = e_or(e_and(B, Q), e_and(X, e_not(P))); break;
        default: e = e_not(e_and(e_not(Q), e_or(P, X))); break;
    }
    int ok = have1 & (!two | have2);
    bool r;
    if(rot & 1) {
        const struct betree_sub* s = betree_make_sub(t, 1, (size_t)n, c, e.t);
        r = s != NULL;
        if(s) dse_assert(betree_insert_sub(t, s), "a prepared subscription is inserted");
    } else r = betree_insert_with_constants(t, 1, (size_t)n, c, e.t);
    dse_observe(r);
    dse_assert(r == (ok != 0), "insertion succeeds exactly when the needed constants are supplied");
    betree_free_constants((size_t)n, (struct betree_constant**)c);
    dse_assert(betree_insert(t, 2, "i = 1"), "inserted");
    int want[2] = {r & e.v, 1};
    J j; j_init(&j);
    char x1[200] = "\"frequency_caps\": [[\"";
    dse_bind(0, (int64_t)eid1); dse_bind(1, (int64_t)eid2);
    cat(x1, types[ty1]); cat(x1, "\", $0, \"n\", 9, 0], [\""); cat(x1, types[ty2]); cat(x1, "\", $1, \"n\", 9, 0]]");
    j_add(&j, x1);
    j_add(&j, b ? "\"b\": true" : "\"b\": false");
    j_add(&j, "\"i\": 1, \"s\": \"x\", \"il\": [1, 7], \"e\": 4, \"f\": 2.5, \"now\": 100, \"segments_with_timestamp\": [[1, 5000000]], \"latitude\": 45.1, \"longitude\": -73.2");
    check_exact(t, j_end(&j), 2, want);
    dse_cover(1);
    betree_free(t);
}

// C17: domain boundaries adjusted to expressions before they are inserted.
// param 0/1: kinds of the two predicates, 2: 0 unbounded domains 1 bounded 2 one side, 3: order, 4: 1 refused adjustments in between
#include "kinds.h"
static void schema(struct betree* t, int how)
{
    if(how == 1) { k_schema(t); return; }
    int64_t lo = how == 2 ? -2 : INT64_MIN;
    betree_add_integer_variable(t, "i", true, lo, INT64_MAX);
    betree_add_integer_variable(t, "j", true, INT64_MIN, how == 2 ? 1 : INT64_MAX);
    betree_add_float_variable(t, "f", true, -1.7976931348623157e308, how == 2 ? 1. : 1.7976931348623157e308);
    betree_add_string_variable(t, "s", true, SIZE_MAX);
    betree_add_string_variable(t, "u", true, how == 2 ? 1 : SIZE_MAX);
    betree_add_integer_enum_variable(t, "e", true, how == 2 ? 1 : SIZE_MAX);
    betree_add_integer_list_variable(t, "il", true, lo, INT64_MAX);
    betree_add_string_list_variable(t, "sl", true, how == 2 ? 1 : SIZE_MAX);
    betree_add_boolean_variable(t, "b", true);
    betree_add_boolean_variable(t, "d", true);
    betree_add_segments_variable(t, "segments_with_timestamp", true);
    betree_add_segments_variable(t, "seg2", true);
    betree_add_frequency_caps_variable(t, "frequency_caps", true);
    betree_add_integer_variable(t, "now", true, 0, INT64_MAX);
    betree_add_float_variable(t, "latitude", true, -90., 90.);
    betree_add_float_variable(t, "longitude", true, -180., 180.);
}
void harness(void)
{
    int k1 = (int)dse_param(0), k2 = (int)dse_param(1), how = (int)dse_param(2), ord = (int)dse_param(3), bad = (int)dse_param(4);
    k_inputs(4);
    // bounds follow the constants: a few concrete ones, event values symbolic
    static const int64_t ca[] = {-7, 1, 5}, cb[] = {3, -2, 7};
#define INTC(k) ((k) < 8 || (k) == 10 || (k) == 11 || (k) == 14 || ((k) >= 23 && (k) < 30) || ((k) >= 40 && (k) < 44) || ((k) >= 54 && (k) < 57))
    k_c[0] = ca[INTC(k1) ? dse_choice("ca", 3) : 1]; k_c[1] = cb[INTC(k2) ? dse_choice("cb", 3) : 0];
    dse_bind(0, k_c[0]); dse_bind(1, k_c[1]);
    k_choose(k1, k2);
    E a = k_leaf(k1, 0, 3), b = k_leaf(k2, 1, 3);
    E e[7];
    e[0] = a; e[1] = b;
    e[2] = e_and(a, b);
    e[3] = e_or(e_not(a), b);
    e[4] = e_and(e_leaf("i <= 1", kh_i & (kv_i <= 1)), e_not(b));
    e[5] = e_or(e_leaf("j in (1, 2)", kh_j & ((kv_j == 1) | (kv_j == 2))), e_and(a, e_leaf("j > -2", kh_j & (kv_j > -2))));
    e[6] = e_not(a);
    struct betree* t = betree_make_with_parameters(ord & 1 ? 1 : 2, 0);
    schema(t, how);
    int n = 7, want[7];
    for(int i = 0; i < n; i++) {
        if(bad && i % 3 == 0) {
            dse_assert(!betree_change_boundaries(t, "zz = 1 or (i > 500 and s = \"qq\")"), "an unknown attribute is refused");
            dse_assert(!betree_change_boundaries(t, "i > 700 and"), "text that is no expression is refused");
        }
        dse_assert(betree_change_boundaries(t, dse_text(e[(i * 3 + ord) % n].t)), "boundaries are adjusted");
    }
    for(int i = 0; i < n; i++) {
        int k = (i * 2 + ord) % n;
        want[k] = e[k].v;
        dse_assert(k_insert(t, (u64)k + 1, dse_text(e[k].t), 3), "an expression the boundaries were adjusted to is inserted");
    }
    if(ord == 2) { // the same again, after the tree is filled
        dse_assert(betree_change_boundaries(t, dse_text(a.t)), "boundaries are adjusted");
    }
    check_exact(t, k_event(), n, want);
    if(ord == 1) {
        struct betree_event* ev = k_event_api(t, ord);
        struct report* r = make_report();
        dse_assert(betree_search_with_event(t, ev, r), "a valid event is searched");
        int got[7]; count_subs(r, n, got);
        for(int i = 0; i < n; i++) dse_assert(got[i] == want[i], "a built event finds the same");
        free_report(r); betree_free_event(ev);
    }
    dse_cover(1);
    betree_free(t);
}

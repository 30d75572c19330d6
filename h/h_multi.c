// C01 C12 C13 C18 C23: several subscriptions over several attributes.
// param 0: mode, 1/2: kinds of the two symbolic predicates, 3: tree parameters, 4: order
#include "kinds.h"
static E e[6];
static int64_t fid[6];
static int n;
static const u64 ids[6] = {UINT64_MAX, 0, 1ull << 40, 7, 4294967303ull, 42};
static struct betree* make(int cfg)
{
    static const int cap[] = {1, 2, 3, 1}, part[] = {0, 1, 0, 2};
    struct betree* t = cfg == 2 ? betree_make() : betree_make_with_parameters((u64)cap[cfg], (u64)part[cfg]);
    k_schema(t);
    return t;
}
static int idx(u64 id)
{
    for(int i = 0; i < n; i++) if(ids[i] == id) return i;
    return -1;
}
static void exact(const struct report* r, const int* in)
{
    int got[6] = {0};
    for(size_t i = 0; i < r->matched; i++) {
        int k = idx(r->subs[i]);
        dse_assert(k >= 0, "only inserted ids are reported");
        got[k]++;
    }
    for(int i = 0; i < n; i++) {
        dse_observe((u64)got[i]);
        dse_assert(got[i] == (in[i] & e[i].v), "a subscription is reported once when it is in the tree and true, else not at all");
    }
}
static bool put(struct betree* t, int i, int two)
{
    if(!two) return k_insert(t, ids[i], dse_text(e[i].t), fid[i]);
    const struct betree_constant* c[2];
    int m = k_consts(c, fid[i]);
    const struct betree_sub* s = betree_make_sub(t, ids[i], (size_t)m, c, dse_text(e[i].t));
    betree_free_constants((size_t)m, (struct betree_constant**)c);
    return s != NULL && betree_insert_sub(t, s);
}
void harness(void)
{
    int mode = (int)dse_param(0), k1 = (int)dse_param(1), k2 = (int)dse_param(2), cfg = (int)dse_param(3), ord = (int)dse_param(4);
    k_inputs(4);
    if(mode == 3) { // make_sub widens domains: constants inside them are symbolic, outside ones concrete
        static const int64_t out[] = {-7, 5, 0};
        if(ord & 1) { dse_assume((k_c[0] >= -3) & (k_c[0] <= 2)); k_c[1] = out[dse_choice("cb", 3)]; dse_bind(1, k_c[1]); }
        else { k_c[0] = out[dse_choice("ca", 3)]; dse_bind(0, k_c[0]); dse_assume((k_c[1] >= -3) & (k_c[1] <= 2)); }
    }
    k_choose(k1, k2);
    int64_t fa = 3, fb = 3;
    if(k_uses(k1, 12) || k_uses(k2, 12)) { fa = (int64_t)dse_sym("fa", 3); fb = (int64_t)dse_sym("fb", 2); }
    E a = k_leaf(k1, 0, fa), b = k_leaf(k2, 1, fb);
    // a predicate carries the flight id of the subscription it is in: mixed ones use one id
    E b1 = k_leaf(k2, 1, fa);
    n = 6;
    e[0] = a; fid[0] = fa;
    e[1] = b; fid[1] = fb;
    e[2] = e_and(a, b1); fid[2] = fa;
    e[3] = e_or(e_not(a), e_and(b1, e_leaf("j >= -2", kh_j & (kv_j >= -2)))); fid[3] = fa;
    e[4] = e_and(e_leaf("i <= 1", kh_i & (kv_i <= 1)), e_leaf("s in (\"a\", \"b\")", kh_s & ((kv_s == 'a') | (kv_s == 'b')))); fid[4] = 0;
    e[5] = e_not(b); fid[5] = fb;
    if(mode == 1) { // existence: sets of subscriptions of which none may match
        E low = e[4];
        switch(k1 % 3) {
            case 0: n = 3; e[1] = e[2]; fid[1] = fa; e[2] = low; fid[2] = 0; break;
            case 1: n = 4; e[2] = b; fid[2] = fb; e[3] = a; fid[3] = fa; break;
            default: n = 3; e[0] = e_not(a); e[1] = e_and(e_not(a), b1); fid[1] = fa; e[2] = e_and(low, b1); fid[2] = fa; break;
        }
    }
    struct betree* t = make(cfg);
    int in[6] = {1, 1, 1, 1, 1, 1}, perm[6];
    for(int i = 0; i < 6; i++) perm[i] = ord == 0 || n < 6 ? i : ord == 1 ? 5 - i : (i * 5 + ord) % 6;
    int two = mode == 3;
    if(mode == 5) { // searches between insertions
        const char* ev = k_event();
        for(int i = 0; i < 6; i++) in[i] = 0;
        for(int i = 0; i < 6; i++) {
            dse_assert(put(t, perm[i], 0), "a valid expression is inserted"); in[perm[i]] = 1;
            if(i == 0 || i == 2 || i == 5) {
                struct report* r = make_report();
                dse_assert(betree_search(t, ev, r), "a valid event is searched");
                exact(r, in);
                free_report(r);
                // an unrelated event with strings never seen, then the same one again
                r = make_report();
                betree_search(t, "{\"s\": \"zz\", \"u\": \"yy\", \"e\": 17, \"sl\": [\"a\", \"q\"], \"b\": false, \"i\": -3}", r);
                free_report(r);
                (void)betree_exists(t, "{\"s\": \"b\", \"f\": 0.5, \"il\": [7, 1, 1]}");
                r = make_report();
                dse_assert(betree_search(t, ev, r), "a valid event is searched");
                exact(r, in);
                free_report(r);
            }
        }
        dse_cover(1);
        betree_free(t);
        return;
    }
    if(two && (ord & 2)) { // all prepared first, then inserted in another order, some others inserted at once in between
        const struct betree_sub* s[6];
        for(int i = 0; i < n; i++) {
            int k = perm[i]; s[k] = NULL;
            if(k == (k1 + k2) % 6) continue;
            const struct betree_constant* c[2];
            int m = k_consts(c, fid[k]);
            s[k] = betree_make_sub(t, ids[k], (size_t)m, c, dse_text(e[k].t));
            betree_free_constants((size_t)m, (struct betree_constant**)c);
            dse_assert(s[k] != NULL, "a valid expression is prepared");
            if(i == 3) dse_assert(betree_make_sub(t, 5, 0, NULL, "i = 1 and zz") == NULL, "an unknown attribute is refused");
        }
        for(int i = 0; i < n; i++) {
            int k = (perm[n - 1 - i] + k1) % 6;
            dse_assert(s[k] ? betree_insert_sub(t, s[k]) : put(t, k, 0), "a valid expression is inserted");
        }
    } else
    for(int i = 0; i < n; i++) dse_assert(put(t, perm[i], two), "a valid expression is inserted");
    if(mode == 0 || mode == 3) {
        struct report* r = make_report();
        if((ord & 1) ^ (mode == 3)) {
            struct betree_event* ev = k_event_api(t, ord * 3);
            dse_assert(betree_search_with_event(t, ev, r), "a valid event is searched");
            betree_free_event(ev);
        } else dse_assert(betree_search(t, k_event(), r), "a valid event is searched");
        exact(r, in);
        free_report(r);
    } else if(mode == 1) {
        const char* ev = k_event();
        struct report* r = make_report();
        dse_assert(betree_search(t, ev, r), "a valid event is searched");
        exact(r, in);
        bool ex = betree_exists(t, ev);
        dse_assert(ex == (r->matched > 0), "existence agrees with search");
        struct betree_event* e2 = k_event_api(t, ord * 5);
        dse_assert(betree_exists_with_event(t, e2) == ex, "existence with a built event agrees");
        betree_free_event(e2);
        struct report* r2 = make_report();
        e2 = k_event_api(t, ord);
        dse_assert(betree_search_with_event(t, e2, r2), "a valid event is searched");
        exact(r2, in);
        // the same event object may be used again
        struct report* r3 = make_report();
        dse_assert(betree_search_with_event(t, e2, r3), "a valid event is searched");
        exact(r3, in);
        betree_free_event(e2);
        free_report(r); free_report(r2); free_report(r3);
    } else if(mode == 2) {
        struct report* r = make_report();
        dse_assert(betree_search(t, k_event(), r), "a valid event is searched");
        exact(r, in);
        int want = 0;
        for(int i = 0; i < n; i++) want += e[i].v;
        dse_assert(r->matched == (size_t)want, "the match count is the number of matches");
        dse_assert(r->evaluated >= r->matched && r->evaluated <= (size_t)n, "evaluated lies between matched and inserted");
        dse_assert(r->shorted <= r->evaluated, "no more subscriptions shortcut than evaluated");
        struct report* r2 = make_report();
        struct betree_event* e2 = k_event_api(t, ord);
        dse_assert(betree_search_with_event(t, e2, r2), "a valid event is searched");
        betree_free_event(e2);
        dse_assert(r->evaluated == r2->evaluated && r->shorted == r2->shorted && r->memoized == r2->memoized && r->matched == r2->matched, "counts do not depend on attribute order or earlier searches");
        free_report(r); free_report(r2);
    }
    dse_cover(1);
    betree_free(t);
}

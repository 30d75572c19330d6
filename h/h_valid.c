// C11: events with mandatory attributes missing, null or present.
// param 0: mask of mandatory attributes, 1: rotation of the types, 2: text event or built event, 3: tree
#include "common.h"
static const char* nm[] = {"a0", "a1", "a2", "a3"};
static int ty[4], mand[4], st[4]; // st: 0 missing, 1 null, 2 present
static int64_t c0, v0;
static int hold(int i) { return ty[i] == 1 ? v0 <= c0 : ty[i] == 4 ? v0 == c0 : ty[i] == 8 ? v0 != c0 : 1; }
static const char* pred[] = {"@", "@ <= $0", "@ > 0.5", "@ = \"x\"", "$0 in @", "\"x\" in @", "@ is not null", "@ is not null", "@ <> $0"};
static const char* val[] = {"true", "$1", "1.5", "\"x\"", "[$1]", "[\"x\", \"y\"]", "[[1, 5]]", "[[\"flight\", 1, \"n\", 2, 3]]", "$1"};
static char* fill(char* b, const char* f, const char* name)
{
    char* d = b;
    for(; *f; f++) if(*f == '@') { strcpy(d, name); d += strlen(name); } else *d++ = *f;
    *d = 0;
    return b;
}
static struct betree_variable* build(int i)
{
    switch(ty[i]) {
        case 0: return betree_make_boolean_variable(nm[i], true);
        case 1: case 8: return betree_make_integer_variable(nm[i], v0);
        case 2: return betree_make_float_variable(nm[i], 1.5);
        case 3: return betree_make_string_variable(nm[i], "x");
        case 4: { struct betree_integer_list* l = betree_make_integer_list(1); betree_add_integer(l, 0, v0); return betree_make_integer_list_variable(nm[i], l); }
        case 5: { struct betree_string_list* l = betree_make_string_list(2); betree_add_string(l, 0, "x"); betree_add_string(l, 1, "y"); return betree_make_string_list_variable(nm[i], l); }
        case 6: { struct betree_segments* s = betree_make_segments(1); betree_add_segment(s, 0, betree_make_segment(1, 5)); return betree_make_segments_variable(nm[i], s); }
        default: { struct betree_frequency_caps* c = betree_make_frequency_caps(1); betree_add_frequency_cap(c, 0, betree_make_frequency_cap("flight", 1, "n", true, 3, 2)); return betree_make_frequency_caps_variable(nm[i], c); }
    }
}
static void look(const struct betree* t, const char* text, struct betree_event* ev, int ok, int n, const int* want)
{
    struct report* r = make_report();
    bool got = ev ? betree_search_with_event(t, ev, r) : betree_search(t, text, r);
    dse_observe(got);
    dse_assert(got == ok, "a search succeeds exactly when every mandatory attribute is present");
    if(!ok) {
        dse_assert(r->matched == 0, "a refused search reports nothing");
        free_report(r);
    } else {
        int g[12];
        count_subs(r, n, g);
        for(int i = 0; i < n; i++) { dse_observe((u64)g[i]); dse_assert(g[i] == want[i], "a valid event is searched exactly"); }
        free_report(r);
    }
}
void harness(void)
{
    int mask = (int)dse_param(0), rot = (int)dse_param(1), api = (int)dse_param(2), cfg = (int)dse_param(3);
    c0 = dse_int("c", 5); v0 = dse_int("v", 5);
    dse_bind(0, c0); dse_bind(1, v0);
    struct betree* t = cfg == 0 ? betree_make() : betree_make_with_parameters(1, 0);
    int empty = cfg == 2;
    for(int i = 0; i < 4; i++) {
        static const int step[] = {0, 2, 4, 7};
        ty[i] = (rot + step[i]) % 9;
        mand[i] = mask >> i & 1;
        bool u = !mand[i];
        switch(ty[i]) {
            case 0: betree_add_boolean_variable(t, nm[i], u); break;
            case 1: betree_add_integer_variable(t, nm[i], u, -16, 15); break;
            case 2: betree_add_float_variable(t, nm[i], u, -4., 3.); break;
            case 3: betree_add_string_variable(t, nm[i], u, 4); break;
            case 4: betree_add_integer_list_variable(t, nm[i], u, -16, 15); break;
            case 5: betree_add_string_list_variable(t, nm[i], u, 4); break;
            case 6: betree_add_segments_variable(t, nm[i], u); break;
            case 7: betree_add_frequency_caps_variable(t, nm[i], u); break;
            default: betree_add_integer_enum_variable(t, nm[i], u, 10); break;
        }
    }
    char x[80];
    E e[9]; int n = 0, want[9], in[9];
    for(int i = 0; i < 4; i++) st[i] = api ? 2 * dse_choice("st", 2) : dse_choice("st", 3);
    int ok = 1;
    for(int i = 0; i < 4; i++) ok &= !mand[i] | (st[i] == 2);
    for(int i = 0; i < 4; i++) { e[n++] = e_leaf(fill(x, pred[ty[i]], nm[i]), (st[i] == 2) & hold(i)); }
    for(int i = 0; i < 4; i++) { e[n] = e_not(e[i]); n++; }
    e[n] = e_or(e_and(e[0], e[3]), e_and(e[1], e_not(e[2]))); n++;
    if(empty) n = 0;
    for(int i = 0; i < n; i++) {
        int k = cfg ? i : (i * 4 + 2) % 9;
        dse_assert(betree_insert(t, (u64)k + 1, dse_text(e[k].t)), "a valid expression is inserted");
    }
    for(int i = 0; i < n; i++) { in[i] = 1; want[i] = e[i].v; }
    (void)in;
    int some = 0;
    for(int i = 0; i < n; i++) some |= want[i];
    for(int twice = 0; twice < 2; twice++) {
        // the event of this run, then one with everything present
        if(twice) { ok = 1; for(int i = 0; i < 4; i++) st[i] = 2;
            for(int i = 0; i < 4 && n; i++) { want[i] = hold(i); want[i + 4] = !hold(i); }
            if(n) want[8] = (hold(0) & hold(3)) | (hold(1) & !hold(2));
            some = 0; for(int i = 0; i < n; i++) some |= want[i]; }
        if(api) {
            for(int ex = 0; ex < 2; ex++) {
                struct betree_event* ev = betree_make_event(t);
                size_t at = 0;
                for(int q = 0; q < 4; q++) { int i = (q * 3 + rot) % 4; if(st[i] == 2) betree_set_variable(ev, rot & 1 ? (size_t)i : at, build(i)), at++; }
                if(!ex) look(t, NULL, ev, ok, n, want);
                else dse_assert(betree_exists_with_event(t, ev) == (ok & some), "an existence query treats a refused event as matching nothing");
                betree_free_event(ev);
            }
        } else {
            J j; j_init(&j);
            for(int q = 0; q < 4; q++) {
                int i = (q * 3 + rot) % 4;
                char y[120] = "\"";
                cat(y, nm[i]); cat(y, "\": "); cat(y, st[i] == 1 ? "null" : val[ty[i]]);
                if(st[i]) j_add(&j, y);
            }
            const char* s = j_end(&j);
            look(t, s, NULL, ok, n, want);
            dse_assert(betree_exists(t, s) == (ok & some), "an existence query treats a refused event as matching nothing");
        }
    }
    dse_cover(1);
    betree_free(t);
}

// C24: strings and enum values are compared by content within their attribute.
// param 0: 0 strings, 1 enums, 2 cap namespaces, 3 many words; 1: insertion order (number of words); 2: bounded; 3: earlier event
#include "common.h"
static void symstr(char* d, const char* n, int max)
{
    int l = dse_choice(n, (unsigned)max + 1);
    for(int i = 0; i < l; i++) { d[i] = (char)dse_sym("c", 8); dse_assume(d[i] != 0); }
    d[l] = 0;
}
static int same(const char* a, const char* b)
{
    size_t n = strlen(a); if(n != strlen(b)) return 0;
    int r = 1;
    for(size_t i = 0; i < n; i++) r &= a[i] == b[i];
    return r;
}
static const char* pool[] = {"ab", "a", "b", "", "A"};
static char* put(const char* f, const char* const* s)
{
    static char b[8][100]; static int k;
    char* o = b[k++ & 7]; char* r = o;
    for(; *f; f++) if(*f == '@') { const char* x = s[*++f - '0']; while(*x) *o++ = *x++; } else *o++ = *f;
    *o = 0;
    return r;
}
static void go(struct betree* t, E* e, int n, struct betree_event* ev, int ord)
{
    int want[12];
    for(int i = 0; i < n; i++) {
        int k = ord == 0 ? i : ord == 1 ? n - 1 - i : (i * 5 + ord) % n;
        dse_assert(betree_insert(t, (u64)k + 1, dse_text(e[k].t)), "a valid expression is inserted");
        want[k] = e[k].v;
    }
    struct report* r = make_report();
    dse_assert(betree_search_with_event(t, ev, r), "a valid event is searched");
    int got[12];
    count_subs(r, n, got);
    for(int i = 0; i < n; i++) { dse_observe((u64)got[i]); dse_assert(got[i] == want[i], "strings and enum values are compared by content"); }
    free_report(r);
    betree_free_event(ev);
    dse_cover(1);
    betree_free(t);
}
static void strings(void)
{
    int ord = (int)dse_param(1), which = (int)dse_param(4);
    size_t bound = dse_param(2) ? 5 : SIZE_MAX;
    struct betree* t = dse_param(2) ? betree_make_with_parameters(1, 0) : betree_make();
    betree_add_string_variable(t, "s", true, bound);
    betree_add_string_variable(t, "u", true, bound);
    betree_add_string_list_variable(t, "sl", true, bound);
    betree_add_string_list_variable(t, "tl", true, bound);
    const char* c[3];
    for(int i = 0; i < 3; i++) c[i] = pool[dse_choice("const", 5)];
    if(dse_param(3)) { // strings first met in events
        struct report* r = make_report();
        betree_search(t, "{\"s\": \"b\", \"u\": \"zz\", \"sl\": [\"A\", \"q\"], \"tl\": [\"\", \"ab\"]}", r);
        free_report(r);
        dse_assert(betree_insert(t, 12, "u in ('b', 'x') and 'b' in sl and s <> 'A' and false"), "inserted");
    }
    char v[3][3] = {"q", "a", "zz"};
    symstr(v[which % 3], "len", 2);
    E e[9];
#define L(k, f, w) e[k] = e_leaf(put(f, c), w)
    int sA = same(v[0], c[0]), sB = same(v[0], c[1]), sC = same(v[0], c[2]), uA = same(v[1], c[0]), uB = same(v[1], c[1]);
    int lA = same(v[2], c[0]) | same(v[1], c[0]), lB = same(v[2], c[1]) | same(v[1], c[1]), tA = same(v[0], c[0]), tB = same(v[0], c[1]);
    L(0, "s = \"@0\"", sA);
    L(1, "u = \"@0\"", uA);
    L(2, "s <> '@1' and u <> \"@1\"", !sB & !uB);
    L(3, "s in (\"@1\", \"@2\")", sB | sC);
    L(4, "sl one of (\"@0\", \"@1\")", lA | lB);
    L(5, "\"@1\" in tl", tB);
    L(6, "\"@0\" not in sl or 'a' in sl", !lA | same(v[2], "a") | same(v[1], "a"));
    L(7, "tl all of (\"@0\")", tA);
    L(8, "u not in (\"@2\", '@1')", !uB & !same(v[1], c[2]));
    // the event: sl = [v2, v1], tl = [v0]
    struct betree_event* ev = betree_make_event(t);
    struct betree_string_list* l = betree_make_string_list(2);
    betree_add_string(l, 0, v[2]); betree_add_string(l, 1, v[1]);
    struct betree_string_list* m = betree_make_string_list(1);
    betree_add_string(m, 0, v[0]);
    betree_set_variable(ev, 0, betree_make_string_list_variable("sl", l));
    betree_set_variable(ev, 1, betree_make_string_variable("u", v[1]));
    betree_set_variable(ev, 2, betree_make_string_list_variable("tl", m));
    betree_set_variable(ev, 3, betree_make_string_variable("s", v[0]));
    go(t, e, 9, ev, ord);
}
static void enums(void)
{
    int ord = (int)dse_param(1);
    size_t bound = dse_param(2) ? 4 : SIZE_MAX;
    struct betree* t = dse_param(2) ? betree_make_with_parameters(1, 0) : betree_make();
    betree_add_integer_enum_variable(t, "e", true, bound);
    betree_add_integer_enum_variable(t, "g", true, bound);
    int64_t a = dse_int("a", 48), b = dse_int("b", 48), x = dse_int("x", 48), y = dse_int("y", 48);
    dse_bind(0, a); dse_bind(1, b); dse_bind(10, x); dse_bind(11, y);
    if(dse_param(3)) {
        (void)betree_exists(t, "{\"e\": 3, \"g\": 1}");
        dse_assert(betree_insert(t, 12, "e = 0 and g = 1 and false"), "inserted");
    }
    E e[7] = {e_leaf("e = $0", x == a), e_leaf("g = $0", y == a), e_leaf("e = $1 or g = $1", (x == b) | (y == b)), e_leaf("e <> $1", x != b), e_leaf("not (g <> $1)", y == b), e_leaf("g = 1", y == 1), e_leaf("e <> 0", x != 0)};
    struct betree_event* ev = betree_make_event(t);
    betree_set_variable(ev, 0, betree_make_integer_variable("g", y));
    betree_set_variable(ev, 1, betree_make_integer_variable("e", x));
    go(t, e, 7, ev, ord);
}
static void namespaces(void)
{
    int ord = (int)dse_param(1);
    struct betree* t = betree_make();
    betree_add_frequency_caps_variable(t, "frequency_caps", true);
    betree_add_integer_variable(t, "now", true, INT64_MIN, INT64_MAX);
    betree_add_string_variable(t, "s", true, 6);
    const char* c[2] = {pool[dse_choice("c", 5)], pool[dse_choice("c", 5)]};
    char v[3]; symstr(v, "len", 2);
    int id = dse_choice("id", 2);
    // one cap in the event, over its limit
    E e[5];
    L(0, "within_frequency_cap(\"flight\", \"@0\", 3, 0)", !(id & same(v, c[0])));
    L(1, "within_frequency_cap(\"flight\", \"@1\", 3, 0)", !(id & same(v, c[1])));
    L(2, "not within_frequency_cap(\"flight\", \"@0\", 3, 0)", id & same(v, c[0]));
    L(3, "s = \"@0\" and within_frequency_cap(\"flight\", 'k', 3, 0)", 0);
    L(4, "s <> \"@1\" or within_frequency_cap(\"flight\", \"@1\", 3, 0)", 1);
    struct betree_event* ev = betree_make_event(t);
    struct betree_frequency_caps* f = betree_make_frequency_caps(1);
    betree_add_frequency_cap(f, 0, betree_make_frequency_cap("flight", id ? 7 : 8, v, true, 0, 5));
    betree_set_variable(ev, 0, betree_make_frequency_caps_variable("frequency_caps", f));
    betree_set_variable(ev, 1, betree_make_integer_variable("now", 10));
    betree_set_variable(ev, 2, betree_make_string_variable("s", "ab!"));
    const struct betree_constant* k[1] = {betree_make_integer_constant("flight_id", 7)};
    int want[5];
    for(int i = 0; i < 5; i++) {
        int q = ord == 1 ? 4 - i : (i + ord) % 5;
        dse_assert(betree_insert_with_constants(t, (u64)q + 1, 1, k, e[q].t), "inserted");
        want[q] = e[q].v;
    }
    betree_free_constants(1, (struct betree_constant**)k);
    struct report* r = make_report();
    dse_assert(betree_search_with_event(t, ev, r), "a valid event is searched");
    int got[5];
    count_subs(r, 5, got);
    for(int i = 0; i < 5; i++) { dse_observe((u64)got[i]); dse_assert(got[i] == want[i], "namespaces are compared by content"); }
    free_report(r);
    betree_free_event(ev);
    dse_cover(1);
    betree_free(t);
}
// many different strings: the tables grow while they are filled
static void word(char* d, int k) { d[0] = (char)('a' + k % 5); d[1] = (char)('A' + k / 5 % 26); d[2] = k >= 130 ? (char)('a' + k / 130) : k % 3 ? 'x' : 0; d[3] = 0; }
static void many(void)
{
    int n = (int)dse_param(1), bounded = (int)dse_param(2), early = (int)dse_param(3);
    struct betree* t = betree_make();
    size_t bound = bounded ? (size_t)n : SIZE_MAX;
    betree_add_string_variable(t, "s", true, bound);
    betree_add_string_variable(t, "u", true, bound);
    betree_add_string_list_variable(t, "sl", true, bound);
    betree_add_integer_enum_variable(t, "e", true, bound);
    static const int some[] = {0, 3, 127, 128, 255, 256, 257, 260};
    int k = n > 100 ? some[dse_choice("word", 8)] : dse_choice("word", (unsigned)n + 3), m = (k * 7 + 3) % n;
    char v[4], w[4];
    word(v, k); word(w, m);
    int64_t x = dse_int("e", n > 100 ? 11 : 8); dse_bind(10, x);
    char ev[120] = "{\"s\": \"";
    cat(ev, v); cat(ev, "\", \"u\": \""); cat(ev, w); cat(ev, "\", \"sl\": [\""); cat(ev, w); cat(ev, "\", \""); cat(ev, v); cat(ev, "\"], \"e\": $a}");
    if(early) (void)betree_exists(t, dse_text(ev));
    int want[400];
    for(int i = 0; i < n; i++) {
        char a[4], b[4], q[200] = "s = \"";
        int o = n - 1 - i;
        word(a, i); word(b, o);
        cat(q, a); cat(q, "\" or u = '"); cat(q, b); cat(q, "' or '"); cat(q, a); cat(q, "' in sl and e = $0");
        dse_bind(0, i * 3);
        dse_assert(betree_insert(t, (u64)i + 1, dse_text(q)), "a valid expression is inserted");
        want[i] = (k == i) | (m == o) | (((m == i) | (k == i)) & (x == i * 3));
    }
    check_exact(t, dse_text(ev), n, want);
    betree_free(t);
    dse_cover(1);
}
void harness(void)
{
    switch(dse_param(0)) { case 0: strings(); break; case 1: enums(); break; case 3: many(); break; default: namespaces(); }
}

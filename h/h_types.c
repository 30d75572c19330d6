// C03 for the non-integer attribute types: booleans, strings, integer enums, floats, integer
// lists and string lists.  param 0: type, 1: expression shape, 2: position of the subscription
// under test among the fillers, 3/4: kind of the first/second leaf (-1 any), 5: float bits
#include "common.h"
enum { TBOOL, TSTR, TENUM, TFLOAT, TILIST, TSLIST };
static int T, has;
static int64_t iv, iw, ca, cb;      // event values, constants
static char sv[2], sw[2], sa[2], sb[2];
static double fv, fc, fd;
static int nlist;
static int nkinds(void) { static const int n[] = {4, 8, 5, 9, 9, 9}; return n[T]; }
static void put(char* d, const char* f, const char* s, const char* s2)
{   // ? is replaced by s, ! by s2
    char* o = d;
    for(; *f; f++) *o++ = *f == '?' ? s[0] : *f == '!' ? s2[0] : *f;
    *o = 0;
}
static int inl(int64_t c) { return ((nlist > 0) & (iv == c)) | ((nlist > 1) & (iw == c)); }
static int ins(const char* c) { return ((nlist > 0) & (sv[0] == c[0])) | ((nlist > 1) & (sw[0] == c[0])); }
static E leaf(int kind, int k)
{
    char t[80];
    int64_t c = k ? cb : ca;
    const char* s = k ? sb : sa;
    const char* s2 = k ? sa : sb;
    int64_t c2 = k ? ca : cb;
    double f = k ? fd : fc;
    char S = (char)('0' + k), S2 = (char)('0' + !k);
    if(kind == 0) return e_leaf("x is null", !has);
    if(kind == 1) return e_leaf("x is not null", has);
    if(kind == 2) return e_leaf("y >= 0", 1);
    kind -= 3;
    switch(T) {
        case TBOOL: return e_leaf("x", has & (int)iv);
        case TSTR:
            if(kind == 0) { put(t, "x = \"?\"", s, s2); return e_leaf(t, has & (sv[0] == s[0])); }
            if(kind == 1) { put(t, "x <> \"?\"", s, s2); return e_leaf(t, has & (sv[0] != s[0])); }
            if(kind == 2) { put(t, "x in (\"?\", \"!\")", s, s2); return e_leaf(t, has & ((sv[0] == s[0]) | (sv[0] == s2[0]))); }
            if(kind == 3) { put(t, "x not in (\"?\", \"!\")", s, s2); return e_leaf(t, has & (sv[0] != s[0]) & (sv[0] != s2[0])); }
            put(t, "contains(x, \"?\")", s, s2); return e_leaf(t, has & (sv[0] == s[0]));
        case TENUM:
            strcpy(t, kind == 0 ? "x = $0" : "x <> $0"); t[strlen(t) - 1] = S;
            return e_leaf(t, has & (kind == 0 ? iv == c : iv != c));
        case TFLOAT: {
            static const char* ops[] = {"x < #0", "x <= #0", "x > #0", "x >= #0", "x = #0", "x <> #0"};
            strcpy(t, ops[kind]); t[strlen(t) - 1] = S;
            double d = fv - f; if(d < 0) d = -d;
            int eq = d < 2.2204460492503131e-16;
            return e_leaf(t, has & (kind == 0 ? fv < f : kind == 1 ? fv <= f : kind == 2 ? fv > f : kind == 3 ? fv >= f : kind == 4 ? eq : !eq));
        }
        case TILIST: {
            if(kind == 0) return e_leaf("x is empty", has & (nlist == 0));
            static const char* fm[] = {"x one of ($0, $1)", "x none of ($0, $1)", "x all of ($0, $1)", "$0 in x", "$0 not in x"};
            strcpy(t, fm[kind - 1]);
            for(char* p = t; *p; p++) if(*p == '0') *p = S; else if(*p == '1') *p = S2;
            int one = inl(c) | inl(c2), all = inl(c) & inl(c2), in = inl(c);
            return e_leaf(t, has & (kind == 1 ? one : kind == 2 ? !one : kind == 3 ? all : kind == 4 ? in : !in));
        }
        default: {
            if(kind == 0) return e_leaf("x is empty", has & (nlist == 0));
            static const char* fm[] = {"x one of (\"?\", \"!\")", "x none of (\"?\", \"!\")", "x all of (\"?\", \"!\")", "\"?\" in x", "\"?\" not in x"};
            put(t, fm[kind - 1], s, s2);
            int one = ins(s) | ins(s2), all = ins(s) & ins(s2), in = ins(s);
            return e_leaf(t, has & (kind == 1 ? one : kind == 2 ? !one : kind == 3 ? all : kind == 4 ? in : !in));
        }
    }
}
static E shape(int s, E l, E r)
{
    switch(s) {
        case 0: return l;
        case 1: return e_not(l);
        case 2: return e_and(l, r);
        case 3: return e_or(l, r);
        case 4: return e_not(e_and(l, r));
        case 5: return e_not(e_or(l, r));
        case 6: return e_not(e_and(e_not(l), r));
        case 7: return e_or(e_not(l), r);
        default: return e_not(e_or(l, e_not(r)));
    }
}
static void letter(char* d, const char* nm, int n)
{
    unsigned v = (unsigned)dse_sym(nm, 3);
    dse_assume(v < (unsigned)n);
    d[0] = (char)('a' + dse_concrete(v)); d[1] = 0;
}
void harness(void)
{
    T = (int)dse_param(0);
    int s = (int)dse_param(1), pos = (int)dse_param(2), k1 = (int)dse_param(3), kq = (int)dse_param(4);
    unsigned fb = (unsigned)dse_param(5);
    struct betree* t = betree_make_with_parameters(1, 0);
    has = dse_choice("has", 2);
    J j; j_init(&j); j_add(&j, "\"y\": 1");
    char ev[80];
    const char* fill[4] = {0}; int fw[4] = {0};
    int kk = k1 < 0 ? dse_choice("k1", (unsigned)nkinds()) : k1;
    int k2 = s < 2 ? 0 : kq >= 0 ? kq : dse_choice("k2", (unsigned)nkinds());
    switch(T) {
        case TBOOL:
            betree_add_boolean_variable(t, "x", true);
            iv = dse_choice("v", 2);
            if(has) j_add(&j, iv ? "\"x\": true" : "\"x\": false");
            fill[0] = "x"; fill[1] = "not x"; fill[2] = "x or y < 0"; fill[3] = "not x";
            fw[0] = has & (int)iv; fw[1] = !fw[0]; fw[2] = fw[0]; fw[3] = fw[1];
            break;
        case TSTR:
            betree_add_string_variable(t, "x", true, 5);
            letter(sa, "ca", 4); letter(sb, "cb", 4);
            if(has) { letter(sv, "v", 6); put(ev, "\"x\": \"?\"", sv, sv); j_add(&j, ev); }
            fill[0] = "x = \"a\""; fill[1] = "x = \"b\""; fill[2] = "x in (\"c\", \"d\")"; fill[3] = "x = \"d\"";
            fw[0] = has & (sv[0] == 'a'); fw[1] = has & (sv[0] == 'b'); fw[2] = has & ((sv[0] == 'c') | (sv[0] == 'd')); fw[3] = has & (sv[0] == 'd');
            break;
        case TENUM:
            betree_add_integer_enum_variable(t, "x", true, 6);
            iv = dse_int("v", 4); ca = dse_int("a", 4); cb = dse_int("b", 4);
            dse_bind(0, ca); dse_bind(1, cb); dse_bind(10, iv);
            if(has) j_add(&j, "\"x\": $a");
            fill[0] = "x = 1"; fill[1] = "x = 2"; fill[2] = "x = 3"; fill[3] = "x <> 3";
            fw[0] = has & (iv == 1); fw[1] = has & (iv == 2); fw[2] = has & (iv == 3); fw[3] = has & (iv != 3);
            break;
        case TFLOAT:
            betree_add_float_variable(t, "x", true, -2., 8.);
            fv = dse_sym_double_hi("v", fb); fc = dse_sym_double_hi("a", fb); fd = dse_sym_double_hi("b", fb);
            dse_assume((fv >= -9.) & (fv <= 9.)); dse_assume((fc >= -9.) & (fc <= 9.)); dse_assume((fd >= -9.) & (fd <= 9.));
            dse_bindf(0, fc); dse_bindf(1, fd); dse_bindf(2, fv);
            if(has) j_add(&j, "\"x\": #2");
            fill[0] = "x <= -1.5"; fill[1] = "x > 7.0"; fill[2] = "x < 1.0"; fill[3] = "x >= 2.5 and x <= 2.75";
            fw[0] = has & (fv <= -1.5); fw[1] = has & (fv > 7.); fw[2] = has & (fv < 1.); fw[3] = has & (fv >= 2.5) & (fv <= 2.75);
            break;
        case TILIST:
            betree_add_integer_list_variable(t, "x", true, 0, 9);
            nlist = dse_choice("n", 3);
            iv = dse_int("v", 5); iw = dse_int("w", 5); ca = dse_int("a", 5); cb = dse_int("b", 5);
            dse_bind(0, ca); dse_bind(1, cb); dse_bind(10, iv); dse_bind(11, iw);
            if(has) j_add(&j, nlist == 0 ? "\"x\": []" : nlist == 1 ? "\"x\": [$a]" : "\"x\": [$a, $b]");
            fill[0] = "x one of (1, 2)"; fill[1] = "x one of (8, 9)"; fill[2] = "x all of (1, 3)"; fill[3] = "2 in x";
            fw[0] = has & (inl(1) | inl(2)); fw[1] = has & (inl(8) | inl(9)); fw[2] = has & inl(1) & inl(3); fw[3] = has & inl(2);
            break;
        default:
            betree_add_string_list_variable(t, "x", true, 5);
            nlist = dse_choice("n", 3);
            letter(sa, "ca", 4); letter(sb, "cb", 4);
            if(has && nlist > 0) letter(sv, "v", 6);
            if(has && nlist > 1) letter(sw, "w", 6);
            put(ev, nlist == 0 ? "\"x\": []" : nlist == 1 ? "\"x\": [\"?\"]" : "\"x\": [\"?\", \"!\"]", sv, sw);
            if(has) j_add(&j, ev);
            fill[0] = "x one of (\"a\", \"b\")"; fill[1] = "x one of (\"c\", \"d\")"; fill[2] = "x all of (\"a\", \"c\")"; fill[3] = "\"b\" in x";
            fw[0] = has & (ins("a") | ins("b")); fw[1] = has & (ins("c") | ins("d")); fw[2] = has & ins("a") & ins("c"); fw[3] = has & ins("b");
            break;
    }
    betree_add_integer_variable(t, "y", true, 0, 1000000);
    E e = shape(s, leaf(kk, 0), s < 2 ? leaf(0, 1) : leaf(k2, 1));
    int want[8], n = 0;
    for(int i = 0; i < 5; i++) {
        if(i == pos) {
            dse_assert(betree_insert(t, (betree_sub_t)(n + 1), dse_text(e.t)), "insert");
            want[n++] = e.v;
        }
        if(i == 4) break;
        dse_assert(betree_insert(t, (betree_sub_t)(n + 1), fill[i]), "insert");
        want[n++] = fw[i];
    }
    check_exact(t, j_end(&j), n, want);
    dse_cover(1);
    betree_free(t);
}

// C01: many subscriptions matching one event.
// param 0: number, 1: tree parameters, 2: mix
#include "common.h"
void harness(void)
{
    int n = (int)dse_param(0), cfg = (int)dse_param(1), mix = (int)dse_param(2);
    static const int cap[] = {1, 2, 3, 20}, part[] = {0, 1, 0, 0};
    struct betree* t = betree_make_with_parameters((u64)cap[cfg], (u64)part[cfg]);
    betree_add_integer_variable(t, "i", true, 0, 63);
    betree_add_integer_variable(t, "j", true, 0, 7);
    betree_add_string_variable(t, "s", true, 10);
    betree_add_boolean_variable(t, "b", true);
    int64_t i = dse_int("i", 8), j = 0;
    int b = mix == 2 ? dse_choice("b", 2) : 1, h = mix ? dse_choice("has", 2) : 1;
    if(mix == 1) { j = dse_int("j", 4); }
    char s = mix == 2 ? (char)('a' + dse_choice("s", 3)) : 'a';
    dse_bind(10, i); dse_bind(11, j);
    int want[400];
    for(int k = 0; k < n; k++) {
        char q[120] = "";
        int p = mix == 0 ? k % 2 : mix == 1 ? 2 + k % 3 : 5 + k % 4, w = 1;
        dse_bind(0, k);
        switch(p) {
            case 0: strcpy(q, "i >= $0"); w = h & (i >= k); break;
            case 1: strcpy(q, "not (i > $0)"); w = !(h & (i > k)); break;
            case 2: dse_bind(0, k % 6); strcpy(q, "j <= $0"); w = j <= k % 6; break;
            case 3: strcpy(q, "i <> 70 and j > -5"); w = h & (i != 70) & (j > -5); break;
            case 4: dse_bind(0, k % 5); strcpy(q, "i > 3 or j = $0"); w = (h & (i > 3)) | (j == k % 5); break;
            case 5: strcpy(q, "b and i < 60"); w = b & h & (i < 60); break;
            case 6: strcpy(q, "s = \"a\""); w = s == 'a'; break;
            case 7: strcpy(q, "s in (\"a\", \"b\") or not b"); w = (s == 'a') | (s == 'b') | !b; break;
            default: strcpy(q, "i in (1, 2, 3) or s <> \"c\""); w = (h & (i >= 1) & (i <= 3)) | (s != 'c'); break;
        }
        want[k] = w & 1;
        dse_assert(betree_insert(t, (u64)k + 1, dse_text(q)), "a valid expression is inserted");
    }
    J e; j_init(&e);
    if(h) j_add(&e, "\"i\": $a");
    j_add(&e, "\"j\": $b");
    char x[] = "\"s\": \"?\""; x[6] = s; j_add(&e, x);
    j_add(&e, b ? "\"b\": true" : "\"b\": false");
    check_exact(t, j_end(&e), n, want);
    dse_cover(1);
    betree_free(t);
}

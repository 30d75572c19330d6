// C16: copies of expressions and expression equality.
// param 0: 0 copies, 1 equality; 1: kind; 2: shape (copies) or second class flag (equality)
#include "kinds.h"
#include "ast.h"
#include "clone.h"
#include "tree.h"
static E wrap(int f, E a, E d)
{
    switch(f) {
        case 0: return a;
        case 1: return e_not(a);
        case 2: return e_and(a, d);
        case 3: return e_and(d, a);
        case 4: return e_or(a, d);
        default: return e_or(e_not(d), e_and(a, e_leaf("j > -3", kh_j & (kv_j > -3))));
    }
}
static struct betree_sub* prepare(struct betree* t, u64 id, const char* text, int64_t flight)
{
    const struct betree_constant* c[2];
    int m = k_consts(c, flight);
    const struct betree_sub* s = betree_make_sub(t, id, (size_t)m, c, text);
    betree_free_constants((size_t)m, (struct betree_constant**)c);
    dse_assert(s != NULL, "a valid expression is prepared");
    return (struct betree_sub*)s;
}
static void copies(void)
{
    int k = (int)dse_param(1), f = (int)dse_param(2);
    u64 live = dse_live_allocs();
    struct betree* t = betree_make_with_parameters(5, 0);
    k_schema(t);
    k_inputs(4);
    k_choose(k, 39);
    int64_t fa = k_uses(k, 12) ? (int64_t)dse_sym("fa", 3) : 3;
    E d = e_leaf("d", kh_d & kv_d), e[3];
    e[0] = wrap(f, k_leaf(k, 0, fa), d); e[1] = e[0]; e[2] = e_not(e[0]);
    struct betree_sub* s = prepare(t, 1, dse_text(e[0].t), fa);
    struct ast_node* c = clone_node(s->expr);
    struct ast_node* c2 = clone_node(c);
    dse_assert(c != s->expr && c2 != c, "a copy is another object");
    dse_assert(eq_expr(s->expr, s->expr), "an expression equals itself");
    dse_assert(eq_expr(s->expr, c) && eq_expr(c, s->expr), "a copy equals the original");
    dse_assert(eq_expr(s->expr, c2) && eq_expr(c2, c), "a copy of a copy equals the original");
    // the copies take the place of the originals, which the tree's predicate table still knows
    const struct ast_node* o1 = s->expr;
    s->expr = c;
    dse_assert(betree_insert_sub(t, s), "inserted");
    struct betree_sub* s2 = prepare(t, 2, dse_text(e[1].t), fa);
    dse_assert(eq_expr(c2, s2->expr) && eq_expr(s2->expr, c2), "a copy equals the same text prepared again");
    const struct ast_node* o2 = s2->expr;
    s2->expr = c2;
    dse_assert(betree_insert_sub(t, s2), "inserted");
    dse_assert(k_insert(t, 3, dse_text(e[2].t), fa), "inserted");
    int want[3] = {e[0].v, e[1].v, e[2].v};
    check_exact(t, k_event(), 3, want);
    dse_cover(1);
    betree_free(t);
    // nothing is shared: the originals are still there and can be freed on their own
    dse_assert(eq_expr(o1, o2), "the originals outlive their copies");
    free_ast_node((struct ast_node*)o1); free_ast_node((struct ast_node*)o2);
    dse_assert(dse_live_allocs() == live, "copies and originals are released completely");
}
static void equality(void)
{
    int k1 = (int)dse_param(1);
    // kinds that say something about the same attribute, and a few others
    int pool[KIND_N], np = 0;
    for(int k = k1; k < KIND_N; k++) {
        int sh = 0;
        for(int g = 0; g < 14; g++) sh |= k_uses(k1, g) && k_uses(k, g);
        if(dse_param(2) ? !sh && (k + k1) % 7 == 0 : sh || k == k1) pool[np++] = k;
    }
    if(np == 0) { dse_cover(1); return; }
    int k2 = pool[dse_choice("k2", (unsigned)np)];
    struct betree* t = betree_make_with_parameters(5, 0);
    k_schema(t);
    k_inputs(4);
    k_choose(k1, k2);
    int64_t fa = 3, fb = 3;
    if(k_uses(k1, 12) || k_uses(k2, 12)) { fa = (int64_t)dse_sym("fa", 3); fb = (int64_t)dse_sym("fb", 3); }
    E d = e_leaf("d", kh_d & kv_d), a, b;
    int f = dse_choice("shape", 6), g = (f + (int)dse_concrete((u64)dse_choice("step", 2)) * (1 + k1 % 5)) % 6;
    a = wrap(f, k_leaf(k1, 0, fa), d); b = wrap(g, k_leaf(k2, 1, fb), d);
    kh_d = kv_d = 1;
    struct betree_sub* s1 = prepare(t, 1, dse_text(a.t), fa);
    struct betree_sub* s2 = prepare(t, 2, dse_text(b.t), fb);
    int q = eq_expr(s1->expr, s2->expr);
    dse_observe((u64)q);
    dse_assert(q == eq_expr(s2->expr, s1->expr), "equality is symmetric");
    if(q) dse_assert(a.v == b.v, "equal expressions have the same result on every event");
    dse_assert(eq_expr(s1->expr, s1->expr) && eq_expr(s2->expr, s2->expr), "equality is reflexive");
    if(q) { // equal also under negation
        struct betree_sub* s3 = prepare(t, 3, dse_text(e_not(a).t), fa);
        dse_assert(!eq_expr(s3->expr, s2->expr), "a negation does not equal what it negates");
        free_sub(s3);
    }
    free_sub(s1); free_sub(s2);
    dse_cover(1);
    betree_free(t);
}
void harness(void) { if(dse_param(0)) equality(); else copies(); }

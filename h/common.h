// Shared by the harnesses: an expression under construction carries its text and the truth
// value the documentation gives it on the event at hand (computed without branching, so one
// solver query decides it).
#pragma once
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include "betree.h"
#include "dse.h"
typedef uint64_t u64;
typedef struct { char t[700]; int v; } E;
static void cat(char* d, const char* s) { strcpy(d + strlen(d), s); }
static E e_leaf(const char* t, int v) { E e; strcpy(e.t, t); e.v = v & 1; return e; }
static void e_par(char* d, const E* a) { cat(d, "("); cat(d, a->t); cat(d, ")"); }
static E e_not(E a) { E e; strcpy(e.t, "not "); e_par(e.t, &a); e.v = 1 ^ a.v; return e; }
static E e_and(E a, E b) { E e; e.t[0] = 0; e_par(e.t, &a); cat(e.t, " and "); e_par(e.t, &b); e.v = a.v & b.v; return e; }
static E e_or(E a, E b) { E e; e.t[0] = 0; e_par(e.t, &a); cat(e.t, " or "); e_par(e.t, &b); e.v = a.v | b.v; return e; }
// JSON event under construction
typedef struct { char t[2000]; int n; } J;
static void j_init(J* j) { strcpy(j->t, "{"); j->n = 0; }
static void j_add(J* j, const char* kv) { if(j->n++) cat(j->t, ", "); cat(j->t, kv); }
static const char* j_end(J* j) { cat(j->t, "}"); return dse_text(j->t); }
// number of times each id of 1..n is reported; anything else is a failure
static void count_subs(const struct report* r, int n, int* got)
{
    for(int i = 0; i < n; i++) got[i] = 0;
    for(size_t i = 0; i < r->matched; i++) {
        u64 id = r->subs[i];
        dse_assert(id >= 1 && id <= (u64)n, "a reported id was never inserted");
        got[id - 1]++;
    }
}
static void check_exact(const struct betree* t, const char* event, int n, const int* want)
{
    struct report* r = make_report();
    dse_assert(betree_search(t, event, r), "a valid event is searched");
    int got[700];
    count_subs(r, n, got);
    for(int i = 0; i < n; i++) {
        dse_observe((u64)got[i]);
        dse_assert(got[i] == want[i], "a subscription is reported once when its expression is true and not at all otherwise");
    }
    free_report(r);
}

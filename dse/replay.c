// Native side of dse.h: inputs come from a file (name=value lines), asserts are checked
// on the real compiled code.
#include "dse.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static struct { char n[64]; unsigned long long v; int used; } in[512];
static int nin;
static long par[32];
static FILE* obs;
static int want_obs;
static char used[1024][64];
static int nused;
static unsigned long long lookup(const char* base)
{
    char nm[80];
    snprintf(nm, sizeof nm, "%s", base);
    int k = 0;
    for(int again = 1; again;) {
        again = 0;
        for(int i = 0; i < nused; i++) if(!strcmp(used[i], nm)) { snprintf(nm, sizeof nm, "%s_%d", base, ++k); again = 1; break; }
    }
    snprintf(used[nused++], 64, "%s", nm);
    for(int i = 0; i < nin; i++) if(!strcmp(in[i].n, nm)) return in[i].v;
    return 0;
}
uint64_t dse_sym(const char* n, unsigned bits) { uint64_t v = lookup(n); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint64_t dse_sym_signed(const char* n, unsigned bits) { uint64_t v = dse_sym(n, bits); return bits >= 64 ? v : (uint64_t)((int64_t)(v << (64 - bits)) >> (64 - bits)); }
double dse_sym_double(const char* n) { uint64_t v = lookup(n); double d; memcpy(&d, &v, 8); return d; }
double dse_sym_double_hi(const char* n, unsigned bits) { uint64_t v = lookup(n) << (64 - bits); double d; memcpy(&d, &v, 8); return d; }
void dse_assume(int c) { if(!c) { fprintf(stderr, "REPLAY-ASSUME-FALSE\n"); fflush(0); _Exit(77); } }
void dse_fail(const char* m) { fprintf(stderr, "REPLAY-VIOLATION %s\n", m); fflush(0); _Exit(1); }
void dse_assert(int c, const char* m) { if(!c) dse_fail(m); }
void dse_cover(int k) { (void)k; }
void dse_observe(uint64_t v) { if(want_obs) { printf("#%llu\n", (unsigned long long)v); } }
long dse_param(int k) { return par[k]; }
uint64_t dse_concrete(uint64_t v) { return v; }
int dse_is_replay(void) { return 1; }
int dse_is_symbolic(uint64_t v) { (void)v; return 0; }
void dse_log(const char* s, uint64_t v) { fprintf(stderr, "[log] %s %llu\n", s, (unsigned long long)v); }
int64_t dse_islot[36];
double dse_fslot[10];
void dse_bind(int k, int64_t v) { dse_islot[k] = v; }
void dse_bindf(int k, double v) { dse_fslot[k] = v; }
char* dse_text(const char* f)
{
    static char buf[16][16384];
    static int k;
    char* b = buf[k++ % 16];
    char* o = b;
    for(; *f; f++) {
        if(*f == '$' || *f == '#') {
            int fl = *f == '#';
            f++;
            int v = *f >= 'a' ? *f - 'a' + 10 : *f - '0';
            if(!fl) o += sprintf(o, "%lld", (long long)dse_islot[v]);
            else {
                char t[1600];
                snprintf(t, sizeof t, "%.1100f", dse_fslot[v]);
                size_t n = strlen(t);
                while(n > 2 && t[n - 1] == '0' && t[n - 2] != '.') t[--n] = 0;
                o += sprintf(o, "%s", t);
            }
        } else *o++ = *f;
    }
    *o = 0;
    return b;
}
// live allocation count: replay is linked with -Wl,--wrap=malloc,...
#ifdef WRAPMALLOC
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
static uint64_t live;
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if(p) live++; return p; }
void* __wrap_calloc(size_t n, size_t m) { void* p = __real_calloc(n, m); if(p) live++; return p; }
void* __wrap_realloc(void* q, size_t n) { if(q && n == 0) { __real_free(q); live--; return 0; } void* p = __real_realloc(q, n); if(!q && p) live++; return p; }
void __wrap_free(void* p) { if(p) live--; __real_free(p); }
uint64_t dse_live_allocs(void) { return live; }
#else
uint64_t dse_live_allocs(void) { return 0; }
#endif
extern void HARNESS(void);
int main(int argc, char** argv)
{
    for(int i = 2; i < argc; i++) {
        if(!strcmp(argv[i], "--obs")) want_obs = 1;
        else { char* e = strchr(argv[i], '='); if(e) par[atoi(argv[i])] = atol(e + 1); }
    }
    FILE* f = argc > 1 ? fopen(argv[1], "r") : 0;
    char line[256];
    while(f && fgets(line, sizeof line, f)) {
        char* e = strchr(line, '=');
        if(!e || line[0] == '#') continue;
        *e = 0;
        snprintf(in[nin].n, 64, "%s", line);
        in[nin++].v = strtoull(e + 1, 0, 10);
    }
    if(f) fclose(f);
    (void)obs;
    HARNESS();
    fflush(stdout);
    fprintf(stderr, "REPLAY-OK\n");
    return 0;
}

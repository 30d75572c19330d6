// libc functions as plain C, executed symbolically together with the code under test.
#include "dse.h"
typedef unsigned char uc;
void* malloc(size_t);
void* memcpy(void*, const void*, size_t);
double dse_raw_strtod(const char*);
size_t strlen(const char* s) { size_t n = 0; while(s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while(n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while(*a && *a == *b) { a++; b++; } return (int)(uc)*a - (int)(uc)*b; }
int strncmp(const char* a, const char* b, size_t n) { while(n && *a && *a == *b) { a++; b++; n--; } return n ? (int)(uc)*a - (int)(uc)*b : 0; }
int tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
int strcasecmp(const char* a, const char* b) { while(*a && tolower((uc)*a) == tolower((uc)*b)) { a++; b++; } return tolower((uc)*a) - tolower((uc)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { while(n && *a && tolower((uc)*a) == tolower((uc)*b)) { a++; b++; n--; } return n ? tolower((uc)*a) - tolower((uc)*b) : 0; }
int memcmp(const void* x, const void* y, size_t n) { const uc* a = x; const uc* b = y; for(size_t i = 0; i < n; i++) if(a[i] != b[i]) return (int)a[i] - (int)b[i]; return 0; }
void* memchr(const void* x, int c, size_t n) { const uc* a = x; for(size_t i = 0; i < n; i++) if(a[i] == (uc)c) return (void*)(a + i); return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while((*d++ = *s++)) ; return r; }
char* stpcpy(char* d, const char* s) { while((*d = *s)) { d++; s++; } return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for(; i < n && s[i]; i++) d[i] = s[i]; for(; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strchr(const char* s, int c) { for(;; s++) { if(*s == (char)c) return (char*)s; if(!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for(;; s++) { if(*s == (char)c) r = s; if(!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); if(!l) return (char*)h; for(; *h; h++) if(!strncmp(h, n, l)) return (char*)h; return 0; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* d = malloc(n); memcpy(d, s, n); return d; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* d = malloc(n + 1); memcpy(d, s, n); d[n] = 0; return d; }
char* strncat(char* d, const char* s, size_t n) { size_t l = strlen(d), i = 0; for(; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
void* memmem(const void* h, size_t hl, const void* n, size_t nl) { const uc* p = h; if(!nl) return (void*)p; for(size_t i = 0; i + nl <= hl; i++) if(!memcmp(p + i, n, nl)) return (void*)(p + i); return 0; }
char* strpbrk(const char* s, const char* a);
static int inset(char c, const char* set) { for(; *set; set++) if(*set == c) return 1; return 0; }
char* strpbrk(const char* s, const char* a) { for(; *s; s++) if(inset(*s, a)) return (char*)s; return 0; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while(s[n] && inset(s[n], a)) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while(s[n] && !inset(s[n], a)) n++; return n; }
char* strtok_r(char* s, const char* d, char** save)
{
    if(!s) s = *save;
    s += strspn(s, d);
    if(!*s) { *save = s; return 0; }
    char* e = s + strcspn(s, d);
    if(*e) *e++ = 0;
    *save = e;
    return s;
}
char* strtok(char* s, const char* d) { static char* save; return strtok_r(s, d, &save); }
char* strsep(char** sp, const char* d)
{
    char* s = *sp;
    if(!s) return 0;
    char* e = s + strcspn(s, d);
    if(*e) { *e++ = 0; *sp = e; } else *sp = 0;
    return s;
}
void qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*))
{
    char* b = base;
    char tmp[256];
    for(size_t i = 1; i < n; i++)
        for(size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--) {
            memcpy(tmp, b + j * sz, sz);
            memcpy(b + j * sz, b + (j - 1) * sz, sz);
            memcpy(b + (j - 1) * sz, tmp, sz);
        }
}
void* bsearch(const void* k, const void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*))
{
    size_t lo = 0, hi = n;
    while(lo < hi) {
        size_t m = lo + (hi - lo) / 2;
        const char* p = (const char*)base + m * sz;
        int c = cmp(k, p);
        if(c == 0) return (void*)p;
        if(c < 0) hi = m; else lo = m + 1;
    }
    return 0;
}
// ---- numbers; literals 7100000KK stand for the symbolic slot KK
int64_t dse_islot[36];
double dse_fslot[10];
void dse_bind(int k, int64_t v) { dse_islot[k] = v; }
void dse_bindf(int k, double v) { dse_fslot[k] = v; }
int* __errno_location(void) { static int e; return &e; }
static uint64_t umag(const char** ps, int* neg, int* over)
{
    const char* s = *ps;
    while(isspace((uc)*s)) s++;
    *neg = 0; *over = 0;
    if(*s == '-') { *neg = 1; s++; } else if(*s == '+') s++;
    uint64_t v = 0;
    while(isdigit((uc)*s)) {
        uint64_t d = (uint64_t)(*s - '0');
        if(v > (0xffffffffffffffffull - d) / 10) *over = 1; else v = v * 10 + d;
        s++;
    }
    *ps = s;
    return v;
}
long long strtoll(const char* s, char** end, int base)
{
    (void)base;
    int neg, over;
    uint64_t v = umag(&s, &neg, &over);
    if(end) *end = (char*)s;
    if(!over && v >= 7100000000ull && v < 7100000036ull) return neg ? -dse_islot[v - 7100000000ull] : dse_islot[v - 7100000000ull];
    if(over || v > 0x7fffffffffffffffull + (uint64_t)neg) { *__errno_location() = 34; return neg ? INT64_MIN : INT64_MAX; }
    return neg ? (long long)(0 - v) : (long long)v;
}
long strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b)
{
    (void)b;
    int neg, over;
    uint64_t v = umag(&s, &neg, &over);
    if(e) *e = (char*)s;
    if(!over && v >= 7100000000ull && v < 7100000036ull) return (uint64_t)dse_islot[v - 7100000000ull];
    if(over) { *__errno_location() = 34; return UINT64_MAX; }
    return neg ? 0 - v : v;
}
unsigned long strtoul(const char* s, char** e, int b) { return strtoull(s, e, b); }
int atoi(const char* s) { return (int)strtoll(s, 0, 10); }
long atol(const char* s) { return strtoll(s, 0, 10); }
long long atoll(const char* s) { return strtoll(s, 0, 10); }
double strtod(const char* s, char** end)
{
    const char* p = s;
    int neg, over;
    uint64_t v = umag(&p, &neg, &over);
    if(!over && v >= 7200000000ull && v < 7200000010ull) { if(end) *end = (char*)p; return neg ? -dse_fslot[v - 7200000000ull] : dse_fslot[v - 7200000000ull]; }
    if(!over && v >= 7100000000ull && v < 7100000036ull) { if(end) *end = (char*)p; return neg ? -(double)dse_islot[v - 7100000000ull] : (double)dse_islot[v - 7100000000ull]; }
    if(end) { p = s + strspn(s, " "); if(*p == '-' || *p == '+') p++; while(isdigit((uc)*p) || *p == '.') p++; *end = (char*)p; }
    return dse_raw_strtod(s);
}
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
double atof(const char* s) { return strtod(s, 0); }
char* dse_text(const char* f)
{
    static char buf[16][4096];
    static int k;
    char* b = buf[k++ % 16];
    char* o = b;
    for(; *f; f++) {
        if(*f == '$' || *f == '#') {
            const char* p = *f == '$' ? "71000000" : "72000000";
            int fl = *f == '#';
            while(*p) *o++ = *p++;
            f++;
            int v = *f >= 'a' ? *f - 'a' + 10 : *f - '0';
            *o++ = (char)('0' + v / 10); *o++ = (char)('0' + v % 10);
            if(fl) { *o++ = '.'; *o++ = '0'; }
        } else *o++ = *f;
    }
    *o = 0;
    return b;
}

double nextafter(double x, double y)
{
    union { double d; uint64_t u; } a;
    if(x != x || y != y) return x + y;
    if(x == y) return y;
    a.d = x;
    if(x == 0.) { a.u = y > 0. ? 1 : 0x8000000000000001ull; return a.d; }
    if((x < y) == (x > 0.)) a.u++; else a.u--;
    return a.d;
}

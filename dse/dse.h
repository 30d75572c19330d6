// Harness API.  The same harness source is (a) executed symbolically by the engine and
// (b) compiled natively with /repo/src (replay.c) to replay a solver model.
#pragma once
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
uint64_t dse_sym(const char* name, unsigned bits);   // unsigned value of `bits` bits
uint64_t dse_sym_signed(const char* name, unsigned bits); // the same, sign-extended
double dse_sym_double(const char* name);
double dse_sym_double_hi(const char* name, unsigned bits); // top bits symbolic, rest zero
void dse_assume(int c);
void dse_assert(int c, const char* msg);
void dse_fail(const char* msg);
void dse_cover(int k);
void dse_observe(uint64_t v);
long dse_param(int k);
uint64_t dse_live_allocs(void);
uint64_t dse_concrete(uint64_t v);                   // fork over the feasible values
int dse_is_replay(void);
int dse_is_symbolic(uint64_t v);
void dse_log(const char* s, uint64_t v);
// ---- text with symbolic literals: $0..$9 / $a..$z integers, #0..#9 floats
extern int64_t dse_islot[36];
extern double dse_fslot[10];
void dse_bind(int k, int64_t v);
void dse_bindf(int k, double v);
char* dse_text(const char* fmt);                      // valid until the next 8 calls
static inline int64_t dse_int(const char* name, unsigned bits) { return (int64_t)dse_sym_signed(name, bits); }
static inline int dse_choice(const char* name, unsigned n)
{
    unsigned bits = 1;
    while((1u << bits) < n) bits++;
    uint64_t v = dse_sym(name, bits);
    dse_assume(v < n);
    return (int)dse_concrete(v);
}

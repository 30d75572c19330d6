// dse: a small symbolic executor for LLVM IR.  Every two-way branch whose condition is
// symbolic is put to Z3; both feasible sides are explored (depth first, by undoing memory
// and solver state; idle cores take over the oldest open branch by fork()).
//
// Memory lives in a fixed arena; symbolic bytes are kept beside it.  See
// /verif/DESIGN.md, "The engine".
#include <cmath>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <z3.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <semaphore.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <math.h>
#include <stdarg.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <atomic>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <set>
#include <algorithm>

using namespace llvm;
typedef uint64_t u64;

// ---------------------------------------------------------------- shared statistics
static const int MAXF = 4096, MAXV = 64, MAXCOV = 256, NSAMP = 64;
struct Viol { char kind[40]; char msg[400]; char where[400]; char inputs[6000]; };
struct Shared {
  std::atomic<u64> paths, paths_assumed_away, queries, q_sat, q_unsat, q_unknown, solver_us, solver_max_us,
      forks, instrs, asserts_symbolic, asserts_concrete, asserts_const_after_eval, branches_symbolic, core_hits,
      concretisations, allocs, max_depth;
  std::atomic<int> stop, deadline_hit, engine_error, nviol, incomplete, nsamples, live;
  std::atomic<u64> sample_seq;
  sem_t tok;
  char engine_msg[400];
  char incomplete_msg[400];
  Viol v[MAXV];
  std::atomic<unsigned char> fexec[MAXF], fsym[MAXF];
  std::atomic<u64> cover[MAXCOV];
  char sample[NSAMP][4000];
};
static Shared *S;
static double t_start;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double opt_deadline = 600;
static u64 opt_maxsteps = 40000000;
static int opt_procs = 8, opt_enum = 300, opt_keepgoing = 0;
static int opt_sat = 0, opt_fpfork = 0;
static u64 opt_rlimit = 60000000;
static long params[32];

static int path_depth = 0;
static u64 steps = 0, executed = 0, my_queries = 0;
struct PathEnd {};
struct Resume {};
static void finish() __attribute__((noreturn));
static void finish() { throw PathEnd(); }           // this path is over
static void died(int st) {
  if (WIFSIGNALED(st)) { S->engine_error = 1; snprintf(S->engine_msg, 400, "path process killed by signal %d", WTERMSIG(st)); }
}
static void real_finish() __attribute__((noreturn)); // this process is over
static void real_finish() {
  S->instrs += executed;
  sem_post(&S->tok);
  for (;;) {
    int st; pid_t p = waitpid(-1, &st, 0);
    if (p < 0) { if (errno == EINTR) continue; break; }
    died(st);
  }
  _exit(0);
}
static void engine_fail(const char *f, ...) __attribute__((noreturn));
static void engine_fail(const char *f, ...) {
  char b[400]; va_list a; va_start(a, f); vsnprintf(b, 400, f, a); va_end(a);
  if (!S->engine_error.exchange(1)) { memcpy(S->engine_msg, b, 400); }
  S->stop = 1;
  real_finish();
}
static void set_incomplete(const char *why) { if (!S->incomplete.fetch_add(1)) snprintf(S->incomplete_msg, 400, "%s", why); }
// fork; true in the child.  par: the caller holds a token for the child; otherwise the parent
// waits for the child before it goes on.
static bool do_fork(bool par) {
  S->forks++;
  int st; pid_t p;
  while ((p = waitpid(-1, &st, WNOHANG)) > 0) died(st);
  p = fork();
  if (p < 0) { if (par) sem_post(&S->tok); engine_fail("fork failed"); }
  if (p == 0) { executed = 0; my_queries = 0; return true; }
  if (!par) {
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    died(st); if (WIFSIGNALED(st)) sem_post(&S->tok);
    while (sem_wait(&S->tok) < 0 && errno == EINTR) ;
  }
  return false;
}

// ---------------------------------------------------------------- Z3
static Z3_context Z;
static Z3_params SIMPP;
static Z3_solver SOL;
static Z3_model MOD; // satisfies the path condition
static Z3_sort FP64, FP32, BOOL;
static Z3_ast RNE, RTZ;
static std::unordered_map<unsigned, Z3_sort> bvsorts;
static Z3_sort bvs(unsigned w) { auto &s = bvsorts[w]; if (!s) s = Z3_mk_bv_sort(Z, w); return s; }
struct Input { std::string name; int bits; Z3_ast e; bool fp; };
static std::vector<Input> inputs;
static std::vector<Z3_ast> PC;
static std::unordered_map<Z3_ast, bool> known;
static std::vector<Z3_ast> knownlog;
static void setknown(Z3_ast c, bool v) { if (known.emplace(c, v).second) knownlog.push_back(c); }
static void setmod(Z3_model m);
static void zerr(Z3_context c, Z3_error_code e) { engine_fail("z3 error: %s", Z3_get_error_msg(c, e)); }

static void newsolver();
static void zinit() {
  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context(cfg);
  Z3_set_error_handler(Z, zerr);
  SIMPP = Z3_mk_params(Z); Z3_params_inc_ref(Z, SIMPP);
  Z3_params_set_bool(Z, SIMPP, Z3_mk_string_symbol(Z, "elim_sign_ext"), false);
  newsolver();
  FP64 = Z3_mk_fpa_sort_double(Z); FP32 = Z3_mk_fpa_sort_single(Z); BOOL = Z3_mk_bool_sort(Z);
  RNE = Z3_mk_fpa_rne(Z); RTZ = Z3_mk_fpa_rtz(Z);
  if (Z3_solver_check(Z, SOL) != Z3_L_TRUE) engine_fail("z3 initial check");
  MOD = Z3_solver_get_model(Z, SOL); Z3_model_inc_ref(Z, MOD);
}
static bool isfpsort(Z3_ast a) { return Z3_get_sort_kind(Z, Z3_get_sort(Z, a)) == Z3_FLOATING_POINT_SORT; }
static bool isboolsort(Z3_ast a) { return Z3_get_sort_kind(Z, Z3_get_sort(Z, a)) == Z3_BOOL_SORT; }

static Z3_ast simp(Z3_ast a) { return Z3_simplify_ex(Z, a, SIMPP); }
static Z3_ast bvnum(u64 v, unsigned w) { return Z3_mk_unsigned_int64(Z, v, bvs(w)); }

static bool numval(Z3_ast a, u64 &out) { // numeral bv / bool / fp -> bits
  Z3_lbool b;
  if (isboolsort(a)) { b = Z3_get_bool_value(Z, a); if (b == Z3_L_UNDEF) return false; out = b == Z3_L_TRUE; return true; }
  if (isfpsort(a)) {
    if (!Z3_is_numeral_ast(Z, a)) return false;
    if (Z3_fpa_is_numeral_nan(Z, a)) { out = 0x7ff8000000000000ull; return true; }
    Z3_ast b2 = simp(Z3_mk_fpa_to_ieee_bv(Z, a));
    if (Z3_get_ast_kind(Z, b2) != Z3_NUMERAL_AST) return false;
    return Z3_get_numeral_uint64(Z, b2, &out);
  }
  if (Z3_get_ast_kind(Z, a) != Z3_NUMERAL_AST) return false;
  return Z3_get_numeral_uint64(Z, a, &out);
}
static void setmod(Z3_model m) { if (m == MOD) return; Z3_model_dec_ref(Z, MOD); MOD = m; }
static u64 meval(Z3_model m, Z3_ast e) {
  Z3_ast r;
  if (!Z3_model_eval(Z, m, e, true, &r)) engine_fail("model eval failed");
  u64 v;
  if (numval(r, v)) return v;
  r = simp(r);
  if (numval(r, v)) return v;
  engine_fail("model eval not numeral: %s", Z3_ast_to_string(Z, r));
}
static void dump_inputs(Z3_model m, char *buf, size_t n) {
  size_t o = 0; buf[0] = 0;
  for (auto &i : inputs) {
    u64 v = meval(m, i.e);
    int k = snprintf(buf + o, n - o, "%s=%llu\n", i.name.c_str(), (unsigned long long)v);
    if (k < 0 || o + k >= n) break;
    o += k;
  }
}
// Each condition x in use has a literal l(x) with l(x) => x asserted; a query passes the
// literals of the path condition and of c as assumptions.  When the answer is unsat the core
// (which conditions contradict c) is kept: a later path that contains the core needs no query.
static std::unordered_map<Z3_ast, Z3_ast> lits;
static std::unordered_map<Z3_ast, Z3_ast> oflit;
static unsigned litid = 0;
static std::unordered_map<Z3_ast, unsigned> inpc;
static std::unordered_map<Z3_ast, std::vector<std::vector<Z3_ast>>> cores;
static void newsolver() {
  if (SOL) Z3_solver_dec_ref(Z, SOL);
  SOL = opt_sat ? Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")) : Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, SOL);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)opt_rlimit);
  Z3_solver_set_params(Z, SOL, p); Z3_params_dec_ref(Z, p);
}
static Z3_ast lit(Z3_ast c) {
  Z3_ast &p = lits[c];
  if (!p) { char b[32]; snprintf(b, 32, "!l%u", litid++); p = Z3_mk_const(Z, Z3_mk_string_symbol(Z, b), BOOL); oflit[p] = c; }
  return p;
}
static std::vector<Z3_ast> pclits;
// check pc /\ c ; model returned in *m when sat
static std::string where();
static Z3_lbool query(Z3_ast c, Z3_model *m) {
  auto cc = cores.find(c);
  if (cc != cores.end()) for (auto &k : cc->second) {
    bool all = true;
    for (auto x : k) { auto i = inpc.find(x); if (i == inpc.end() || !i->second) { all = false; break; } }
    if (all) { S->core_hits++; return Z3_L_FALSE; }
  }
  double t0 = now();
  S->queries++; my_queries++;
  Z3_solver_push(Z, SOL);
  Z3_ast l = lit(c);
  Z3_solver_assert(Z, SOL, Z3_mk_implies(Z, l, c));
  pclits.push_back(l);
  Z3_lbool r = Z3_solver_check_assumptions(Z, SOL, pclits.size(), pclits.data());
  pclits.pop_back();
  if (r == Z3_L_TRUE) { *m = Z3_solver_get_model(Z, SOL); Z3_model_inc_ref(Z, *m); }
  else if (r == Z3_L_FALSE) {
    Z3_ast_vector v = Z3_solver_get_unsat_core(Z, SOL); Z3_ast_vector_inc_ref(Z, v);
    std::vector<Z3_ast> k;
    for (unsigned i = 0; i < Z3_ast_vector_size(Z, v); i++) { Z3_ast x = oflit.at(Z3_ast_vector_get(Z, v, i)); if (x != c) k.push_back(x); }
    Z3_ast_vector_dec_ref(Z, v);
    auto &cl = cores[c]; if (cl.size() < 64) cl.push_back(k);
  } else {
    // second opinion: a fresh, non-incremental solver
    Z3_solver s2 = Z3_mk_solver(Z); Z3_solver_inc_ref(Z, s2);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)(opt_rlimit > 1000000000u ? 4000000000u : opt_rlimit * 4));
    Z3_solver_set_params(Z, s2, p);
    for (auto a : PC) Z3_solver_assert(Z, s2, a);
    Z3_solver_assert(Z, s2, c);
    r = Z3_solver_check(Z, s2);
    if (r == Z3_L_TRUE) { *m = Z3_solver_get_model(Z, s2); Z3_model_inc_ref(Z, *m); }
    Z3_params_dec_ref(Z, p); Z3_solver_dec_ref(Z, s2);
  }
  Z3_solver_pop(Z, SOL, 1);
  u64 us = (u64)((now() - t0) * 1e6);
  S->solver_us += us;
  static const char *slow = getenv("DSE_SLOW");
  if (slow && us > strtoull(slow, nullptr, 10)) { fprintf(stderr, "SLOW %llu r=%d pc=%zu %s\n", (unsigned long long)us, (int)r, PC.size(), where().c_str()); if (getenv("DSE_SLOWX")) fprintf(stderr, "  %.3000s\n", Z3_ast_to_string(Z, c)), [] { if (getenv("DSE_SLOWPC")) for (auto a : PC) fprintf(stderr, "  PC %.1500s\n", Z3_ast_to_string(Z, a)); }(); }
  u64 mx = S->solver_max_us; while (us > mx && !S->solver_max_us.compare_exchange_weak(mx, us)) ;
  if (r == Z3_L_TRUE) S->q_sat++; else if (r == Z3_L_FALSE) S->q_unsat++; else { S->q_unknown++; set_incomplete("solver returned unknown"); }
  return r;
}
static void assert_pc(Z3_ast c) { Z3_ast l = lit(c); Z3_solver_assert(Z, SOL, Z3_mk_implies(Z, l, c)); pclits.push_back(l); PC.push_back(c); inpc[c]++; setknown(c, true); }

static void check_stop() {
  if (S->stop) finish();
  if (now() - t_start > opt_deadline) { S->deadline_hit = 1; S->stop = 1; finish(); }
}
static bool branch_other(Z3_ast c, bool side, Z3_ast other, Z3_model m2);
// decide a symbolic condition; both sides are explored when both are feasible
static bool decide(Z3_ast c) {
  c = simp(c);
  u64 v;
  if (numval(c, v)) return v;
  auto k = known.find(c); if (k != known.end()) return k->second;
  check_stop();
  S->branches_symbolic++;
  bool side = meval(MOD, c);
  Z3_ast nc = Z3_mk_not(Z, c);
  Z3_ast mine = side ? c : nc, other = side ? nc : c;
  Z3_model m2 = nullptr;
  Z3_lbool r = query(other, &m2);
  if (r == Z3_L_FALSE) { setknown(c, side); return side; }
  if (r == Z3_L_UNDEF) { assert_pc(mine); setknown(c, side); return side; }
  if (branch_other(c, side, other, m2)) { setmod(m2); assert_pc(other); setknown(c, !side); return !side; }
  assert_pc(mine); setknown(c, side);
  return side;
}

// ---------------------------------------------------------------- memory
static const u64 ARENA = 0x10000000000ull, ASIZE = 1ull << 30, SHADOW = 0x20000000000ull, FUNCB = 0x30000000000ull;
static const u64 GLOB0 = ARENA + 4096, HEAP0 = ARENA + (64ull << 20), STACK0 = ARENA + (704ull << 20);
enum { INVALID = 0, CONC = 1, SYM = 2, FREED = 3, UNINIT = 4 };
static u64 gtop = GLOB0, htop = HEAP0, stop_ = STACK0;
static inline unsigned char *sh(u64 a) { return (unsigned char *)(a - ARENA + SHADOW); }
struct SB { Z3_ast e; uint8_t idx, n; };
static const u64 SYMB = 0x40000000000ull, EPOCH = 0x50000000000ull;
static inline SB &symb(u64 a) { return *(SB *)((a - ARENA) * sizeof(SB) + SYMB); }
struct Alloc { u64 a, size; bool live; const Instruction *site; };
static std::vector<Alloc> allocs; // by address
static std::vector<size_t> freed; // indices into allocs
static u64 live_allocs = 0;
static Alloc *find_alloc(u64 p) {
  auto it = std::lower_bound(allocs.begin(), allocs.end(), p, [](const Alloc &x, u64 q) { return x.a < q; });
  return it != allocs.end() && it->a == p ? &*it : nullptr;
}
// undo log: the first write to a 64-byte line after a checkpoint saves the line
struct Line { u64 a; unsigned char d[64], s[64]; size_t nsym; };
static std::vector<Line> undo;
static std::vector<SB> undosym;
static uint32_t cur_epoch = 0, last_epoch = 0;
static void save_line(u64 l) {
  Line x; x.a = l; x.nsym = 0;
  memcpy(x.d, (void *)l, 64); memcpy(x.s, sh(l), 64);
  if (memchr(x.s, SYM, 64)) for (int i = 0; i < 64; i++) if (x.s[i] == SYM) { undosym.push_back(symb(l + i)); x.nsym++; }
  undo.push_back(x);
}
static inline void touch(u64 a, u64 n) {
  if (!cur_epoch || !n) return;
  for (u64 l = a & ~63ull; l < a + n; l += 64) {
    uint32_t &e = *(uint32_t *)(EPOCH + (l - ARENA) / 16);
    if (e != cur_epoch) { e = cur_epoch; save_line(l); }
  }
}
static void rewind_memory(size_t n) {
  while (undo.size() > n) {
    Line &x = undo.back();
    memcpy((void *)x.a, x.d, 64); memcpy(sh(x.a), x.s, 64);
    if (x.nsym) { size_t k = undosym.size() - x.nsym, j = k; for (int i = 0; i < 64; i++) if (x.s[i] == SYM) symb(x.a + i) = undosym[j++]; undosym.resize(k); }
    undo.pop_back();
  }
}

struct Val { u64 c = 0; Z3_ast e = nullptr; Val *agg = nullptr; uint8_t u = 0; }; // u: which bytes are uninitialised
static Val C(u64 c) { Val v; v.c = c; return v; }
static u64 mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static int64_t sx(u64 v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
// the IEEE bits of a floating-point term, when it is built from bits without rounding
static std::unordered_map<Z3_ast, Z3_ast> bitsc;
static std::vector<Z3_ast> bitskeep;
static Z3_ast bitsof(Z3_ast e, bool d) {
  auto it = bitsc.find(e); if (it != bitsc.end()) return it->second;
  unsigned w = d ? 64 : 32; Z3_ast r = nullptr;
  if (Z3_is_numeral_ast(Z, e)) { Z3_ast b = simp(Z3_mk_fpa_to_ieee_bv(Z, e)); if (Z3_is_numeral_ast(Z, b)) r = b; }
  else if (Z3_get_ast_kind(Z, e) == Z3_APP_AST) {
    Z3_app ap = Z3_to_app(Z, e); Z3_decl_kind k = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)); unsigned n = Z3_get_app_num_args(Z, ap);
    Z3_sort bw = bvs(w);
    if (k == Z3_OP_FPA_TO_FP && n == 1 && Z3_get_sort(Z, Z3_get_app_arg(Z, ap, 0)) == bw) r = Z3_get_app_arg(Z, ap, 0);
    else if (k == Z3_OP_FPA_FP && n == 3) r = simp(Z3_mk_concat(Z, Z3_get_app_arg(Z, ap, 0), Z3_mk_concat(Z, Z3_get_app_arg(Z, ap, 1), Z3_get_app_arg(Z, ap, 2))));
    else if (k == Z3_OP_FPA_NUM) { Z3_ast b = simp(Z3_mk_fpa_to_ieee_bv(Z, e)); if (Z3_is_numeral_ast(Z, b)) r = b; }
    else if (k == Z3_OP_FPA_PLUS_ZERO) r = bvnum(0, w);
    else if (k == Z3_OP_FPA_MINUS_ZERO) r = bvnum(1ull << (w - 1), w);
    else if (k == Z3_OP_ITE) { Z3_ast a = bitsof(Z3_get_app_arg(Z, ap, 1), d), b = bitsof(Z3_get_app_arg(Z, ap, 2), d); if (a && b) r = simp(Z3_mk_ite(Z, Z3_get_app_arg(Z, ap, 0), a, b)); }
    else if (k == Z3_OP_FPA_ABS) { Z3_ast a = bitsof(Z3_get_app_arg(Z, ap, 0), d); if (a) r = simp(Z3_mk_bvand(Z, a, bvnum(d ? ~0ull >> 1 : 0x7fffffffull, w))); }
    else if (k == Z3_OP_FPA_NEG) { Z3_ast a = bitsof(Z3_get_app_arg(Z, ap, 0), d); if (a) r = simp(Z3_mk_bvxor(Z, a, bvnum(1ull << (w - 1), w))); }
  }
  bitsc[e] = r; return r;
}
static Z3_ast ieee(Z3_ast e) {
  if (Z3_ast b = bitsof(e, Z3_get_sort(Z, e) == FP64)) return b;
  return simp(Z3_mk_fpa_to_ieee_bv(Z, e));
}
static Z3_ast asBV(const Val &v, unsigned w) {
  if (!v.e) return bvnum(v.c & mask(w), w);
  if (isboolsort(v.e)) return Z3_mk_ite(Z, v.e, bvnum(1, 1), bvnum(0, 1));
  if (isfpsort(v.e)) return ieee(v.e);
  return v.e;
}
static Z3_ast asFP(const Val &v, bool d) {
  if (!v.e) return simp(Z3_mk_fpa_to_fp_bv(Z, bvnum(v.c, d ? 64 : 32), d ? FP64 : FP32));
  if (isfpsort(v.e)) return v.e;
  return simp(Z3_mk_fpa_to_fp_bv(Z, v.e, d ? FP64 : FP32));
}
static Z3_ast asBool(const Val &v) {
  if (!v.e) return (v.c & 1) ? Z3_mk_true(Z) : Z3_mk_false(Z);
  if (isboolsort(v.e)) return v.e;
  return Z3_mk_eq(Z, v.e, bvnum(1, 1));
}
static Val E(Z3_ast e) { Val v; u64 n; if (numval(e, n)) { v.c = n; return v; } v.e = e; return v; }
static Val ES(Z3_ast e) { return E(simp(e)); }

struct Fn;
struct Frame;
static std::vector<Frame> stk;
static std::string where();
static void violation(const char *kind, const std::string &msg, Z3_model m) {
  int i = S->nviol.fetch_add(1);
  if (i < MAXV) {
    Viol &v = S->v[i];
    snprintf(v.kind, sizeof v.kind, "%s", kind);
    snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
    snprintf(v.where, sizeof v.where, "%s", where().c_str());
    dump_inputs(m, v.inputs, sizeof v.inputs);
  }
  if (!opt_keepgoing || i > MAXV) S->stop = 1;
}
static void fault(const char *kind, const std::string &msg) __attribute__((noreturn));
static void fault(const char *kind, const std::string &msg) { violation(kind, msg, MOD); S->paths++; finish(); }

static u64 conc_step = 0; static int conc_i = 0; // values tried by the current instruction
static u64 concretize(const Val &v, unsigned w) {
  if (!v.e) return v.c;
  Z3_ast e = simp(asBV(v, w));
  u64 n; if (numval(e, n)) return n;
  S->concretisations++;
  if (conc_step != steps) { conc_step = steps; conc_i = 0; }
  for (; conc_i < opt_enum; conc_i++) {
    u64 x = meval(MOD, e);
    Z3_ast eq = Z3_mk_eq(Z, e, bvnum(x, w));
    if (decide(eq)) return x;
  }
  set_incomplete(("concretisation limit at " + where()).c_str());
  finish();
}

static void chk(u64 a, u64 n, const char *what) {
  if (a < ARENA || a + n > ARENA + ASIZE) {
    char b[160]; snprintf(b, 160, "%s of %llu bytes at invalid address 0x%llx", what, (unsigned long long)n, (unsigned long long)a);
    fault(a < 4096 ? "null-deref" : "bad-address", b);
  }
  unsigned char *s = sh(a);
  for (u64 i = 0; i < n; i++)
    if (s[i] == INVALID || s[i] == FREED) {
      char b[200]; snprintf(b, 200, "%s of %llu bytes touches %s memory", what, (unsigned long long)n, s[i] == FREED ? "freed" : "out-of-bounds");
      fault(s[i] == FREED ? "use-after-free" : "out-of-bounds", b);
    }
}
static void markconc(u64 a, u64 n) {
  touch(a, n);
  memset(sh(a), CONC, n);
}
// a term that is part of another: its bits [at, at+n) are bits [lo, lo+n) of base, the rest zero
struct Sl { Z3_ast base; unsigned bw, lo, n, at; };
static std::unordered_map<Z3_ast, Sl> slof;
static Sl slice_of(Z3_ast e, unsigned w) { auto it = slof.find(e); return it != slof.end() ? it->second : Sl{e, w, 0, w, 0}; }
static void set_slice(Z3_ast e, const Sl &s) { if (!e || !s.n || s.base == e || Z3_is_numeral_ast(Z, e) || slof.count(e)) return; Z3_inc_ref(Z, e); Z3_inc_ref(Z, s.base); slof[e] = s; }
static void slice_clip(Sl &s, unsigned from, unsigned to) {
  if (s.at < from) { unsigned d = from - s.at; if (d >= s.n) { s.n = 0; return; } s.lo += d; s.n -= d; s.at = from; }
  if (s.at >= to) { s.n = 0; return; }
  if (s.at + s.n > to) s.n = to - s.at;
}
static Val load_raw(u64 a, unsigned n, Type *t, unsigned bits) {
  unsigned char *s = sh(a);
  bool sym = false; uint8_t un = 0;
  for (unsigned i = 0; i < n; i++) { if (s[i] == SYM) sym = true; else if (s[i] == UNINIT) un |= (uint8_t)(1u << (i & 7)); }
  Val v; v.u = un;
  if (!sym) { u64 x = 0; memcpy(&x, (void *)a, n); v.c = bits < 64 ? x & mask(bits) : x; return v; }
  SB &f = symb(a);
  bool whole = s[0] == SYM && f.idx == 0 && f.n == n;
  if (whole) for (unsigned i = 1; i < n && whole; i++) whole = s[i] == SYM && symb(a + i).e == f.e && symb(a + i).idx == i;
  if (whole) v.e = f.e;
  else {
    Z3_ast r = nullptr;
    for (unsigned i = 0; i < n; i++) {
      Z3_ast b;
      if (s[i] == SYM) { SB &x = symb(a + i); Z3_ast bv = isfpsort(x.e) ? ieee(x.e) : x.e; b = x.n == 1 ? bv : Z3_mk_extract(Z, x.idx * 8 + 7, x.idx * 8, bv); }
      else b = bvnum(*(unsigned char *)(a + i), 8);
      r = r ? Z3_mk_concat(Z, b, r) : b;
    }
    v.e = simp(r); u64 nn; if (numval(v.e, nn)) { v.e = nullptr; v.c = nn; }
    bool part = s[0] == SYM && v.e && !isfpsort(f.e) && !isboolsort(f.e);
    if (part) for (unsigned i = 1; i < n && part; i++) part = s[i] == SYM && symb(a + i).e == f.e && symb(a + i).idx == f.idx + i;
    if (part) set_slice(v.e, Sl{f.e, f.n * 8u, f.idx * 8u, n * 8u, 0});
  }
  if (v.e) {
    bool wantfp = t->isDoubleTy() || t->isFloatTy();
    if (wantfp && !isfpsort(v.e)) v.e = simp(Z3_mk_fpa_to_fp_bv(Z, v.e, t->isDoubleTy() ? FP64 : FP32));
    else if (!wantfp && isfpsort(v.e)) v.e = ieee(v.e);
    if (!wantfp && bits < n * 8) { v.e = simp(Z3_mk_extract(Z, bits - 1, 0, v.e)); if (bits == 1) v.e = simp(Z3_mk_eq(Z, v.e, bvnum(1, 1))); }
    u64 nn; if (numval(v.e, nn)) { v.e = nullptr; v.c = nn; }
  } else if (bits < 64) v.c &= mask(bits);
  return v;
}
static void store_raw(u64 a, const Val &v0, unsigned n, unsigned bits) {
  Val v = v0;
  unsigned char *s = sh(a);
  if (!v.e) { markconc(a, n); u64 x = v.c; memcpy((void *)a, &x, n); if (v.u) for (unsigned i = 0; i < n; i++) if (v.u >> (i & 7) & 1) s[i] = UNINIT; return; }
  Z3_ast e = v.e;
  if (isboolsort(e)) e = Z3_mk_ite(Z, e, bvnum(1, n * 8), bvnum(0, n * 8));
  else if (!isfpsort(e) && bits < n * 8) e = simp(Z3_mk_zero_ext(Z, n * 8 - bits, e));
  touch(a, n);
  if (!isfpsort(e) && bits == n * 8) {
    auto it = slof.find(e);
    if (it != slof.end() && it->second.at == 0 && it->second.n == bits && it->second.lo % 8 == 0 && it->second.bw % 8 == 0 && it->second.bw <= 128) {
      for (unsigned i = 0; i < n; i++) { symb(a + i) = SB{it->second.base, (uint8_t)(it->second.lo / 8 + i), (uint8_t)(it->second.bw / 8)}; s[i] = SYM; *(char *)(a + i) = 0; }
      return;
    }
  }
  for (unsigned i = 0; i < n; i++) { symb(a + i) = SB{e, (uint8_t)i, (uint8_t)n}; s[i] = SYM; *(char *)(a + i) = 0; }
}
static void copymem(u64 d, u64 s, u64 n) {
  if (!n) return;
  unsigned char *ss = sh(s), *ds = sh(d);
  bool sym = memchr(ss, SYM, n) || memchr(ds, SYM, n);
  touch(d, n);
  if (!sym) { memmove((void *)d, (void *)s, n); memmove(ds, ss, n); return; }
  std::vector<SB> tmp(n); std::vector<unsigned char> k(ss, ss + n);
  for (u64 i = 0; i < n; i++) if (k[i] == SYM) tmp[i] = symb(s + i);
  markconc(d, n);
  memmove((void *)d, (void *)s, n);
  memcpy(ds, k.data(), n);
  for (u64 i = 0; i < n; i++) if (k[i] == SYM) symb(d + i) = tmp[i];
}
static const Instruction *here();
static std::string locof(const Instruction *I);
static u64 heap_alloc(u64 n) {
  if (n > (256ull << 20)) { return 0; }
  u64 a = (htop + 31) & ~15ull;
  htop = a + (n ? n : 1) + 16;
  if (htop > STACK0) engine_fail("heap exhausted");
  touch(a, n);
  memset((void *)a, 0xA5, n);
  memset(sh(a), UNINIT, n);
  allocs.push_back(Alloc{a, n, true, here()});
  live_allocs++; S->allocs++;
  return a;
}
static void heap_free(u64 p) {
  if (!p) return;
  Alloc *x = find_alloc(p);
  if (!x) fault("bad-free", "free of a pointer that was not allocated");
  if (!x->live) fault("double-free", "double free, allocated at " + locof(x->site));
  x->live = false; live_allocs--; freed.push_back(x - allocs.data());
  touch(p, x->size);
  memset(sh(p), FREED, x->size);
}

// ---------------------------------------------------------------- decoded IR
struct Op { int slot; Val v; };
struct Ins {
  unsigned op; int dst; unsigned w, w2; // widths
  Type *t, *t2; std::vector<Op> a; std::vector<u64> imm;
  Instruction *I; Fn *callee = nullptr; int native = 0; unsigned pred = 0;
  std::vector<int> succ;
};
struct Phi { int dst; std::vector<std::pair<int, Op>> in; };
struct BB { std::vector<Phi> phis; std::vector<Ins> ins; };
struct Fn { Function *F; int id; bool decoded = false; int nslots = 0; std::vector<BB> bb; u64 addr; int native = 0; };
struct Frame { Fn *f; int bb, ip; size_t base; u64 sp; std::vector<Val> va; };
static std::vector<Val> R; // registers of all frames
static std::vector<Fn> fns;
static std::unordered_map<const Function *, Fn *> fmap;
static std::unordered_map<const GlobalVariable *, u64> gaddr;
static const DataLayout *DL;
static Module *Mod;

static std::string locof(const Instruction *I) {
  if (!I) return "?";
  std::string s = I->getFunction()->getName().str();
  if (auto d = I->getDebugLoc()) {
    std::string fn = d->getFilename().str(); size_t k = fn.rfind('/');
    s += "@" + (k == std::string::npos ? fn : fn.substr(k + 1)) + ":" + std::to_string(d->getLine());
  }
  return s;
}
static const Instruction *insof(const Frame &f) {
  return f.f->decoded && f.bb < (int)f.f->bb.size() && f.ip < (int)f.f->bb[f.bb].ins.size() ? f.f->bb[f.bb].ins[f.ip].I : nullptr;
}
static const Instruction *here() { return stk.empty() ? nullptr : insof(stk.back()); }
static std::string locof(const Frame &f) { auto *I = insof(f); return I ? locof(I) : f.f->F->getName().str(); }
static std::string where() {
  std::string s; int n = 0;
  for (int i = (int)stk.size() - 1; i >= 0 && n < 6; i--, n++) { if (n) s += " < "; s += locof(stk[i]); }
  return s;
}

enum { N_NONE = 0, N_MALLOC, N_CALLOC, N_REALLOC, N_FREE, N_MEMCPY, N_MEMSET, N_ABORT, N_EXIT, N_IGN0, N_SYM, N_SYMS, N_ASSUME,
  N_ASSERT, N_COVER, N_OBSERVE, N_PARAM, N_SYMF, N_FABS, N_SQRT, N_SIN, N_COS, N_ASIN, N_CEIL, N_FMIN, N_FMAX, N_FLOOR,
  N_ABS, N_LLABS, N_VSNPRINTF, N_SPRINTF, N_LIVE, N_CONCRETE, N_FAIL, N_STRTOD, N_ISREPLAY, N_ERRNO, N_CTYPE, N_PUTS, N_LOG, N_SNPRINTF,
  N_ISSYM, N_ASSERTFAIL, N_POW, N_ATAN2, N_ACOS, N_TAN, N_SYMFH, N_ROUND, N_TRUNC, N_RINT, N_FLOAT1 };
static const std::map<std::string, int> natives = {
  {"malloc", N_MALLOC}, {"calloc", N_CALLOC}, {"realloc", N_REALLOC}, {"free", N_FREE}, {"memcpy", N_MEMCPY}, {"memmove", N_MEMCPY},
  {"memset", N_MEMSET}, {"abort", N_ABORT}, {"exit", N_EXIT}, {"_exit", N_EXIT}, {"fprintf", N_IGN0}, {"printf", N_IGN0}, {"fwrite", N_IGN0}, {"fputs", N_IGN0},
  {"fputc", N_IGN0}, {"putchar", N_IGN0}, {"puts", N_IGN0}, {"fflush", N_IGN0}, {"clearerr", N_IGN0}, {"ferror", N_IGN0}, {"fileno", N_IGN0}, {"isatty", N_IGN0},
  {"fopen", N_IGN0}, {"fclose", N_IGN0}, {"getc", N_IGN0}, {"fread", N_IGN0}, {"perror", N_IGN0},
  {"dse_sym", N_SYM}, {"dse_sym_signed", N_SYMS}, {"dse_sym_double", N_SYMF}, {"dse_assume", N_ASSUME}, {"dse_assert", N_ASSERT}, {"dse_cover", N_COVER}, {"dse_observe", N_OBSERVE},
  {"dse_param", N_PARAM}, {"dse_live_allocs", N_LIVE}, {"dse_concrete", N_CONCRETE}, {"dse_fail", N_FAIL}, {"dse_is_replay", N_ISREPLAY}, {"dse_is_symbolic", N_ISSYM},
  {"dse_raw_strtod", N_STRTOD}, {"dse_log", N_LOG}, {"fabs", N_FABS}, {"sqrt", N_SQRT}, {"sin", N_SIN}, {"cos", N_COS}, {"asin", N_ASIN}, {"ceil", N_CEIL}, {"floor", N_FLOOR},
  {"fmin", N_FMIN}, {"fmax", N_FMAX}, {"abs", N_ABS}, {"llabs", N_LLABS}, {"labs", N_LLABS}, {"vsnprintf", N_VSNPRINTF}, {"sprintf", N_SPRINTF}, {"snprintf", N_SNPRINTF},
  {"__errno_location", N_ERRNO}, {"__ctype_tolower_loc", N_CTYPE}, {"__ctype_toupper_loc", N_CTYPE}, {"__ctype_b_loc", N_CTYPE}, {"__assert_fail", N_ASSERTFAIL},
  {"dse_sym_double_hi", N_SYMFH}, {"round", N_ROUND}, {"trunc", N_TRUNC}, {"rint", N_RINT}, {"nearbyint", N_RINT}, {"pow", N_POW}, {"log", N_FLOAT1}, {"log2", N_FLOAT1}, {"log10", N_FLOAT1}, {"exp", N_FLOAT1}, {"atan", N_FLOAT1}, {"cbrt", N_FLOAT1}, {"atan2", N_ATAN2}, {"acos", N_ACOS}, {"tan", N_TAN},
};

static u64 evalConst(const Constant *c);
static unsigned tybits(Type *t) { return t->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(t); }
static Val constVal(const Constant *c) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    Val v; v.agg = new Val[n];
    for (unsigned i = 0; i < n; i++) v.agg[i] = constVal(c->getAggregateElement(i));
    return v;
  }
  return C(evalConst(c));
}
static u64 evalConst(const Constant *c) {
  if (auto *x = dyn_cast<ConstantInt>(c)) { if (x->getBitWidth() > 64) engine_fail("wide int constant"); return x->getZExtValue(); }
  if (auto *x = dyn_cast<ConstantFP>(c)) return x->getValueAPF().bitcastToAPInt().getZExtValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto *f = dyn_cast<Function>(c)) return fmap.at(f)->addr;
  if (auto *g = dyn_cast<GlobalVariable>(c)) return gaddr.at(g);
  if (auto *g = dyn_cast<GlobalAlias>(c)) return evalConst(g->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) engine_fail("const gep");
        return evalConst(ce->getOperand(0)) + off.getSExtValue();
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return evalConst(ce->getOperand(0)) & mask(tybits(ce->getType()));
      case Instruction::Add: return (evalConst(ce->getOperand(0)) + evalConst(ce->getOperand(1))) & mask(tybits(ce->getType()));
      case Instruction::Sub: return (evalConst(ce->getOperand(0)) - evalConst(ce->getOperand(1))) & mask(tybits(ce->getType()));
      case Instruction::Trunc: return evalConst(ce->getOperand(0)) & mask(tybits(ce->getType()));
    }
  }
  std::string s; raw_string_ostream o(s); c->print(o);
  engine_fail("unsupported constant %s", s.substr(0, 200).c_str());
}
static void initGlobal(u64 a, const Constant *c) {
  Type *t = c->getType();
  u64 n = DL->getTypeAllocSize(t);
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) { memset((void *)a, 0, n); return; }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { memcpy((void *)a, d->getRawDataValues().data(), d->getRawDataValues().size()); return; }
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *l = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(a + l->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) initGlobal(a + i * es, c->getAggregateElement(i));
    return;
  }
  u64 v = evalConst(c); memcpy((void *)a, &v, n > 8 ? 8 : n);
}

static void decode(Fn *fn) {
  if (fn->decoded) return;
  fn->decoded = true;
  Function &F = *fn->F;
  std::unordered_map<const Value *, int> slot; std::unordered_map<const BasicBlock *, int> bbi;
  int n = 0;
  for (auto &A : F.args()) slot[&A] = n++;
  int b = 0;
  for (auto &B : F) { bbi[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
  fn->nslots = n; fn->bb.resize(b);
  auto mk = [&](const Value *v) -> Op {
    auto it = slot.find(v); if (it != slot.end()) return Op{it->second, Val()};
    if (auto *c = dyn_cast<Constant>(v)) return Op{-1, constVal(c)};
    if (isa<MetadataAsValue>(v)) return Op{-1, Val()};
    if (isa<BasicBlock>(v)) return Op{-1, Val()};
    engine_fail("operand kind in %s", F.getName().str().c_str());
  };
  for (auto &B : F) {
    BB &bb = fn->bb[bbi[&B]];
    for (auto &I : B) {
      if (auto *p = dyn_cast<PHINode>(&I)) {
        Phi ph; ph.dst = slot[&I];
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++) ph.in.push_back({bbi[p->getIncomingBlock(i)], mk(p->getIncomingValue(i))});
        bb.phis.push_back(ph); continue;
      }
      if (I.isDebugOrPseudoInst()) continue;
      Ins x; x.I = &I; x.op = I.getOpcode(); x.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; x.t = I.getType(); x.t2 = nullptr; x.w = x.w2 = 0;
      if (x.t->isSized() && (x.t->isIntegerTy() || x.t->isPointerTy() || x.t->isFloatingPointTy())) x.w = tybits(x.t);
      if (x.t->isVectorTy()) engine_fail("vector type in %s", F.getName().str().c_str());
      if (x.w > 64) engine_fail("wide type in %s", F.getName().str().c_str());
      if (auto *ci = dyn_cast<CallBase>(&I)) {
        if (ci->isInlineAsm()) engine_fail("inline asm");
        for (auto &a : ci->args()) x.a.push_back(mk(a.get()));
        for (auto &a : ci->args()) x.imm.push_back(a->getType()->isSized() && !a->getType()->isAggregateType() ? tybits(a->getType()) : 0);
        Function *cf = ci->getCalledFunction();
        if (!cf) { if (auto *fc = dyn_cast<Function>(ci->getCalledOperand()->stripPointerCasts())) cf = fc; }
        if (cf) x.callee = fmap.at(cf); else x.a.push_back(mk(ci->getCalledOperand()));
        // byval args need a copy
        for (unsigned i = 0; i < ci->arg_size(); i++) if (ci->isByValArgument(i)) { x.succ.push_back(i); x.succ.push_back((int)DL->getTypeAllocSize(ci->getParamByValType(i))); }
        if (ci->arg_size() && cf && cf->isIntrinsic()) x.t2 = ci->getArgOperand(0)->getType();
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        APInt off(64, 0);
        x.a.push_back(mk(g->getPointerOperand()));
        if (g->accumulateConstantOffset(*DL, off)) x.imm.push_back(off.getSExtValue());
        else {
          u64 base = 0;
          std::vector<std::pair<Op, u64>> dyn; std::vector<unsigned> ws;
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            Value *ix = gi.getOperand();
            if (auto *st = gi.getStructTypeOrNull()) base += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            else {
              u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
              if (auto *c = dyn_cast<ConstantInt>(ix)) base += sz * c->getSExtValue();
              else { dyn.push_back({mk(ix), sz}); ws.push_back(tybits(ix->getType())); }
            }
          }
          x.imm.push_back(base);
          for (size_t i = 0; i < dyn.size(); i++) { x.a.push_back(dyn[i].first); x.imm.push_back(dyn[i].second); x.imm.push_back(ws[i]); }
        }
      } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
        x.imm.push_back(DL->getTypeAllocSize(al->getAllocatedType())); x.imm.push_back(al->getAlign().value()); x.a.push_back(mk(al->getArraySize()));
      } else if (auto *l = dyn_cast<LoadInst>(&I)) { x.a.push_back(mk(l->getPointerOperand())); }
      else if (auto *s = dyn_cast<StoreInst>(&I)) { x.a.push_back(mk(s->getValueOperand())); x.a.push_back(mk(s->getPointerOperand())); x.t2 = s->getValueOperand()->getType(); x.w2 = x.t2->isAggregateType() ? 0 : tybits(x.t2); if (x.t2->isVectorTy() || x.w2 > 64) engine_fail("wide store in %s", F.getName().str().c_str()); }
      else if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) x.a.push_back(mk(br->getCondition())); for (unsigned i = 0; i < br->getNumSuccessors(); i++) x.succ.push_back(bbi[br->getSuccessor(i)]); }
      else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        x.a.push_back(mk(sw->getCondition())); x.w2 = tybits(sw->getCondition()->getType()); x.succ.push_back(bbi[sw->getDefaultDest()]);
        for (auto &c : sw->cases()) { x.imm.push_back(c.getCaseValue()->getZExtValue()); x.succ.push_back(bbi[c.getCaseSuccessor()]); }
      } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { x.a.push_back(mk(ev->getAggregateOperand())); for (auto k : ev->indices()) x.imm.push_back(k); }
      else if (auto *iv = dyn_cast<InsertValueInst>(&I)) { x.a.push_back(mk(iv->getAggregateOperand())); x.a.push_back(mk(iv->getInsertedValueOperand())); for (auto k : iv->indices()) x.imm.push_back(k); x.t2 = iv->getAggregateOperand()->getType(); }
      else {
        for (auto &o : I.operands()) x.a.push_back(mk(o.get()));
        if (I.getNumOperands()) { x.t2 = I.getOperand(0)->getType(); if (!x.t2->isAggregateType() && x.t2->isSized()) x.w2 = tybits(x.t2); if (x.t2->isVectorTy() || x.w2 > 64) engine_fail("wide operand in %s", F.getName().str().c_str()); }
        if (auto *c = dyn_cast<CmpInst>(&I)) x.pred = c->getPredicate();
      }
      bb.ins.push_back(x);
    }
  }
}

// ---------------------------------------------------------------- execution
static size_t cbase;  // register base of the top frame
static inline const Val &rd(const Op &o) { return o.slot >= 0 ? R[cbase + o.slot] : o.v; }
static u64 errno_addr, ctype_lower, ctype_upper, ctype_b;
static std::vector<Val> observed;

static void pushframe(Fn *f, const std::vector<Val> &args) {
  decode(f);
  if (stk.size() > 6000) fault("stack-overflow", "recursion depth above 6000 frames");
  unsigned na = f->F->arg_size();
  stk.emplace_back();
  Frame &fr = stk.back();
  fr.f = f; fr.bb = 0; fr.ip = 0; fr.sp = stop_; fr.base = cbase = R.size(); R.resize(fr.base + f->nslots);
  for (unsigned i = 0; i < args.size(); i++) { if (i < na) R[fr.base + i] = args[i]; else fr.va.push_back(args[i]); }
  if (S->fexec[f->id] == 0) S->fexec[f->id] = 1;
}
static void popframe() {
  Frame &fr = stk.back();
  if (stop_ > fr.sp) { touch(fr.sp, stop_ - fr.sp); memset(sh(fr.sp), INVALID, stop_ - fr.sp); stop_ = fr.sp; }
  R.resize(fr.base);
  stk.pop_back();
  cbase = stk.empty() ? 0 : stk.back().base;
}
static u64 stackalloc(u64 n, u64 al) {
  u64 a = (stop_ + 16 + al - 1) & ~(al - 1);
  if (a + n + 16 > ARENA + ASIZE) fault("stack-overflow", "stack memory exhausted");
  stop_ = a + n + 16;
  touch(a, n);
  memset((void *)a, 0xA5, n);
  memset(sh(a), UNINIT, n);
  return a;
}
static std::string cstr(u64 a) {
  std::string s;
  for (;; a++) { chk(a, 1, "string read"); if (*sh(a) == SYM) { s += '?'; continue; } char c = *(char *)a; if (!c) break; s += c; if (s.size() > 4000) break; }
  return s;
}
static double d_of(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 b_of(double d) { u64 b; memcpy(&b, &d, 8); return b; }

struct Lin { Z3_ast x; u64 mul, off; };
static std::unordered_map<Z3_ast, Lin> linof; // terms mul * x + off without overflow, x >= 0
static unsigned fit(Z3_ast e, unsigned w);
static unsigned fitconst(int64_t c);
static Z3_ast shrink(Z3_ast e, unsigned w, unsigned m);
// which bytes of the result depend on uninitialised bytes of the operands
static uint8_t ubytes(unsigned op, const Val &a, const Val &b) {
  if (!(a.u | b.u)) return 0;
  auto bytes = [](u64 c) { unsigned m = 0; for (unsigned i = 0; i < 8; i++) if (c >> (8 * i) & 255) m |= 1u << i; return m; };
  unsigned k = b.e || b.u ? 64 : b.c > 63 ? 64 : (unsigned)b.c, q = k / 8;
  switch (op) {
    case Instruction::And: if (!b.e && !b.u) return (uint8_t)(a.u & bytes(b.c)); if (!a.e && !a.u) return (uint8_t)(b.u & bytes(a.c)); return a.u | b.u;
    case Instruction::Or: case Instruction::Xor: return a.u | b.u;
    case Instruction::Shl: if (k < 64) return (uint8_t)(a.u << q | (k % 8 ? a.u << (q + 1) : 0)); return 255;
    case Instruction::LShr: if (k < 64) return (uint8_t)(a.u >> q | (k % 8 ? a.u >> (q + 1) : 0)); return 255;
    default: return 255;
  }
}
static Val binop(unsigned op, const Val &a, const Val &b, unsigned w) {
  Val r; r.u = ubytes(op, a, b);
  if (!a.e && !b.e) {
    u64 x = a.c, y = b.c, z = 0;
    switch (op) {
      case Instruction::Add: z = x + y; break;
      case Instruction::Sub: z = x - y; break;
      case Instruction::Mul: z = x * y; break;
      case Instruction::And: z = x & y; break;
      case Instruction::Or: z = x | y; break;
      case Instruction::Xor: z = x ^ y; break;
      case Instruction::Shl: z = y >= w ? 0 : x << y; break;
      case Instruction::LShr: z = y >= w ? 0 : x >> y; break;
      case Instruction::AShr: z = (u64)(sx(x, w) >> (y >= w ? w - 1 : y)); break;
      case Instruction::UDiv: case Instruction::URem:
        if (!y) fault("div-by-zero", "division by zero");
        z = op == Instruction::UDiv ? x / y : x % y; break;
      case Instruction::SDiv: case Instruction::SRem: {
        if (!y) fault("div-by-zero", "division by zero");
        int64_t p = sx(x, w), q = sx(y, w);
        if (q == -1) z = op == Instruction::SDiv ? (u64)0 - (u64)p : 0; else z = op == Instruction::SDiv ? p / q : p % q; break; }
      default: engine_fail("binop %u", op);
    }
    r.c = z & mask(w); return r;
  }
  if (op == Instruction::And && ((!a.e && (a.c & mask(w)) == 0) || (!b.e && (b.c & mask(w)) == 0))) return C(0);
  if (w == 1 && (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor)) {
    Z3_ast q[2] = {asBool(a), asBool(b)};
    Val v = ES(op == Instruction::And ? Z3_mk_and(Z, 2, q) : op == Instruction::Or ? Z3_mk_or(Z, 2, q) : Z3_mk_xor(Z, q[0], q[1]));
    v.u = r.u; return v;
  }
  Z3_ast x = asBV(a, w), y = asBV(b, w), z = nullptr;
  if ((op == Instruction::SDiv || op == Instruction::SRem) && a.e && !b.e && w <= 64 && (sx(b.c & mask(w), w) > 1 || sx(b.c & mask(w), w) < -1)) { // narrow value by a constant
    Z3_ast e = simp(x); int64_t c = sx(b.c & mask(w), w);
    u64 ac = c < 0 ? (u64)0 - (u64)c : (u64)c;
    Val v; v.u = r.u;
    auto it = linof.find(x); if (it == linof.end()) it = linof.find(e); // |c| * X + off, X >= 0, 0 <= off < |c|
    if (it != linof.end() && it->second.mul == ac && it->second.off < ac) {
      if (op == Instruction::SRem) { v.c = it->second.off; return v; }
      v.e = c < 0 ? simp(Z3_mk_bvneg(Z, it->second.x)) : it->second.x; return v;
    }
    unsigned k = fit(e, w), kc = fitconst(c), m = (k > kc ? k : kc) + 1;
    if (m < w) {
      Z3_ast n = shrink(e, w, m), d = bvnum((u64)c & mask(m), m);
      v = ES(Z3_mk_sign_ext(Z, w - m, op == Instruction::SDiv ? Z3_mk_bvsdiv(Z, n, d) : Z3_mk_bvsrem(Z, n, d))); v.u = r.u; return v;
    }
  }
  if ((op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem)) {
    if (b.e ? decide(Z3_mk_eq(Z, y, bvnum(0, w))) : b.c == 0) fault("div-by-zero", "division by zero");
  }
  switch (op) {
    case Instruction::Add: z = Z3_mk_bvadd(Z, x, y); break;
    case Instruction::Sub: z = Z3_mk_bvsub(Z, x, y); break;
    case Instruction::Mul: z = Z3_mk_bvmul(Z, x, y); break;
    case Instruction::And: z = Z3_mk_bvand(Z, x, y); break;
    case Instruction::Or: z = Z3_mk_bvor(Z, x, y); break;
    case Instruction::Xor: z = Z3_mk_bvxor(Z, x, y); break;
    case Instruction::Shl: z = Z3_mk_bvshl(Z, x, y); break;
    case Instruction::LShr: z = Z3_mk_bvlshr(Z, x, y); break;
    case Instruction::AShr: z = Z3_mk_bvashr(Z, x, y); break;
    case Instruction::UDiv: z = Z3_mk_bvudiv(Z, x, y); break;
    case Instruction::URem: z = Z3_mk_bvurem(Z, x, y); break;
    case Instruction::SDiv: z = Z3_mk_bvsdiv(Z, x, y); break;
    case Instruction::SRem: z = Z3_mk_bvsrem(Z, x, y); break;
    default: engine_fail("sym binop %u", op);
  }
  if (op == Instruction::Or && a.e && b.e && !isboolsort(a.e) && !isboolsort(b.e)) { // neighbouring parts of one term
    Sl p = slice_of(a.e, w), q = slice_of(b.e, w);
    if (p.at > q.at) std::swap(p, q);
    if (p.base == q.base && p.lo + p.n == q.lo && p.at + p.n == q.at) {
      p.n += q.n;
      Val v; v.u = r.u;
      if (p.lo == 0 && p.at == 0 && p.n == p.bw && p.bw == w) { v.e = p.base; return v; }
      v = ES(z); v.u = r.u; set_slice(v.e, p); return v;
    }
  }
  Val v = ES(z); v.u = r.u;
  if (v.e && !(a.e && b.e) && (op == Instruction::And || op == Instruction::LShr || op == Instruction::Shl) && a.e && !isboolsort(a.e)) {
    Sl p = slice_of(a.e, w); u64 k = b.c & mask(w);
    if (op == Instruction::And) {
      if (k && ((k >> __builtin_ctzll(k)) & ((k >> __builtin_ctzll(k)) + 1)) == 0) { unsigned at = __builtin_ctzll(k), en = at + __builtin_popcountll(k); slice_clip(p, at, en); set_slice(v.e, p); }
    } else if (k < w) {
      if (op == Instruction::LShr) { slice_clip(p, (unsigned)k, w); if (p.n) { p.at -= (unsigned)k; set_slice(v.e, p); } }
      else { p.at += (unsigned)k; slice_clip(p, 0, w); set_slice(v.e, p); }
    }
  }
  if (w == 64 && v.e && !(a.e && b.e)) {
    Z3_ast X = a.e ? x : y; u64 k = a.e ? b.c : a.c; Lin l{nullptr, 0, 0};
    if (op == Instruction::Mul && k > 1 && k < (1u << 30)) {
      X = simp(X);
      Z3_app ap = Z3_get_ast_kind(Z, X) == Z3_APP_AST ? Z3_to_app(Z, X) : nullptr; u64 g;
      bool nonneg = ap && (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_ZERO_EXT || (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_CONCAT && numval(Z3_get_app_arg(Z, ap, 0), g) && g == 0));
      if (nonneg && fit(X, w) + fitconst((int64_t)k) < 64) l = {X, k, 0};
    } else if (op == Instruction::Add && k < (1u << 30)) {
      auto it = linof.find(X);
      if (it != linof.end() && it->second.off + k < it->second.mul) l = {it->second.x, it->second.mul, it->second.off + k};
    }
    if (l.x) { Z3_inc_ref(Z, v.e); Z3_inc_ref(Z, l.x); linof[v.e] = l; }
  }
  return v;
}
// Terms whose value fits few signed bits (extensions of narrow inputs, sums and selections of
// them) are compared on those bits only.
static std::unordered_map<Z3_ast, unsigned> fitc;
static unsigned fitconst(int64_t c) { unsigned n = 1; while (n < 64 && (c < -(1ll << (n - 1)) || c > (1ll << (n - 1)) - 1)) n++; return n; }
static unsigned fit(Z3_ast e, unsigned w) { // number of signed bits that hold the value, or w
  auto it = fitc.find(e); if (it != fitc.end()) return it->second;
  unsigned r = w; u64 x;
  Z3_ast_kind ak = Z3_get_ast_kind(Z, e);
  if (ak == Z3_NUMERAL_AST) { if (w <= 64 && Z3_get_numeral_uint64(Z, e, &x)) r = fitconst(sx(x, w)); }
  else if (ak == Z3_APP_AST) {
    Z3_app ap = Z3_to_app(Z, e); Z3_decl_kind k = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)); unsigned n = Z3_get_app_num_args(Z, ap);
    auto arg = [&](unsigned i) { return Z3_get_app_arg(Z, ap, i); };
    auto wd = [&](Z3_ast z) { return Z3_get_bv_sort_size(Z, Z3_get_sort(Z, z)); };
    if (k == Z3_OP_SIGN_EXT) r = fit(arg(0), wd(arg(0)));
    else if (k == Z3_OP_ZERO_EXT) r = wd(arg(0)) + 1;
    else if (k == Z3_OP_CONCAT && Z3_get_ast_kind(Z, arg(0)) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z, arg(0), &x) && x == 0) { r = 1; for (unsigned i = 1; i < n; i++) r += wd(arg(i)); }
    else if (k == Z3_OP_BADD) { unsigned m = 0; for (unsigned i = 0; i < n; i++) { unsigned q = fit(arg(i), w); if (q > m) m = q; } unsigned g = 0; while ((1u << g) < n) g++; r = m + g; }
    else if (k == Z3_OP_ITE) { unsigned p1 = fit(arg(1), w), q = fit(arg(2), w); r = p1 > q ? p1 : q; }
    else if (k == Z3_OP_BMUL) { r = 0; for (unsigned i = 0; i < n; i++) r += fit(arg(i), w); }
    if (r > w) r = w;
  }
  Z3_inc_ref(Z, e);
  fitc[e] = r; return r;
}
static Z3_ast shrink(Z3_ast e, unsigned w, unsigned m) { // e has w bits and its value fits m signed bits
  if (w == m) return e;
  u64 x;
  if (Z3_get_ast_kind(Z, e) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z, e, &x)) return bvnum(x & mask(m), m);
  if (Z3_get_ast_kind(Z, e) == Z3_APP_AST) {
    Z3_app ap = Z3_to_app(Z, e); Z3_decl_kind k = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)); unsigned n = Z3_get_app_num_args(Z, ap);
    auto arg = [&](unsigned i) { return Z3_get_app_arg(Z, ap, i); };
    auto wd = [&](Z3_ast z) { return Z3_get_bv_sort_size(Z, Z3_get_sort(Z, z)); };
    if (k == Z3_OP_SIGN_EXT) { unsigned q = wd(arg(0)); return q == m ? arg(0) : q < m ? Z3_mk_sign_ext(Z, m - q, arg(0)) : shrink(arg(0), q, m); }
    if (k == Z3_OP_ZERO_EXT) { unsigned q = wd(arg(0)); if (q < m) return Z3_mk_zero_ext(Z, m - q, arg(0)); }
    if (k == Z3_OP_BADD) { Z3_ast z = shrink(arg(0), w, m); for (unsigned i = 1; i < n; i++) z = Z3_mk_bvadd(Z, z, shrink(arg(i), w, m)); return z; }
    if (k == Z3_OP_BMUL) { Z3_ast z = shrink(arg(0), w, m); for (unsigned i = 1; i < n; i++) z = Z3_mk_bvmul(Z, z, shrink(arg(i), w, m)); return z; }
    if (k == Z3_OP_ITE) return Z3_mk_ite(Z, arg(0), shrink(arg(1), w, m), shrink(arg(2), w, m));
    if (k == Z3_OP_CONCAT && n == 2) { unsigned q = wd(arg(1)); if (q == m) return arg(1); if (q < m && Z3_get_ast_kind(Z, arg(0)) == Z3_NUMERAL_AST) return Z3_mk_zero_ext(Z, m - q, arg(1)); }
  }
  return Z3_mk_extract(Z, m - 1, 0, e);
}
static bool narrow_cmp(unsigned p, const Val &a, const Val &b, unsigned w, Z3_ast *out, bool *konst, bool *kval) {
  *konst = false;
  if ((a.e && isfpsort(a.e)) || (b.e && isfpsort(b.e)) || (a.e && isboolsort(a.e)) || (b.e && isboolsort(b.e))) return false;
  unsigned m = 0;
  if (a.e) m = fit(a.e, w);
  if (b.e) { unsigned q = fit(b.e, w); if (q > m) m = q; }
  if (m >= w) return false;
  bool uns = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE;
  for (int side = 0; side < 2; side++) {
    const Val &c = side ? b : a;
    if (c.e) continue;
    int64_t v = sx(c.c & mask(w), w), lo = -(1ll << (m - 1)), hi = (1ll << (m - 1)) - 1;
    if (v >= lo && v <= hi) continue;
    if (p == CmpInst::ICMP_EQ) { *konst = true; *kval = false; return true; }
    if (p == CmpInst::ICMP_NE) { *konst = true; *kval = true; return true; }
    if (uns) return false;
    bool xlt = side ? v > hi : v < lo;
    *konst = true;
    *kval = (p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SLE) ? xlt : !xlt;
    return true;
  }
  auto mk = [&](const Val &n) { return n.e ? shrink(n.e, w, m) : bvnum(n.c & mask(m), m); };
  Z3_ast u = mk(a), v = mk(b);
  switch (p) {
    case CmpInst::ICMP_EQ: *out = Z3_mk_eq(Z, u, v); break; case CmpInst::ICMP_NE: *out = Z3_mk_not(Z, Z3_mk_eq(Z, u, v)); break;
    case CmpInst::ICMP_ULT: *out = Z3_mk_bvult(Z, u, v); break; case CmpInst::ICMP_ULE: *out = Z3_mk_bvule(Z, u, v); break;
    case CmpInst::ICMP_UGT: *out = Z3_mk_bvugt(Z, u, v); break; case CmpInst::ICMP_UGE: *out = Z3_mk_bvuge(Z, u, v); break;
    case CmpInst::ICMP_SLT: *out = Z3_mk_bvslt(Z, u, v); break; case CmpInst::ICMP_SLE: *out = Z3_mk_bvsle(Z, u, v); break;
    case CmpInst::ICMP_SGT: *out = Z3_mk_bvsgt(Z, u, v); break; case CmpInst::ICMP_SGE: *out = Z3_mk_bvsge(Z, u, v); break;
    default: return false;
  }
  return true;
}
static Val icmp(unsigned p, const Val &a, const Val &b, unsigned w) {
  Val r; r.u = (a.u | b.u) ? 255 : 0;
  if (!a.e && !b.e) {
    u64 x = a.c & mask(w), y = b.c & mask(w); int64_t p1 = sx(x, w), q = sx(y, w); bool z = false;
    switch (p) {
      case CmpInst::ICMP_EQ: z = x == y; break; case CmpInst::ICMP_NE: z = x != y; break;
      case CmpInst::ICMP_ULT: z = x < y; break; case CmpInst::ICMP_ULE: z = x <= y; break;
      case CmpInst::ICMP_UGT: z = x > y; break; case CmpInst::ICMP_UGE: z = x >= y; break;
      case CmpInst::ICMP_SLT: z = p1 < q; break; case CmpInst::ICMP_SLE: z = p1 <= q; break;
      case CmpInst::ICMP_SGT: z = p1 > q; break; case CmpInst::ICMP_SGE: z = p1 >= q; break;
      default: engine_fail("icmp");
    }
    r.c = z; return r;
  }
  Z3_ast x, y, z = nullptr;
  bool kc, kv;
  if (w > 1 && narrow_cmp(p, a, b, w, &z, &kc, &kv)) { if (kc) { r.c = kv; return r; } Val v = ES(z); v.u = r.u; return v; }
  if (w == 1 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { x = asBool(a); y = asBool(b); z = Z3_mk_iff(Z, x, y); if (p == CmpInst::ICMP_NE) z = Z3_mk_not(Z, z); }
  else {
    x = asBV(a, w); y = asBV(b, w);
    switch (p) {
      case CmpInst::ICMP_EQ: z = Z3_mk_eq(Z, x, y); break; case CmpInst::ICMP_NE: z = Z3_mk_not(Z, Z3_mk_eq(Z, x, y)); break;
      case CmpInst::ICMP_ULT: z = Z3_mk_bvult(Z, x, y); break; case CmpInst::ICMP_ULE: z = Z3_mk_bvule(Z, x, y); break;
      case CmpInst::ICMP_UGT: z = Z3_mk_bvugt(Z, x, y); break; case CmpInst::ICMP_UGE: z = Z3_mk_bvuge(Z, x, y); break;
      case CmpInst::ICMP_SLT: z = Z3_mk_bvslt(Z, x, y); break; case CmpInst::ICMP_SLE: z = Z3_mk_bvsle(Z, x, y); break;
      case CmpInst::ICMP_SGT: z = Z3_mk_bvsgt(Z, x, y); break; case CmpInst::ICMP_SGE: z = Z3_mk_bvsge(Z, x, y); break;
    }
  }
  Val v = ES(z); v.u = r.u; return v;
}
// IEEE double addition (round to nearest even) as bit-vector terms; checked by --selftest
static Z3_ast bv_fadd(Z3_ast x, Z3_ast y) {
  auto num = [](u64 v, unsigned w) { return bvnum(v, w); };
  auto ext = [](unsigned h, unsigned l, Z3_ast a) { return simp(Z3_mk_extract(Z, h, l, a)); };
  auto zx = [](Z3_ast a, unsigned n) { return n ? simp(Z3_mk_zero_ext(Z, n, a)) : a; };
  auto ite = [](Z3_ast c, Z3_ast a, Z3_ast b) { return simp(Z3_mk_ite(Z, c, a, b)); };
  auto eq = [](Z3_ast a, Z3_ast b) { return simp(Z3_mk_eq(Z, a, b)); };
  auto no = [](Z3_ast a) { return simp(Z3_mk_not(Z, a)); };
  auto an = [](Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return simp(Z3_mk_and(Z, 2, t)); };
  auto orr = [](Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return simp(Z3_mk_or(Z, 2, t)); };
  Z3_ast mx = ext(62, 0, x), my = ext(62, 0, y), sw = simp(Z3_mk_bvult(Z, mx, my));
  Z3_ast a = ite(sw, y, x), b = ite(sw, x, y), ma = ite(sw, my, mx), mb = ite(sw, mx, my);
  Z3_ast sa = ext(63, 63, a), sb = ext(63, 63, b), same = eq(sa, sb);
  auto expo = [&](Z3_ast m) { Z3_ast e = ext(62, 52, m); return ite(eq(e, num(0, 11)), num(1, 11), e); };
  auto sig = [&](Z3_ast m) { Z3_ast h = ite(eq(ext(62, 52, m), num(0, 11)), num(0, 1), num(1, 1)); return simp(Z3_mk_concat(Z, h, ext(51, 0, m))); };
  Z3_ast ea = expo(ma), eb = expo(mb), d = simp(Z3_mk_bvsub(Z, ea, eb)), dd = zx(d, 56 - 11);
  Z3_ast pa = simp(Z3_mk_concat(Z, sig(ma), num(0, 3))), pb = simp(Z3_mk_concat(Z, sig(mb), num(0, 3)));
  Z3_ast shf = simp(Z3_mk_bvlshr(Z, pb, dd)), back = simp(Z3_mk_bvshl(Z, shf, dd));
  Z3_ast lost = ite(simp(Z3_mk_bvuge(Z, dd, num(56, 56))), no(eq(pb, num(0, 56))), no(eq(back, pb)));
  Z3_ast pbs = simp(Z3_mk_bvor(Z, shf, ite(lost, num(1, 56), num(0, 56))));
  Z3_ast A = zx(pa, 1), B = zx(pbs, 1);
  Z3_ast s = ite(same, simp(Z3_mk_bvadd(Z, A, B)), simp(Z3_mk_bvsub(Z, A, B)));  // 57 bits
  Z3_ast zero = eq(s, num(0, 57)), e = zx(ea, 1);  // 12 bits
  Z3_ast carry = eq(ext(56, 56, s), num(1, 1));
  Z3_ast sr = simp(Z3_mk_bvor(Z, simp(Z3_mk_bvlshr(Z, s, num(1, 57))), zx(ext(0, 0, s), 56)));
  Z3_ast s1 = ite(carry, sr, s), e1 = ite(carry, simp(Z3_mk_bvadd(Z, e, num(1, 12))), e);
  Z3_ast q = ext(55, 0, s1);
  for (unsigned k = 32; k; k >>= 1) {
    Z3_ast c = an(eq(ext(55, 56 - k, q), num(0, k)), simp(Z3_mk_bvugt(Z, e1, num(k, 12))));
    q = ite(c, simp(Z3_mk_concat(Z, ext(55 - k, 0, q), num(0, k))), q);
    e1 = ite(c, simp(Z3_mk_bvsub(Z, e1, num(k, 12))), e1);
  }
  Z3_ast g = eq(ext(2, 2, q), num(1, 1)), rs = no(eq(ext(1, 0, q), num(0, 2))), lsb = eq(ext(3, 3, q), num(1, 1));
  Z3_ast m = simp(Z3_mk_bvadd(Z, zx(ext(55, 3, q), 1), ite(an(g, orr(rs, lsb)), num(1, 54), num(0, 54))));
  Z3_ast c2 = eq(ext(53, 53, m), num(1, 1));
  Z3_ast m2 = ite(c2, ext(53, 1, m), ext(52, 0, m)), e2 = ite(c2, simp(Z3_mk_bvadd(Z, e1, num(1, 12))), e1);
  Z3_ast field = ite(eq(ext(52, 52, m2), num(1, 1)), e2, num(0, 12));
  Z3_ast over = simp(Z3_mk_bvuge(Z, field, num(2047, 12)));
  Z3_ast inf = num(0x7ffull << 52, 63), nan63 = num(0x7ff8000000000000ull, 63);
  Z3_ast mag = ite(over, inf, simp(Z3_mk_concat(Z, ext(10, 0, field), ext(51, 0, m2))));
  mag = ite(zero, num(0, 63), mag);
  Z3_ast sg = ite(an(zero, no(same)), num(0, 1), sa);
  Z3_ast ainf = eq(ma, inf), anan = simp(Z3_mk_bvugt(Z, ma, inf)), binf = eq(mb, inf);
  Z3_ast isnan = orr(anan, an(an(ainf, binf), no(same)));
  Z3_ast r = simp(Z3_mk_concat(Z, sg, ite(ainf, inf, mag)));
  return ite(isnan, simp(Z3_mk_concat(Z, num(0, 1), nan63)), r);
}
static int selftest() {
  static const u64 sp[] = {0, 1, 0x8000000000000000ull, 0x8000000000000001ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x7fefffffffffffffull, 0xffefffffffffffffull, 0x0010000000000000ull, 0x000fffffffffffffull, 0x3ff0000000000000ull, 0xbff0000000000000ull, 0x3cb0000000000000ull, 0x3ca0000000000000ull, 0x4340000000000000ull};
  u64 seed = 88172645463325252ull; auto rnd = [&] { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
  int bad = 0, n = 0;
  auto one = [&](u64 x, u64 y) {
    u64 got, want = b_of(d_of(x) + d_of(y)); n++;
    Z3_ast r = bv_fadd(bvnum(x, 64), bvnum(y, 64));
    bool ok = numval(r, got) && (got == want || (std::isnan(d_of(got)) && std::isnan(d_of(want))));
    if (!ok) { bad++; if (bad < 10) fprintf(stderr, "fadd %llx %llx: %llx, expected %llx\n", (unsigned long long)x, (unsigned long long)y, (unsigned long long)got, (unsigned long long)want); }
  };
  for (u64 x : sp) for (u64 y : sp) one(x, y);
  for (int i = 0; i < 4000; i++) {
    u64 x = rnd(), y = rnd(); int k = i % 4;
    if (k == 1) y = (y & ~(0x7ffull << 52)) | (x & (0x7ffull << 52));
    if (k == 2) y = x ^ (1ull << 63) ^ (rnd() & ((1ull << (rnd() % 56)) - 1));
    if (k == 3) { u64 e = ((x >> 52 & 0x7ff) + (rnd() % 120) - 60) & 0x7ff; y = (y & ~(0x7ffull << 52)) | (e << 52); }
    one(x, y);
  }
  fprintf(stderr, "selftest: %d additions, %d wrong\n", n, bad);
  return bad != 0;
}
static Val fcmp(unsigned p, const Val &a, const Val &b, bool d) {
  Val r; r.u = (a.u | b.u) ? 255 : 0;
  if (!a.e && !b.e) {
    double x, y; if (d) { x = d_of(a.c); y = d_of(b.c); } else { float f; uint32_t q = a.c; memcpy(&f, &q, 4); x = f; q = b.c; memcpy(&f, &q, 4); y = f; }
    bool un = isnan(x) || isnan(y), z = false;
    switch (p) {
      case CmpInst::FCMP_OEQ: z = !un && x == y; break; case CmpInst::FCMP_UEQ: z = un || x == y; break;
      case CmpInst::FCMP_ONE: z = !un && x != y; break; case CmpInst::FCMP_UNE: z = un || x != y; break;
      case CmpInst::FCMP_OLT: z = !un && x < y; break; case CmpInst::FCMP_ULT: z = un || x < y; break;
      case CmpInst::FCMP_OLE: z = !un && x <= y; break; case CmpInst::FCMP_ULE: z = un || x <= y; break;
      case CmpInst::FCMP_OGT: z = !un && x > y; break; case CmpInst::FCMP_UGT: z = un || x > y; break;
      case CmpInst::FCMP_OGE: z = !un && x >= y; break; case CmpInst::FCMP_UGE: z = un || x >= y; break;
      case CmpInst::FCMP_ORD: z = !un; break; case CmpInst::FCMP_UNO: z = un; break;
      case CmpInst::FCMP_TRUE: z = true; break; default: z = false;
    }
    r.c = z; return r;
  }
  Z3_ast x = asFP(a, d), y = asFP(b, d), z;
  Z3_ast bx = bitsof(x, d), by = bitsof(y, d);
  if (bx && by) { // ordered comparison on the bits: sign-magnitude to two's complement
    unsigned w = d ? 64 : 32;
    auto mag = [&](Z3_ast q) { return Z3_mk_bvand(Z, q, bvnum(d ? ~0ull >> 1 : 0x7fffffffull, w)); };
    auto nan = [&](Z3_ast q) { return Z3_mk_bvugt(Z, mag(q), bvnum(d ? 0x7ffull << 52 : 0x7f800000ull, w)); };
    auto key = [&](Z3_ast q) { return Z3_mk_ite(Z, Z3_mk_bvslt(Z, q, bvnum(0, w)), Z3_mk_bvneg(Z, mag(q)), q); };
    Z3_ast t[2] = {nan(bx), nan(by)}, un = Z3_mk_or(Z, 2, t), kx = key(bx), ky = key(by);
    auto both = [&](bool ord, Z3_ast q) { Z3_ast u[2] = {ord ? Z3_mk_not(Z, un) : un, q}; return ord ? Z3_mk_and(Z, 2, u) : Z3_mk_or(Z, 2, u); };
    switch (p) {
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: z = both(p == CmpInst::FCMP_OEQ, Z3_mk_eq(Z, kx, ky)); break;
      case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: z = both(p == CmpInst::FCMP_ONE, Z3_mk_not(Z, Z3_mk_eq(Z, kx, ky))); break;
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: z = both(p == CmpInst::FCMP_OLT, Z3_mk_bvslt(Z, kx, ky)); break;
      case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: z = both(p == CmpInst::FCMP_OLE, Z3_mk_bvsle(Z, kx, ky)); break;
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: z = both(p == CmpInst::FCMP_OGT, Z3_mk_bvsgt(Z, kx, ky)); break;
      case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: z = both(p == CmpInst::FCMP_OGE, Z3_mk_bvsge(Z, kx, ky)); break;
      case CmpInst::FCMP_ORD: z = Z3_mk_not(Z, un); break; case CmpInst::FCMP_UNO: z = un; break;
      case CmpInst::FCMP_TRUE: return C(1);
      default: return C(0);
    }
    Val v = ES(z); v.u = r.u; return v;
  }
  Z3_ast nn[2] = {Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y)};
  Z3_ast un = Z3_mk_or(Z, 2, nn);
  auto orun = [&](Z3_ast q) { Z3_ast t[2] = {un, q}; return Z3_mk_or(Z, 2, t); };
  switch (p) {
    case CmpInst::FCMP_OEQ: z = Z3_mk_fpa_eq(Z, x, y); break;
    case CmpInst::FCMP_UEQ: z = orun(Z3_mk_fpa_eq(Z, x, y)); break;
    case CmpInst::FCMP_UNE: z = Z3_mk_not(Z, Z3_mk_fpa_eq(Z, x, y)); break;
    case CmpInst::FCMP_ONE: { Z3_ast t[2] = {Z3_mk_not(Z, un), Z3_mk_not(Z, Z3_mk_fpa_eq(Z, x, y))}; z = Z3_mk_and(Z, 2, t); break; }
    case CmpInst::FCMP_OLT: z = Z3_mk_fpa_lt(Z, x, y); break; case CmpInst::FCMP_ULT: z = Z3_mk_not(Z, Z3_mk_fpa_geq(Z, x, y)); break;
    case CmpInst::FCMP_OLE: z = Z3_mk_fpa_leq(Z, x, y); break; case CmpInst::FCMP_ULE: z = Z3_mk_not(Z, Z3_mk_fpa_gt(Z, x, y)); break;
    case CmpInst::FCMP_OGT: z = Z3_mk_fpa_gt(Z, x, y); break; case CmpInst::FCMP_UGT: z = Z3_mk_not(Z, Z3_mk_fpa_leq(Z, x, y)); break;
    case CmpInst::FCMP_OGE: z = Z3_mk_fpa_geq(Z, x, y); break; case CmpInst::FCMP_UGE: z = Z3_mk_not(Z, Z3_mk_fpa_lt(Z, x, y)); break;
    case CmpInst::FCMP_ORD: z = Z3_mk_not(Z, un); break; case CmpInst::FCMP_UNO: z = un; break;
    default: engine_fail("fcmp");
  }
  Val v = ES(z); v.u = r.u; return v;
}
static Val fbin(unsigned op, const Val &a, const Val &b, bool d) {
  Val r; r.u = (a.u | b.u) ? 255 : 0;
  if (!a.e && !b.e) {
    if (d) { double x = d_of(a.c), y = d_of(b.c), z = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : op == Instruction::FDiv ? x / y : fmod(x, y); r.c = b_of(z); }
    else { float x, y, z; uint32_t q = a.c; memcpy(&x, &q, 4); q = b.c; memcpy(&y, &q, 4); z = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : x / y; memcpy(&q, &z, 4); r.c = q; }
    return r;
  }
  Z3_ast x = asFP(a, d), y = asFP(b, d), z;
  if (d && (op == Instruction::FAdd || op == Instruction::FSub)) {
    Z3_ast bx = bitsof(x, d), by = bitsof(y, d);
    if (bx && by) { Val v = ES(Z3_mk_fpa_to_fp_bv(Z, bv_fadd(bx, op == Instruction::FSub ? simp(Z3_mk_bvxor(Z, by, bvnum(1ull << 63, 64))) : by), FP64)); v.u = r.u; return v; }
  }
  switch (op) {
    case Instruction::FAdd: z = Z3_mk_fpa_add(Z, RNE, x, y); break;
    case Instruction::FSub: z = Z3_mk_fpa_sub(Z, RNE, x, y); break;
    case Instruction::FMul: z = Z3_mk_fpa_mul(Z, RNE, x, y); break;
    case Instruction::FDiv: z = Z3_mk_fpa_div(Z, RNE, x, y); break;
    default: engine_fail("fbin");
  }
  Val v = ES(z); v.u = r.u; return v;
}
static Val mkselect(const Val &c, const Val &a, const Val &b, Type *t) {
  if (!c.e) { Val v = (c.c & 1) ? a : b; if (c.u) v.u = 255; return v; }
  Z3_ast z;
  if (a.agg || b.agg) return decide(asBool(c)) ? a : b;
  if (t->isDoubleTy() || t->isFloatTy()) z = Z3_mk_ite(Z, asBool(c), asFP(a, t->isDoubleTy()), asFP(b, t->isDoubleTy()));
  else if (t->isIntegerTy(1)) z = Z3_mk_ite(Z, asBool(c), asBool(a), asBool(b));
  else if (t->isPointerTy()) {
    // pointers: fork, so that each path keeps concrete addresses
    if (!a.e && !b.e && a.c == b.c) return a;
    return decide(asBool(c)) ? a : b;
  } else z = Z3_mk_ite(Z, asBool(c), asBV(a, tybits(t)), asBV(b, tybits(t)));
  Val v = ES(z); v.u = a.u | b.u | (c.u ? 255 : 0); return v;
}
static std::string fmt_native(const std::string &f, std::vector<Val> &va, size_t &k) {
  std::string o;
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { o += f[i]; continue; }
    if (f[i + 1] == '%') { o += '%'; i++; continue; }
    std::string sp = "%"; i++;
    while (i < f.size() && !strchr("diuxXscpfgGeE", f[i])) { if (f[i] == '*') { u64 n = k < va.size() ? concretize(va[k++], 32) : 0; sp += std::to_string((int)n); } else sp += f[i]; i++; }
    char c = f[i]; sp += c; char buf[512];
    if (k >= va.size()) fault("format", "missing vararg");
    Val a = va[k++];
    if (c == 's') { u64 p = concretize(a, 64); std::string s = cstr(p); std::vector<char> bb(s.size() + 600); snprintf(bb.data(), bb.size(), sp.c_str(), s.c_str()); o += bb.data(); continue; }
    bool isl = sp.find('l') != std::string::npos || sp.find('z') != std::string::npos || sp.find('j') != std::string::npos;
    if (strchr("fgGeE", c)) { u64 b = concretize(a, 64); snprintf(buf, 512, sp.c_str(), d_of(b)); }
    else if (c == 'p' || isl) { u64 b = concretize(a, 64); snprintf(buf, 512, sp.c_str(), b); }
    else { u64 b = concretize(a, 32); snprintf(buf, 512, sp.c_str(), (int)b); }
    o += buf;
  }
  return o;
}
static std::unordered_map<u64, std::vector<Val>> valists;
static void put_bytes(u64 a, const char *p, size_t n) { chk(a, n, "write"); markconc(a, n); memcpy((void *)a, p, n); }

static void pathend() {
  // record a sample: inputs and observations under the path model
  u64 seq = S->sample_seq.fetch_add(1);
  bool take = seq < NSAMP / 2 || (seq & (seq - 1)) == 0 || (seq % 97) == 0;
  if (take) {
    int k = S->nsamples.fetch_add(1);
    int slot = k < NSAMP ? k : NSAMP / 2 + k % (NSAMP / 2);
    char b[4000]; dump_inputs(MOD, b, 3000);
    size_t o = strlen(b);
    for (auto &v : observed) { u64 x = v.e ? meval(MOD, v.e) : v.c; if (o < 3900) o += snprintf(b + o, 4000 - o, "#%llu\n", (unsigned long long)x); }
    memcpy(S->sample[slot], b, 4000);
  }
  S->paths++;
  u64 d = path_depth, m = S->max_depth; while (d > m && !S->max_depth.compare_exchange_weak(m, d)) ;
  finish();
}

static Fn *cur_callee;
static Val native_call(int nat, Ins &I, std::vector<Val> &a, bool &pathdone) {
  Val r;
  auto A = [&](unsigned i) { return concretize(a.at(i), I.imm.at(i)); };
  switch (nat) {
    case N_IGN0: return C(0);
    case N_MALLOC: r.c = heap_alloc(A(0)); return r;
    case N_CALLOC: { u64 n = A(0), m = A(1); r.c = heap_alloc(n * m); if (r.c) { memset((void *)r.c, 0, n * m); memset(sh(r.c), CONC, n * m); } return r; }
    case N_REALLOC: {
      u64 p = A(0), n = A(1);
      if (!p) { r.c = heap_alloc(n); return r; }
      Alloc *it = find_alloc(p);
      if (!it) fault("bad-free", "realloc of a pointer that was not allocated");
      if (!it->live) fault("double-free", "realloc of freed memory");
      if (n == 0) { heap_free(p); return C(0); }
      u64 os = it->size; u64 q = heap_alloc(n);
      if (!q) return C(0);
      copymem(q, p, os < n ? os : n); heap_free(p); r.c = q; return r; }
    case N_FREE: heap_free(A(0)); return r;
    case N_MEMCPY: { u64 d = A(0), s = A(1), n = A(2); if (n) { chk(s, n, "memcpy read"); chk(d, n, "memcpy write"); copymem(d, s, n); } r.c = d; return r; }
    case N_MEMSET: { u64 d = A(0), n = A(2); if (n) { chk(d, n, "memset write"); if (a[1].e) { Val b = a[1]; Z3_ast e = simp(Z3_mk_extract(Z, 7, 0, asBV(b, I.imm[1]))); Val bb; bb.e = e; for (u64 i = 0; i < n; i++) store_raw(d + i, bb, 1, 8); } else { markconc(d, n); memset((void *)d, (int)a[1].c, n); } } r.c = d; return r; }
    case N_ABORT: fault("abort", "abort() called");
    case N_ASSERTFAIL: fault("abort", "assert() failed: " + cstr(A(0)));
    case N_EXIT: { u64 code = a.empty() ? 0 : A(0); if (code) fault("exit", "exit(" + std::to_string(code) + ") called"); pathend(); }
    case N_SYM: case N_SYMS: {
      std::string nm = cstr(A(0)); unsigned w = A(1);
      // a repeated name gets a suffix
      int k = 0; std::string base = nm; for (bool again = true; again;) { again = false; for (auto &i : inputs) if (i.name == nm) { nm = base + "_" + std::to_string(++k); again = true; break; } }
      Z3_ast e = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), bvs(w));
      inputs.push_back(Input{nm, (int)w, e, false});
      Val v; v.e = w >= 64 ? e : nat == N_SYMS ? Z3_mk_sign_ext(Z, 64 - w, e) : simp(Z3_mk_zero_ext(Z, 64 - w, e)); return v; }
    case N_SYMF: {
      std::string nm = cstr(A(0));
      Z3_ast e = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), bvs(64));
      inputs.push_back(Input{nm, 64, e, false});
      Val v; v.e = Z3_mk_fpa_to_fp_bv(Z, e, FP64); return v; }
    case N_SYMFH: { // the top bits of a double are symbolic, the rest zero
      std::string nm = cstr(A(0)); unsigned w = A(1);
      int k = 0; std::string base = nm; for (bool again = true; again;) { again = false; for (auto &i : inputs) if (i.name == nm) { nm = base + "_" + std::to_string(++k); again = true; break; } }
      Z3_ast e = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), bvs(w));
      inputs.push_back(Input{nm, (int)w, e, false});
      Val v; v.e = Z3_mk_fpa_to_fp_bv(Z, w < 64 ? Z3_mk_concat(Z, e, bvnum(0, 64 - w)) : e, FP64); return v; }
    case N_ASSUME: {
      Val v = a[0];
      if (!v.e) { if (!v.c) { S->paths_assumed_away++; finish(); } return r; }
      Z3_ast c = simp(Z3_mk_not(Z, Z3_mk_eq(Z, asBV(v, I.imm[0]), bvnum(0, I.imm[0]))));
      u64 n; if (numval(c, n)) { if (!n) { S->paths_assumed_away++; finish(); } return r; }
      if (!meval(MOD, c)) { Z3_model m2 = nullptr; if (query(c, &m2) != Z3_L_TRUE) { S->paths_assumed_away++; finish(); } setmod(m2); }
      assert_pc(c); return r; }
    case N_ASSERT: {
      Val v = a[0];
      if (v.u) { fault("uninit", "assertion depends on uninitialised memory: " + cstr(A(1))); }
      if (!v.e) { S->asserts_concrete++; if (!v.c) fault("assert", cstr(A(1))); return r; }
      S->asserts_symbolic++;
      Z3_ast c = simp(Z3_mk_not(Z, Z3_mk_eq(Z, asBV(v, I.imm[0]), bvnum(0, I.imm[0]))));
      u64 n; if (numval(c, n)) { S->asserts_const_after_eval++; if (!n) fault("assert", cstr(A(1))); return r; }
      if (!meval(MOD, c)) fault("assert", cstr(A(1)));
      Z3_model m2 = nullptr;
      Z3_lbool q = query(Z3_mk_not(Z, c), &m2);
      if (q == Z3_L_TRUE) { violation("assert", cstr(A(1)), m2); Z3_model_dec_ref(Z, m2); check_stop(); assert_pc(c); }
      setknown(c, true);
      return r; }
    case N_FAIL: fault("assert", cstr(A(0)));
    case N_COVER: { u64 k = A(0); if (k < MAXCOV) S->cover[k]++; return r; }
    case N_OBSERVE: observed.push_back(a[0]); return r;
    case N_PARAM: { u64 k = A(0); r.c = k < 32 ? (u64)params[k] : 0; return r; }
    case N_LIVE: r.c = live_allocs; return r;
    case N_CONCRETE: r.c = A(0); return r;
    case N_ISREPLAY: return C(0);
    case N_ISSYM: return C(a[0].e != nullptr);
    case N_LOG: fprintf(stderr, "[log] %s %s%llu\n", cstr(A(0)).c_str(), a[1].e ? "sym~" : "", (unsigned long long)(a[1].e ? meval(MOD, a[1].e) : a[1].c)); return r;
    case N_FABS: if (a[0].e) return ES(Z3_mk_fpa_abs(Z, asFP(a[0], true))); r.c = b_of(fabs(d_of(a[0].c))); return r;
    case N_FMIN: case N_FMAX: if (a[0].e || a[1].e) return ES(nat == N_FMIN ? Z3_mk_fpa_min(Z, asFP(a[0], 1), asFP(a[1], 1)) : Z3_mk_fpa_max(Z, asFP(a[0], 1), asFP(a[1], 1)));
      r.c = b_of(nat == N_FMIN ? fmin(d_of(a[0].c), d_of(a[1].c)) : fmax(d_of(a[0].c), d_of(a[1].c))); return r;
    case N_CEIL: case N_FLOOR: if (a[0].e) return ES(Z3_mk_fpa_round_to_integral(Z, nat == N_CEIL ? Z3_mk_fpa_rtp(Z) : Z3_mk_fpa_rtn(Z), asFP(a[0], 1)));
      r.c = b_of(nat == N_CEIL ? ceil(d_of(a[0].c)) : floor(d_of(a[0].c))); return r;
    case N_ROUND: case N_TRUNC: case N_RINT: if (a[0].e) return ES(Z3_mk_fpa_round_to_integral(Z, nat == N_ROUND ? Z3_mk_fpa_rna(Z) : nat == N_TRUNC ? Z3_mk_fpa_rtz(Z) : RNE, asFP(a[0], 1)));
      r.c = b_of(nat == N_ROUND ? round(d_of(a[0].c)) : nat == N_TRUNC ? trunc(d_of(a[0].c)) : rint(d_of(a[0].c))); return r;
    case N_FLOAT1: { std::string n = cur_callee->F->getName().str(); double x = d_of(A(0)); r.c = b_of(n == "log" ? log(x) : n == "log2" ? log2(x) : n == "log10" ? log10(x) : n == "exp" ? exp(x) : n == "atan" ? atan(x) : cbrt(x)); return r; }
    case N_SQRT: case N_SIN: case N_COS: case N_ASIN: case N_ACOS: case N_TAN: {
      double x = d_of(A(0)); r.c = b_of(nat == N_SQRT ? sqrt(x) : nat == N_SIN ? sin(x) : nat == N_COS ? cos(x) : nat == N_ASIN ? asin(x) : nat == N_ACOS ? acos(x) : tan(x)); return r; }
    case N_POW: r.c = b_of(pow(d_of(A(0)), d_of(A(1)))); return r;
    case N_ATAN2: r.c = b_of(atan2(d_of(A(0)), d_of(A(1)))); return r;
    case N_ABS: case N_LLABS: {
      unsigned w = nat == N_ABS ? 32 : 64;
      if (!a[0].e) { int64_t x = sx(a[0].c, w); r.c = (x < 0 ? (u64)0 - (u64)x : (u64)x) & mask(w); return r; }
      Z3_ast e = asBV(a[0], w); return ES(Z3_mk_ite(Z, Z3_mk_bvslt(Z, e, bvnum(0, w)), Z3_mk_bvneg(Z, e), e)); }
    case N_STRTOD: { std::string s = cstr(A(0)); r.c = b_of(strtod(s.c_str(), nullptr)); return r; }
    case N_ERRNO: return C(errno_addr);
    case N_CTYPE: { std::string n = cur_callee->F->getName().str(); return C(n.find("lower") != std::string::npos ? ctype_lower : n.find("upper") != std::string::npos ? ctype_upper : ctype_b); }
    case N_VSNPRINTF: {
      u64 d = A(0), n = A(1); std::string f = cstr(A(2)); u64 vl = A(3); u64 id; memcpy(&id, (void *)vl, 8);
      std::vector<Val> va = valists[id]; size_t k = 0; std::string s = fmt_native(f, va, k);
      if (n) { size_t m = s.size() < n - 1 ? s.size() : n - 1; std::string t = s.substr(0, m); put_bytes(d, t.c_str(), m + 1); }
      return C((uint32_t)s.size()); }
    case N_SPRINTF: case N_SNPRINTF: {
      unsigned fi = nat == N_SPRINTF ? 1 : 2; u64 d = A(0); std::string f = cstr(A(fi));
      std::vector<Val> va(a.begin() + fi + 1, a.end()); size_t k = 0; std::string s = fmt_native(f, va, k);
      size_t full = s.size();
      if (nat == N_SNPRINTF) { u64 n = A(1); if (n) { s = s.substr(0, n - 1); put_bytes(d, s.c_str(), s.size() + 1); } } else put_bytes(d, s.c_str(), s.size() + 1);
      return C((uint32_t)full); }
  }
  engine_fail("native %d", nat);
}
static unsigned long long va_id = 1;
static Val intrinsic(Ins &I, std::vector<Val> &a) {
  Val r; auto *ii = cast<IntrinsicInst>(I.I);
  unsigned w = I.t2 && I.t2->isSized() && !I.t2->isAggregateType() ? tybits(I.t2) : 0;
  bool pd = false;
  switch (ii->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: native_call(N_MEMCPY, I, a, pd); return r;
    case Intrinsic::memset: native_call(N_MEMSET, I, a, pd); return r;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: return r;
    case Intrinsic::expect: return a[0];
    case Intrinsic::trap: case Intrinsic::ubsantrap: fault("undefined-behaviour", "undefined behaviour trap (ubsan check " + std::to_string(a.empty() ? 0 : a[0].c) + ")");
    case Intrinsic::fabs: if (I.t2->isDoubleTy()) return native_call(N_FABS, I, a, pd); break;
    case Intrinsic::floor: return native_call(N_FLOOR, I, a, pd);
    case Intrinsic::ceil: return native_call(N_CEIL, I, a, pd);
    case Intrinsic::round: return native_call(N_ROUND, I, a, pd);
    case Intrinsic::trunc: return native_call(N_TRUNC, I, a, pd);
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return native_call(N_RINT, I, a, pd);
    case Intrinsic::copysign: {
      if (a[0].e || a[1].e) { Z3_ast x = Z3_mk_fpa_abs(Z, asFP(a[0], 1)), y = asFP(a[1], 1); return ES(Z3_mk_ite(Z, Z3_mk_fpa_is_negative(Z, y), Z3_mk_fpa_neg(Z, x), x)); }
      return C((a[0].c & ~(1ull << 63)) | (a[1].c & (1ull << 63))); }
    case Intrinsic::is_fpclass: {
      u64 m = a[1].c;
      if (a[0].e) {
        Z3_ast x = asFP(a[0], I.t2->isDoubleTy()), neg = Z3_mk_fpa_is_negative(Z, x), cls[4] = {Z3_mk_fpa_is_infinite(Z, x), Z3_mk_fpa_is_normal(Z, x), Z3_mk_fpa_is_subnormal(Z, x), Z3_mk_fpa_is_zero(Z, x)}, acc = Z3_mk_false(Z);
        if (m & 3) acc = Z3_mk_fpa_is_nan(Z, x);
        for (int k = 0; k < 4; k++) for (int sg = 0; sg < 2; sg++) if (m >> (sg ? 9 - k : 2 + k) & 1) { Z3_ast t[2] = {cls[k], sg ? Z3_mk_not(Z, neg) : neg}; Z3_ast u[2] = {acc, Z3_mk_and(Z, 2, t)}; acc = Z3_mk_or(Z, 2, u); }
        return ES(acc);
      }
      double x = d_of(a[0].c); if (!I.t2->isDoubleTy()) { float f; uint32_t q = a[0].c; memcpy(&f, &q, 4); x = f; }
      int k = std::isinf(x) ? 0 : x == 0 ? 3 : std::isnormal(x) ? 1 : 2; bool sg = !std::signbit(x);
      return C(std::isnan(x) ? (m & 3) != 0 : (m >> (sg ? 9 - k : 2 + k) & 1)); }
    case Intrinsic::uadd_sat: { Val z = binop(Instruction::Add, a[0], a[1], w); return mkselect(icmp(CmpInst::ICMP_ULT, z, a[0], w), C(mask(w)), z, I.t); }
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
      bool ad = ii->getIntrinsicID() == Intrinsic::sadd_sat;
      Val z = binop(ad ? Instruction::Add : Instruction::Sub, a[0], a[1], w);
      Val neg = icmp(CmpInst::ICMP_SLT, a[0], C(0), w), sat = mkselect(neg, C(1ull << (w - 1)), C(mask(w) >> 1), I.t);
      // overflow: the sign of a0 differs from the result's while the operation could not flip it
      Val x1 = binop(Instruction::Xor, a[0], z, w), x2 = binop(Instruction::Xor, a[0], a[1], w);
      if (ad) x2 = binop(Instruction::Xor, x2, C(mask(w)), w);
      return mkselect(icmp(CmpInst::ICMP_SLT, binop(Instruction::And, x1, x2, w), C(0), w), sat, z, I.t); }
    case Intrinsic::memcpy_inline: native_call(N_MEMCPY, I, a, pd); return r;
    case Intrinsic::fma: return fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1], true), a[2], true);
    case Intrinsic::sqrt: return native_call(N_SQRT, I, a, pd);
    case Intrinsic::minnum: return native_call(N_FMIN, I, a, pd);
    case Intrinsic::maxnum: return native_call(N_FMAX, I, a, pd);
    case Intrinsic::fmuladd: return fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1], true), a[2], true);
    case Intrinsic::abs: if (w == 32) return native_call(N_ABS, I, a, pd); if (w == 64) return native_call(N_LLABS, I, a, pd); break;
    case Intrinsic::smax: return mkselect(icmp(CmpInst::ICMP_SGT, a[0], a[1], w), a[0], a[1], I.t);
    case Intrinsic::smin: return mkselect(icmp(CmpInst::ICMP_SLT, a[0], a[1], w), a[0], a[1], I.t);
    case Intrinsic::umax: return mkselect(icmp(CmpInst::ICMP_UGT, a[0], a[1], w), a[0], a[1], I.t);
    case Intrinsic::umin: return mkselect(icmp(CmpInst::ICMP_ULT, a[0], a[1], w), a[0], a[1], I.t);
    case Intrinsic::usub_sat: return mkselect(icmp(CmpInst::ICMP_UGT, a[0], a[1], w), binop(Instruction::Sub, a[0], a[1], w), C(0), I.t);
    case Intrinsic::fshl: case Intrinsic::fshr: {
      bool left = ii->getIntrinsicID() == Intrinsic::fshl;
      if (a[2].e) engine_fail("symbolic funnel shift");
      unsigned s = a[2].c % w; if (s == 0) return left ? a[0] : a[1];
      unsigned ls = left ? s : w - s;
      return binop(Instruction::Or, binop(Instruction::Shl, a[0], C(ls), w), binop(Instruction::LShr, a[1], C(w - ls), w), w); }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: {
      u64 x = concretize(a[0], w);
      switch (ii->getIntrinsicID()) {
        case Intrinsic::ctpop: r.c = __builtin_popcountll(x); break;
        case Intrinsic::ctlz: r.c = x ? __builtin_clzll(x) - (64 - w) : w; break;
        case Intrinsic::cttz: r.c = x ? __builtin_ctzll(x) : w; break;
        default: r.c = __builtin_bswap64(x) >> (64 - w);
      }
      return r; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      Val *ag = new Val[2]; auto id = ii->getIntrinsicID();
      unsigned op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? Instruction::Add : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? Instruction::Sub : Instruction::Mul;
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      ag[0] = binop(op, a[0], a[1], w);
      if (!a[0].e && !a[1].e) {
        __int128 x = sg ? (__int128)sx(a[0].c, w) : (__int128)(a[0].c & mask(w)), y = sg ? (__int128)sx(a[1].c, w) : (__int128)(a[1].c & mask(w));
        bool ov; if (op == Instruction::Mul && w == 64) { if (sg) { int64_t t; ov = __builtin_mul_overflow((int64_t)x, (int64_t)y, &t); } else { u64 t; ov = __builtin_mul_overflow((u64)x, (u64)y, &t); } }
        else { __int128 z = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y; __int128 lo = sg ? -((__int128)1 << (w - 1)) : 0, hi = sg ? ((__int128)1 << (w - 1)) - 1 : ((__int128)1 << w) - 1; ov = z < lo || z > hi; }
        ag[1].c = ov;
      } else {
        Z3_ast x = asBV(a[0], w), y = asBV(a[1], w), ok;
        if (op == Instruction::Add) { Z3_ast t[2] = {Z3_mk_bvadd_no_overflow(Z, x, y, sg), sg ? Z3_mk_bvadd_no_underflow(Z, x, y) : Z3_mk_true(Z)}; ok = Z3_mk_and(Z, 2, t); }
        else if (op == Instruction::Sub) { Z3_ast t[2] = {sg ? Z3_mk_bvsub_no_overflow(Z, x, y) : Z3_mk_true(Z), Z3_mk_bvsub_no_underflow(Z, x, y, sg)}; ok = Z3_mk_and(Z, 2, t); }
        else { Z3_ast t[2] = {Z3_mk_bvmul_no_overflow(Z, x, y, sg), sg ? Z3_mk_bvmul_no_underflow(Z, x, y) : Z3_mk_true(Z)}; ok = Z3_mk_and(Z, 2, t); }
        ag[1] = ES(Z3_mk_not(Z, ok));
      }
      r.agg = ag; return r; }
    case Intrinsic::vastart: { u64 p = concretize(a[0], 64); chk(p, 24, "va_start"); u64 id = va_id++; valists[id] = stk.back().va; markconc(p, 24); memset((void *)p, 0, 24); memcpy((void *)p, &id, 8); return r; }
    case Intrinsic::vacopy: { u64 d = concretize(a[0], 64), s = concretize(a[1], 64); copymem(d, s, 24); return r; }
    case Intrinsic::vaend: return r;
    case Intrinsic::stacksave: return C(0);
    case Intrinsic::stackrestore: return r;
    case Intrinsic::objectsize: return C(mask(I.w));
    case Intrinsic::is_constant: return C(0);
    default: break;
  }
  engine_fail("intrinsic %s", ii->getCalledFunction()->getName().str().c_str());
}
static void load_agg(u64 a, Type *t, Val &out) {
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *l = DL->getStructLayout(st); out.agg = new Val[st->getNumElements()];
    for (unsigned i = 0; i < st->getNumElements(); i++) load_agg(a + l->getElementOffset(i), st->getElementType(i), out.agg[i]);
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType()); out.agg = new Val[at->getNumElements()];
    for (u64 i = 0; i < at->getNumElements(); i++) load_agg(a + i * es, at->getElementType(), out.agg[i]);
  } else { unsigned b = tybits(t); out = load_raw(a, (b + 7) / 8, t, b); }
}
static void store_agg(u64 a, Type *t, const Val &v) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) store_agg(a + l->getElementOffset(i), st->getElementType(i), v.agg ? v.agg[i] : Val()); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) store_agg(a + i * es, at->getElementType(), v.agg ? v.agg[i] : Val()); }
  else { unsigned b = tybits(t); store_raw(a, v, (b + 7) / 8, b); }
}
static void goto_bb(int to) {
  Frame &f = stk.back();
  int from = f.bb; BB &b = f.f->bb[to];
  if (!b.phis.empty()) {
    Val tmp[64]; std::vector<Val> big; Val *t = tmp;
    if (b.phis.size() > 64) { big.resize(b.phis.size()); t = big.data(); }
    size_t k = 0;
    for (auto &p : b.phis) { bool ok = false; for (auto &in : p.in) if (in.first == from) { t[k++] = rd(in.second); ok = true; break; } if (!ok) engine_fail("phi"); }
    k = 0; for (auto &p : b.phis) R[cbase + p.dst] = t[k++];
  }
  f.bb = to; f.ip = 0;
}
static void marksym() { S->fsym[stk.back().f->id] = 1; }

static void ret(Val v) {
  popframe();
  if (stk.empty()) pathend();
  Frame &f = stk.back();
  Ins &I = f.f->bb[f.bb].ins[f.ip];
  if (I.dst >= 0) R[cbase + I.dst] = v;
  f.ip++;
}
static void run() {
  for (;;) {
    Frame &f = stk.back();
    Ins &I = f.f->bb[f.bb].ins[f.ip];
    steps++; executed++;
    if ((steps & 0xfff) == 0) { check_stop(); if (steps > opt_maxsteps) fault("nontermination", "more than " + std::to_string(opt_maxsteps) + " instructions on one path"); }
    Val v;
    switch (I.op) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        v = binop(I.op, rd(I.a[0]), rd(I.a[1]), I.w); if (v.e) marksym(); break;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: v = fbin(I.op, rd(I.a[0]), rd(I.a[1]), I.t->isDoubleTy()); if (v.e) marksym(); break;
      case Instruction::FNeg: { const Val &x = rd(I.a[0]); if (x.e) v = ES(Z3_mk_fpa_neg(Z, asFP(x, I.t->isDoubleTy()))); else v.c = x.c ^ (I.t->isDoubleTy() ? 1ull << 63 : 1ull << 31); break; }
      case Instruction::ICmp: v = icmp(I.pred, rd(I.a[0]), rd(I.a[1]), I.w2); if (v.e) marksym(); break;
      case Instruction::FCmp: v = fcmp(I.pred, rd(I.a[0]), rd(I.a[1]), I.t2->isDoubleTy()); if (v.e) marksym(); break;
      case Instruction::Select: { Val c = rd(I.a[0]); v = mkselect(c, rd(I.a[1]), rd(I.a[2]), I.t); if (c.e) marksym(); break; }
      case Instruction::ZExt: { Val x = rd(I.a[0]); if (x.e) v.e = I.w2 == 1 ? Z3_mk_ite(Z, asBool(x), bvnum(1, I.w), bvnum(0, I.w)) : simp(Z3_mk_zero_ext(Z, I.w - I.w2, asBV(x, I.w2))); else v.c = x.c & mask(I.w2); v.u = x.u; if (x.e && v.e && I.w2 > 1 && !isboolsort(x.e)) set_slice(v.e, slice_of(x.e, I.w2)); break; }
      case Instruction::SExt: { const Val &x = rd(I.a[0]); if (x.e) v.e = I.w2 == 1 ? Z3_mk_ite(Z, asBool(x), bvnum(mask(I.w), I.w), bvnum(0, I.w)) : simp(Z3_mk_sign_ext(Z, I.w - I.w2, asBV(x, I.w2))); else v.c = (u64)sx(x.c, I.w2) & mask(I.w); v.u = x.u ? 255 : 0; break; }
      case Instruction::Trunc: { Val x = rd(I.a[0]); if (x.e) { Z3_ast e = simp(Z3_mk_extract(Z, I.w - 1, 0, asBV(x, I.w2))); if (I.w == 1) e = simp(Z3_mk_eq(Z, e, bvnum(1, 1))); v = E(e); } else v.c = x.c & mask(I.w); v.u = (uint8_t)(x.u & ((1u << ((I.w + 7) / 8)) - 1)); if (x.e && v.e && I.w > 1 && !isboolsort(x.e)) { Sl p = slice_of(x.e, I.w2); slice_clip(p, 0, I.w); set_slice(v.e, p); } break; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: { v = rd(I.a[0]); if (I.w != I.w2) { if (v.e) engine_fail("ptrtoint width"); v.c &= mask(I.w); } break; }
      case Instruction::BitCast: {
        v = rd(I.a[0]);
        if (v.e) { bool tf = I.t->isDoubleTy() || I.t->isFloatTy(); if (tf && !isfpsort(v.e)) v.e = asFP(v, I.t->isDoubleTy()); else if (!tf && isfpsort(v.e)) v.e = asBV(v, I.w); }
        break; }
      case Instruction::Freeze: v = rd(I.a[0]); break;
      case Instruction::SIToFP: case Instruction::UIToFP: {
        Val x = rd(I.a[0]); bool d = I.t->isDoubleTy();
        if (x.e && opt_fpfork) x.c = concretize(x, I.w2), x.e = nullptr;
        if (x.e) v = ES(I.op == Instruction::SIToFP ? Z3_mk_fpa_to_fp_signed(Z, RNE, asBV(x, I.w2), d ? FP64 : FP32) : Z3_mk_fpa_to_fp_unsigned(Z, RNE, asBV(x, I.w2), d ? FP64 : FP32));
        else { double z = I.op == Instruction::SIToFP ? (double)sx(x.c, I.w2) : (double)(x.c & mask(I.w2)); if (d) v.c = b_of(z); else { float ff = I.op == Instruction::SIToFP ? (float)sx(x.c, I.w2) : (float)(x.c & mask(I.w2)); uint32_t q; memcpy(&q, &ff, 4); v.c = q; } }
        v.u = x.u ? 255 : 0; break; }
      case Instruction::FPToSI: case Instruction::FPToUI: {
        const Val &x = rd(I.a[0]); bool d = I.t2->isDoubleTy();
        if (x.e) {
          Z3_ast fx = asFP(x, d);
          v = ES(I.op == Instruction::FPToSI ? Z3_mk_fpa_to_sbv(Z, RTZ, fx, I.w) : Z3_mk_fpa_to_ubv(Z, RTZ, fx, I.w));
        } else { double z; if (d) z = d_of(x.c); else { float ff; uint32_t q = x.c; memcpy(&ff, &q, 4); z = ff; } v.c = (I.op == Instruction::FPToSI ? (u64)(int64_t)z : (u64)z) & mask(I.w); }
        v.u = x.u ? 255 : 0; break; }
      case Instruction::FPExt: { const Val &x = rd(I.a[0]); if (x.e) v = ES(Z3_mk_fpa_to_fp_float(Z, RNE, asFP(x, false), FP64)); else { float ff; uint32_t q = x.c; memcpy(&ff, &q, 4); v.c = b_of(ff); } break; }
      case Instruction::FPTrunc: { const Val &x = rd(I.a[0]); if (x.e) v = ES(Z3_mk_fpa_to_fp_float(Z, RNE, asFP(x, true), FP32)); else { float ff = (float)d_of(x.c); uint32_t q; memcpy(&q, &ff, 4); v.c = q; } break; }
      case Instruction::GetElementPtr: {
        v = rd(I.a[0]);
        if (I.imm[0]) v = binop(Instruction::Add, v, C(I.imm[0]), 64);
        for (size_t i = 1; i < I.a.size(); i++) {
          Val ix = rd(I.a[i]); u64 sz = I.imm[2 * i - 1]; unsigned w = I.imm[2 * i];
          if (ix.e) { if (w < 64) ix.e = simp(Z3_mk_sign_ext(Z, 64 - w, ix.e)); } else ix.c = (u64)sx(ix.c, w);
          v = binop(Instruction::Add, v, binop(Instruction::Mul, ix, C(sz), 64), 64);
        }
        break; }
      case Instruction::Alloca: { u64 n = I.imm[0] * concretize(rd(I.a[0]), 64); v.c = stackalloc(n, I.imm[1]); break; }
      case Instruction::Load: {
        u64 p = concretize(rd(I.a[0]), 64);
        if (I.t->isAggregateType()) { chk(p, DL->getTypeStoreSize(I.t), "load"); load_agg(p, I.t, v); }
        else { unsigned n = (I.w + 7) / 8; chk(p, n, "load"); v = load_raw(p, n, I.t, I.w); if (v.e) marksym(); }
        break; }
      case Instruction::Store: {
        u64 p = concretize(rd(I.a[1]), 64); const Val &x = rd(I.a[0]);
        if (I.t2->isAggregateType()) { chk(p, DL->getTypeStoreSize(I.t2), "store"); store_agg(p, I.t2, x); }
        else { unsigned n = (I.w2 + 7) / 8; chk(p, n, "store"); store_raw(p, x, n, I.w2); }
        stk.back().ip++; continue; }
      case Instruction::ExtractValue: { v = rd(I.a[0]); for (u64 k : I.imm) { if (!v.agg) engine_fail("extractvalue"); v = v.agg[k]; } break; }
      case Instruction::InsertValue: {
        Val ag = rd(I.a[0]); Type *t = I.t2;
        if (I.imm.size() != 1) engine_fail("nested insertvalue");
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        Val *na = new Val[n]; for (unsigned i = 0; i < n; i++) na[i] = ag.agg ? ag.agg[i] : Val();
        na[I.imm[0]] = rd(I.a[1]); v.agg = na; break; }
      case Instruction::Br: {
        if (I.a.empty()) { goto_bb(I.succ[0]); continue; }
        Val c = rd(I.a[0]);
        if (c.u) fault("uninit", "branch depends on uninitialised memory");
        bool t; if (c.e) { marksym(); t = decide(asBool(c)); } else t = c.c & 1;
        goto_bb(I.succ[t ? 0 : 1]); continue; }
      case Instruction::Switch: {
        Val c = rd(I.a[0]); int to = I.succ[0];
        if (c.u) fault("uninit", "switch depends on uninitialised memory");
        if (!c.e) { for (size_t i = 0; i < I.imm.size(); i++) if (I.imm[i] == (c.c & mask(I.w2))) { to = I.succ[i + 1]; break; } }
        else {
          marksym();
          std::vector<bool> done(I.imm.size(), false); bool hit = false;
          for (size_t i = 0; i < I.imm.size() && !hit; i++) {
            if (done[i]) continue;
            std::vector<Z3_ast> ors;
            for (size_t j = i; j < I.imm.size(); j++) if (I.succ[j + 1] == I.succ[i + 1]) { done[j] = true; ors.push_back(Z3_mk_eq(Z, asBV(c, I.w2), bvnum(I.imm[j], I.w2))); }
            if (decide(Z3_mk_or(Z, ors.size(), ors.data()))) { to = I.succ[i + 1]; hit = true; }
          }
        }
        goto_bb(to); continue; }
      case Instruction::Ret: { Val x; if (!I.a.empty()) x = rd(I.a[0]); ret(x); continue; }
      case Instruction::Unreachable: fault("unreachable", "unreachable code executed");
      case Instruction::Call: {
        std::vector<Val> args; args.reserve(I.a.size());
        Fn *cal = I.callee; size_t na = I.a.size() - (cal ? 0 : 1);
        for (size_t i = 0; i < na; i++) args.push_back(rd(I.a[i]));
        if (!cal) {
          u64 p = concretize(rd(I.a.back()), 64);
          if (p < FUNCB || (p - FUNCB) / 16 >= fns.size()) fault("bad-call", "call through an invalid function pointer");
          cal = &fns[(p - FUNCB) / 16];
        }
        if (cal->F->isIntrinsic()) { v = intrinsic(I, args); break; }
        if (cal->F->isDeclaration()) {
          if (!cal->native) engine_fail("unsupported external %s at %s", cal->F->getName().str().c_str(), where().c_str());
          cur_callee = cal; bool pd = false; v = native_call(cal->native, I, args, pd); break;
        }
        for (size_t i = 0; i + 1 < I.succ.size(); i += 2) { u64 src = concretize(args[I.succ[i]], 64); u64 n = I.succ[i + 1]; u64 d = stackalloc(n, 16); chk(src, n, "byval copy"); copymem(d, src, n); args[I.succ[i]] = C(d); }
        pushframe(cal, args); continue; }
      default: engine_fail("opcode %s", I.I->getOpcodeName());
    }
    Frame &g = stk.back();
    if (I.dst >= 0) R[cbase + I.dst] = v;
    g.ip++;
  }
}

// ---------------------------------------------------------------- open branches
// A checkpoint holds the state at the start of the instruction that met the branch (the
// instruction has no effect before its first decide()); taking the other side restores it,
// asserts that side and executes the instruction again.
struct Ckpt {
  std::vector<Frame> stk; std::vector<Val> R;
  size_t pc, known, inputs, observed, undo, nallocs, freed; u64 htop, stop_, live, steps, vaid, cstep; int depth, ci; uint32_t epoch;
  Z3_ast c, other; bool side, given; Z3_model m2;
};
static std::vector<Ckpt> ck;
static size_t ngiven = 0; // ck[0..ngiven) have been given away
static void drop_all() { for (auto &k : ck) if (!k.given) Z3_model_dec_ref(Z, k.m2); ck.clear(); undo.clear(); undosym.clear(); cur_epoch = 0; ngiven = 0; }
// go back to ck[i] and take its other side
static void restore(size_t i) {
  for (size_t j = i + 1; j < ck.size(); j++) if (!ck[j].given) Z3_model_dec_ref(Z, ck[j].m2);
  Ckpt &k = ck[i];
  rewind_memory(k.undo);
  Z3_solver_pop(Z, SOL, (unsigned)(ck.size() - i));
  stk.swap(k.stk); R.swap(k.R); cbase = stk.back().base;
  while (PC.size() > k.pc) { inpc[PC.back()]--; PC.pop_back(); pclits.pop_back(); } inputs.resize(k.inputs); observed.resize(k.observed);
  while (knownlog.size() > k.known) { known.erase(knownlog.back()); knownlog.pop_back(); }
  while (freed.size() > k.freed) { allocs[freed.back()].live = true; freed.pop_back(); }
  allocs.resize(k.nallocs);
  htop = k.htop; stop_ = k.stop_; live_allocs = k.live; steps = k.steps - 1; va_id = k.vaid; conc_step = k.cstep; conc_i = k.ci + 1; path_depth = k.depth + 1;
  Z3_model m = k.m2; Z3_ast c = k.c, other = k.other; bool side = k.side;
  cur_epoch = i ? ck[i - 1].epoch : 0;
  ck.resize(i); if (ngiven > i) ngiven = i;
  setmod(m); assert_pc(other); setknown(c, !side);
}
// The other side of a branch is feasible too: note it, and go on with this side.  Returns true
// in a process that was made to take the other side now.
static bool branch_other(Z3_ast c, bool side, Z3_ast other, Z3_model m2) {
  if (my_queries > 60000) { // Z3's terms pile up: explore the other side in a child that is thrown away
    if (do_fork(false)) { drop_all(); path_depth++; return true; }
    Z3_model_dec_ref(Z, m2); path_depth++;
    return false;
  }
  Ckpt k;
  k.stk = stk; k.R = R; k.pc = PC.size(); k.known = knownlog.size(); k.inputs = inputs.size(); k.observed = observed.size(); k.undo = undo.size();
  k.nallocs = allocs.size(); k.freed = freed.size(); k.htop = htop; k.stop_ = stop_; k.live = live_allocs; k.steps = steps; k.vaid = va_id; k.cstep = conc_step; k.ci = conc_i; k.depth = path_depth;
  k.c = c; k.other = other; k.side = side; k.m2 = m2; k.given = false;
  if (++last_epoch == 0) engine_fail("epochs exhausted");
  k.epoch = cur_epoch = last_epoch;
  Z3_solver_push(Z, SOL);
  ck.push_back(std::move(k));
  path_depth++;
  if (ngiven < ck.size() && sem_trywait(&S->tok) == 0) { // an idle core takes the oldest open branch
    if (do_fork(true)) { restore(ngiven); drop_all(); throw Resume(); }
    Z3_model_dec_ref(Z, ck[ngiven].m2); ck[ngiven].given = true; ngiven++;
  }
  return false;
}
static void explore() {
  for (;;) {
    try { run(); } catch (PathEnd &) {} catch (Resume &) { continue; }
    if (S->stop) break;
    size_t i = ck.size();
    if (i == 0 || i <= ngiven) break;
    restore(i - 1);
  }
  real_finish();
}

// ---------------------------------------------------------------- main
static void jstr(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c == '\n') fputs("\\n", f); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
  fputc('"', f);
}
int main(int argc, char **argv) {
  const char *bc = nullptr, *entry = "harness", *out = nullptr;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--selftest") { S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); zinit(); return selftest(); }
    if (a == "--entry") entry = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--deadline") opt_deadline = atof(argv[++i]);
    else if (a == "--procs") opt_procs = atoi(argv[++i]);
    else if (a == "--maxsteps") opt_maxsteps = strtoull(argv[++i], 0, 10);
    else if (a == "--rlimit") opt_rlimit = strtoull(argv[++i], 0, 10);
    else if (a == "--sat") opt_sat = 1;
    else if (a == "--fpfork") opt_fpfork = 1;
    else if (a == "--keepgoing") opt_keepgoing = 1;
    else if (a == "--param") { std::string p = argv[++i]; size_t k = p.find('='); params[atoi(p.c_str())] = atol(p.c_str() + k + 1); }
    else bc = argv[i];
  }
  t_start = now();
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sem_init(&S->tok, 1, opt_procs - 1);
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("dse", errs()); return 3; }
  Mod = M.get(); DL = &M->getDataLayout();
  if (mmap((void *)ARENA, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)ARENA) { perror("arena"); return 3; }
  if (mmap((void *)SHADOW, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)SHADOW) { perror("shadow"); return 3; }
  if (mmap((void *)SYMB, ASIZE * sizeof(SB), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)SYMB) { perror("symb"); return 3; }
  if (mmap((void *)EPOCH, ASIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)EPOCH) { perror("epoch"); return 3; }
  int n = 0; for (auto &F : *M) { (void)F; n++; }
  if (n > MAXF) { fprintf(stderr, "too many functions\n"); return 3; }
  fns.resize(n); n = 0;
  for (auto &F : *M) {
    Fn &x = fns[n]; x.F = &F; x.id = n; x.addr = FUNCB + 16 * (u64)n; fmap[&F] = &x;
    auto it = natives.find(F.getName().str()); if (it != natives.end() && F.isDeclaration()) x.native = it->second; n++;
  }
  for (auto &G : M->globals()) {
    u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8;
    u64 al = G.getAlign() ? G.getAlign()->value() : 16; if (al < 16) al = 16;
    u64 a = (gtop + 16 + al - 1) & ~(al - 1); gtop = a + sz; gaddr[&G] = a;
    memset(sh(a), CONC, sz);
  }
  for (auto &G : M->globals()) if (G.hasInitializer()) initGlobal(gaddr[&G], G.getInitializer());
  { // ctype tables
    u64 a = gtop + 64; errno_addr = a; memset(sh(a), CONC, 8); a += 64;
    ctype_lower = a; ctype_upper = a + 16; ctype_b = a + 32; memset(sh(a), CONC, 48);
    u64 t1 = a + 64, t2 = t1 + 384 * 4 + 64, t3 = t2 + 384 * 4 + 64; gtop = t3 + 384 * 2 + 64;
    memset(sh(t1), CONC, 384 * 4); memset(sh(t2), CONC, 384 * 4); memset(sh(t3), CONC, 384 * 2);
    memcpy((void *)t1, *__ctype_tolower_loc() - 128, 384 * 4); memcpy((void *)t2, *__ctype_toupper_loc() - 128, 384 * 4); memcpy((void *)t3, *__ctype_b_loc() - 128, 384 * 2);
    u64 p = t1 + 128 * 4; memcpy((void *)ctype_lower, &p, 8); p = t2 + 128 * 4; memcpy((void *)ctype_upper, &p, 8); p = t3 + 128 * 2; memcpy((void *)ctype_b, &p, 8);
  }
  Function *EF = M->getFunction(entry);
  if (!EF || EF->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry); return 3; }
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    zinit();
    pushframe(fmap[EF], {});
    explore();
  }
  setpgid(pid, pid);
  static volatile sig_atomic_t term;
  signal(SIGTERM, [](int) { term = 1; });
  bool killed = false;
  for (;;) {
    int st; pid_t p = waitpid(pid, &st, WNOHANG);
    if (p == pid) { if (WIFSIGNALED(st)) { S->engine_error = 1; snprintf(S->engine_msg, 400, "root process killed by signal %d", WTERMSIG(st)); } break; }
    if (now() - t_start > opt_deadline) { S->deadline_hit = 1; S->stop = 1; }
    if (now() - t_start > opt_deadline + 20) { kill(-pid, SIGKILL); killed = true; waitpid(pid, &st, 0); break; }
    if (term) { kill(-pid, SIGKILL); waitpid(pid, &st, 0); _exit(4); }
    usleep(2000);
  }
  kill(-pid, SIGKILL);
  if (killed) { S->deadline_hit = 1; }
  if (S->deadline_hit && !S->incomplete) set_incomplete("deadline");
  FILE *f = out ? fopen(out, "w") : stdout;
  fprintf(f, "{\n \"paths\": %llu, \"paths_assumed_away\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu,\n", (unsigned long long)S->paths, (unsigned long long)S->paths_assumed_away, (unsigned long long)S->queries, (unsigned long long)S->q_sat, (unsigned long long)S->q_unsat, (unsigned long long)S->q_unknown);
  fprintf(f, " \"solver_s\": %.3f, \"solver_max_s\": %.3f, \"wall_s\": %.3f, \"forks\": %llu, \"instrs\": %llu, \"asserts_symbolic\": %llu, \"asserts_concrete\": %llu, \"branches_symbolic\": %llu, \"concretisations\": %llu, \"max_depth\": %llu, \"core_hits\": %llu,\n", S->solver_us / 1e6, S->solver_max_us / 1e6, now() - t_start, (unsigned long long)S->forks, (unsigned long long)S->instrs, (unsigned long long)S->asserts_symbolic, (unsigned long long)S->asserts_concrete, (unsigned long long)S->branches_symbolic, (unsigned long long)S->concretisations, (unsigned long long)S->max_depth, (unsigned long long)S->core_hits);
  fprintf(f, " \"deadline_hit\": %d, \"incomplete\": %d, \"incomplete_msg\": ", (int)S->deadline_hit, (int)S->incomplete); jstr(f, S->incomplete_msg);
  fprintf(f, ",\n \"engine_error\": %d, \"engine_msg\": ", (int)S->engine_error); jstr(f, S->engine_msg);
  fprintf(f, ",\n \"functions\": [");
  bool first = true;
  for (auto &x : fns) if (S->fexec[x.id]) { fprintf(f, "%s", first ? "" : ","); jstr(f, x.F->getName().str().c_str()); first = false; }
  fprintf(f, "],\n \"functions_symbolic\": ["); first = true;
  for (auto &x : fns) if (S->fsym[x.id]) { fprintf(f, "%s", first ? "" : ","); jstr(f, x.F->getName().str().c_str()); first = false; }
  fprintf(f, "],\n \"covers\": {"); first = true;
  for (int i = 0; i < MAXCOV; i++) if (S->cover[i]) { fprintf(f, "%s\"%d\": %llu", first ? "" : ",", i, (unsigned long long)S->cover[i]); first = false; }
  fprintf(f, "},\n \"samples\": ["); int ns = S->nsamples < NSAMP ? (int)S->nsamples : NSAMP;
  for (int i = 0; i < ns; i++) { if (i) fputc(',', f); jstr(f, S->sample[i]); }
  fprintf(f, "],\n \"violations\": ["); int nv = S->nviol < MAXV ? (int)S->nviol : MAXV;
  for (int i = 0; i < nv; i++) { fprintf(f, "%s{\"kind\": ", i ? "," : ""); jstr(f, S->v[i].kind); fprintf(f, ", \"msg\": "); jstr(f, S->v[i].msg); fprintf(f, ", \"where\": "); jstr(f, S->v[i].where); fprintf(f, ", \"inputs\": "); jstr(f, S->v[i].inputs); fprintf(f, "}"); }
  fprintf(f, "]\n}\n");
  if (out) fclose(f);
  return S->engine_error ? 3 : nv ? 1 : 0;
}

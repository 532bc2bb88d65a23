/* Workloads for C21: one of the shipped example programs, its own task code run inside the simulation, its answer
 * compared with a sequential reference.  BENCH names the program, BENCH_SRC its source file. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <getopt.h>
#include <alloca.h>
#define B_FIB 1
#define B_QUEENS 2
#define B_MATMUL 3
#define B_CILKSORT 4
#define B_STRASSEN 5
#define B_UTS 6
#define B_DFS 7
#define B_KNAPSACK 8
#define B_PI 9
#define main bench_main
#include BENCH_SRC
#undef main
#define Node SimNode
#include "sim.h"
#undef Node
#ifdef __cplusplus
extern "C" {
#endif
extern const int work_hwloc = 0, work_pie = LACE_PIE_TIMES, work_maxarity = 6, work_counts = 0;
extern const char work_variant[] = VARIANT;
void sim_file(const char *name, const char *content);
void work_crowd(int j) { (void)j; }
void work_ext(int thr) { (void)thr; }
#ifdef __cplusplus
}
#endif
#define NOSIM __attribute__((no_sanitize("thread"), noinline))
static u64 rs_;
NOSIM static u64 rnd(void) { rs_ = mixh(rs_, 0x51ED270B); return rs_ >> 11; }
static void bad(const char *what, double got, double want) { h_fail("wrong-answer", "%s: got %.17g, sequential execution gives %.17g", what, got, want); }
#define RUN3(op, ...) ((op) == X_RUN ? RUN(__VA_ARGS__) : (op) == X_RUNEX ? RUNEX(__VA_ARGS__) : NEWFRAME(__VA_ARGS__))
#define VRUN3(op, ...) do { if ((op) == X_RUN) RUN(__VA_ARGS__); else if ((op) == X_RUNEX) RUNEX(__VA_ARGS__); else NEWFRAME(__VA_ARGS__); } while (0)

/* a: size, b: a few more parameter bits */
#if BENCH == B_FIB
NOSIM static int seq_fib(int n) { int a = 0, b = 1; while (n--) { int c = a+b; a = b; b = c; } return a; }
static void one(int op, int a, int b) { int n = a % 14; (void)b; int r = RUN3(op, pfib, n); if (r != seq_fib(n)) bad("fib", r, seq_fib(n)); }
static void margs(int a, int b, char *o) { (void)b; sprintf(o, "%d", a % 12); }
static double mwant(int a, int b) { (void)b; return seq_fib(a % 12); }
static const char *mlabel = ") = ";
#elif BENCH == B_QUEENS
static const int Q[] = { 1,1,0,0,2,10,4,40 };
static void one(int op, int a, int b) { int n = a % 7; (void)b; char *m = (char*)alloca(n+1); long r = RUN3(op, nqueens, n, 0, m); if (r != Q[n]) bad("queens", r, Q[n]); }
static void margs(int a, int b, char *o) { (void)b; sprintf(o, "%d", 1 + a % 5); }
static double mwant(int a, int b) { (void)b; return Q[1 + a % 5]; }
static const char *mlabel = ") = ";
#elif BENCH == B_MATMUL
static void one(int op, int a, int b)
{
  int m = 1 + a % 40, n = 1 + (a/40) % 30, p = 1 + (a/1200) % 40, add = b & 1; if (m+n+p <= 64 && (b & 2)) m = 66-n-p > m ? 66-n-p : m;
  int ld = m; if (n > ld) ld = n; if (p > ld) ld = p;
  REAL *A = (REAL*)malloc(sizeof(REAL)*ld*ld), *B = (REAL*)malloc(sizeof(REAL)*ld*ld), *C = (REAL*)malloc(sizeof(REAL)*ld*ld); static double a0[80*80], b0[80*80];
  for (int k=0; k<ld*ld; k++) { u64 v = rnd(); A[k] = a0[k] = (double)(v % 17); B[k] = b0[k] = (double)(v/17 % 13); C[k] = 3; }
  VRUN3(op, rec_matmul, A, B, C, m, n, p, ld, add);
  for (int i=0; i<m; i++) for (int j=0; j<p; j++) { extern double seq_mm(const double*, const double*, int, int, int, int); double w = seq_mm(a0, b0, i, j, n, ld) + (add ? 3 : 0); if (C[i*ld+j] != w) bad("matmul element", C[i*ld+j], w); }
  for (int i=0; i<ld; i++) for (int j=0; j<ld; j++) if ((i >= m || j >= p) && C[i*ld+j] != 3) bad("matmul element outside the product", C[i*ld+j], 3);
  free(A); free(B); free(C);
}
NOSIM double seq_mm(const double *a, const double *b, int i, int j, int n, int ld) { double s = 0; for (int k=0; k<n; k++) s += a[i*ld+k]*b[k*ld+j]; return s; }
static void margs(int a, int b, char *o) { (void)b; sprintf(o, "%d", 1 + a % 28); }
static double mwant(int a, int b) { (void)a; (void)b; return 0; }
static const char *mlabel = 0;
#elif BENCH == B_CILKSORT
NOSIM static int cmp(const void *x, const void *y) { ELM a = *(ELM*)x, b = *(ELM*)y; return a < b ? -1 : a > b; }
static void one(int op, int a, int b)
{
  long size = b & 4 ? 1 + a % 60 : 2000 + a % 6500; static ELM ref[9000];
  ELM *x = (ELM*)malloc(sizeof(ELM)*(size+1)), *t = (ELM*)malloc(sizeof(ELM)*(size+1)); long mod = b & 1 ? 7 : b & 2 ? size : 1L<<40;
  for (long k=0; k<size; k++) x[k] = ref[k] = b & 8 ? k : b & 16 ? size-k : (long)(rnd() % mod);
  qsort(ref, size, sizeof(ELM), cmp);
  VRUN3(op, cilksort, x, t, size);
  for (long k=0; k<size; k++) if (x[k] != ref[k]) { h_fail("wrong-answer", "cilksort of %ld: element %ld is %ld, sorted order has %ld", size, k, x[k], ref[k]); }
  free(x); free(t);
}
static void margs(int a, int b, char *o) { (void)b; sprintf(o, "%d", 1 + a % 3000); }
static double mwant(int a, int b) { (void)a; (void)b; return 0; }
static const char *mlabel = 0;
#elif BENCH == B_STRASSEN
NOSIM static double seq_el(const double *a, const double *b, int i, int j, int n) { double s = 0; for (int k=0; k<n; k++) s += a[i*n+k]*b[k*n+j]; return s; }
static void one(int op, int a, int b)
{
  int n = 16 << (a % 7 < 4 ? 0 : a % 7 < 6 ? 1 : 1); if (b & 1) n = 32; static double a0[64*64], b0[64*64];
  REAL *A = alloc_matrix(n), *B = alloc_matrix(n), *C = alloc_matrix(n);
  for (int k=0; k<n*n; k++) { u64 v = rnd(); A[k] = a0[k] = (double)(v % 11); B[k] = b0[k] = (double)(v/11 % 11); }
  VRUN3(op, OptimizedStrassenMultiply, C, A, B, n, n, n, n);
  for (int i=0; i<n; i++) for (int j=0; j<n; j++) { double w = seq_el(a0, b0, i, j, n); if (C[i*n+j] != w) bad("strassen element", C[i*n+j], w); }
  free(A); free(B); free(C);
}
static void margs(int a, int b, char *o) { (void)a; (void)b; strcpy(o, "-c 32"); }
static double mwant(int a, int b) { (void)a; (void)b; return 0; }
static const char *mlabel = 0;
#elif BENCH == B_UTS
static int seq_left;
static Result seq_uts(int depth, Node *p)
{
  if (--seq_left < 0) { Result z = { 0, 1000000, 0 }; return z; }
  Result r = { (counter_t)depth, 1, 0 }; Node q = *p; int n = uts_numChildren(&q), ct = uts_childType(&q);
  for (int i=0; i<n; i++) { Node c; c.type = ct; c.height = q.height+1; c.numChildren = -1; rng_spawn(q.state.state, c.state.state, i); Result x = seq_uts(depth+1, &c); if (x.maxdepth > r.maxdepth) r.maxdepth = x.maxdepth; r.size += x.size; r.leaves += x.leaves; }
  if (n <= 0) r.leaves = 1;
  return r;
}
static void params(int a, int b) { type = (tree_t)(b & 3); b_0 = type == BALANCED ? 1 + a % 3 : 2 + a % 3; rootId = a; gen_mx = 2 + a/8 % 3; shape_fn = (geoshape_t)(b/4 % 4); nonLeafBF = 2; nonLeafProb = 0.3; computeGranularity = 1; verbose = 1; }
static void one(int op, int a, int b)
{
  Node root, root2; params(a, b);
  uts_initRoot(&root2, type); seq_left = 250; Result w = seq_uts(0, &root2); if (w.size > 250) return;
  uts_initRoot(&root, type);
  Result r = RUN3(op, parTreeSearch, 0, &root);
  if (r.size != w.size) bad("uts tree size", r.size, w.size);
  if (r.leaves != w.leaves) bad("uts leaves", r.leaves, w.leaves);
  if (r.maxdepth != w.maxdepth) bad("uts depth", r.maxdepth, w.maxdepth);
}
static void margs(int a, int b, char *o) { (void)b; sprintf(o, "-t 3 -b 2 -d %d", 2 + a % 4); }
static double mwant(int a, int b) { (void)b; return (2 << (2 + a % 4)) - 1; }
static const char *mlabel = "Tree size = ";
#elif BENCH == B_DFS
NOSIM static int seq_loop(int n) { unsigned s = 0; for (int i=0; i<n; i++) { s += i; s *= i; s ^= i; s *= i; s += i; } return (int)s; }
static void one(int op, int a, int b)
{
  int d = a % 5; w = 1 + b % 4; n = a/5 % 20; if (d == 4 && w > 3) w = 3;
  int r = RUN3(op, tree, d), want = d ? 0 : seq_loop(n); if (r != want) bad("dfs", r, want);
}
static void margs(int a, int b, char *o) { sprintf(o, "%d %d 5 %d", a % 4, 1 + b % 3, 1 + b/4 % 3); }
static double mwant(int a, int b) { (void)a; (void)b; return 0; }
static const char *mlabel = 0;
#elif BENCH == B_KNAPSACK
static int kv[16], kw[16];
NOSIM static int seq_knap(int n, int cap) { int best = 0; for (int s=0; s<1<<n; s++) { int v = 0, w = 0; for (int k=0; k<n; k++) if (s >> k & 1) { v += kv[k]; w += kw[k]; } if (w <= cap && v > best) best = v; } return best; }
NOSIM static int items(int a, int b, int *cap) { int n = 1 + a % 8, t = 0; rs_ = mixh(a, b); for (int k=0; k<n; k++) { kv[k] = 1 + rnd() % 50; kw[k] = 1 + rnd() % 20; t += kw[k]; } *cap = 1 + rnd() % t; return n; }
static void one(int op, int a, int b)
{
  int cap, n = items(a, b, &cap); struct item *e = (struct item*)malloc(sizeof(struct item)*(n+1));
  for (int k=0; k<n; k++) { e[k].value = kv[k]; e[k].weight = kw[k]; }
  e[n].value = 0; e[n].weight = 1;
  int r = RUN3(op, knapsack, e, cap, n, 0); if (r != seq_knap(n, cap)) bad("knapsack", r, seq_knap(n, cap));
  free(e);
}
NOSIM static void margs(int a, int b, char *o) { int cap, n = items(a, b, &cap); char t[600]; int p = sprintf(t, "%d %d\n", n, cap); for (int k=0; k<n; k++) p += sprintf(t+p, "%d %d\n", kv[k], kw[k]); sim_file("items.txt", t); strcpy(o, "items.txt"); }
static double mwant(int a, int b) { int cap, n = items(a, b, &cap); return seq_knap(n, cap); }
static const char *mlabel = "Best value is ";
#elif BENCH == B_PI
static void one(int op, int a, int b) { long n = 1 + a % 120; (void)b; u64 r = RUN3(op, pi_mc, 0, n); if (r > (u64)n) bad("pi hits", r, n); }
static void margs(int a, int b, char *o) { (void)b; sprintf(o, "%d", 1 + a % 100); }
static double mwant(int a, int b) { (void)a; (void)b; return 0; }
static const char *mlabel = 0;
#endif

#ifdef __cplusplus
extern "C" {
#endif
NOSIM static void whole(int s, int a, int b)
{
  static char buf[20][40]; char *av[24]; int n = 0; char x[200], *save = 0; char prog[] = "prog";
  u32 m = R->outlen;
  av[n++] = prog; sprintf(buf[0], "-w"); av[n++] = buf[0]; sprintf(buf[1], "%d", h_sess_nw(s)); av[n++] = buf[1];
  sprintf(buf[2], "-q"); av[n++] = buf[2]; sprintf(buf[3], "%d", (int)h_sess_dq(s, 64)); av[n++] = buf[3];
  margs(a, b, x);
  for (char *t = strtok_r(x, " ", &save); t; t = strtok_r(0, " ", &save)) { strcpy(buf[n], t); av[n] = buf[n]; n++; }
  av[n] = 0; optind = 0;
  int r = bench_main(n, av);
  if (r) h_fail("wrong-answer", "%s: main ends with status %d%s", VARIANT, r, R->outlen == m ? " and has printed nothing" : "");
  if (mlabel) { const char *p = strstr(R->out+m, mlabel); double v = p ? atof(p+strlen(mlabel)) : -1; if (!p || v != mwant(a, b)) bad("printed result", v, mwant(a, b)); }
  if (strstr(R->out+m, "WRONG") || strstr(R->out+m, "Wrong")) h_fail("wrong-answer", "the program reports a wrong result");
}
void work_main(void)
{
  for (int s=0; s<h_nsess(); s++) {
    Op o; int started = 0, whole_done = 0;
    h_session_begin(s);
    while (h_sess_nscripts(s) > 0 && h_xnext(0, &o)) {
      rs_ = mixh(o.a, o.b);
      if (o.op == X_T0) { if (!started) { whole(s, o.a, o.b); whole_done = 1; } continue; }
      if (whole_done) continue;
      if (!started) { started = 1; lace_start((unsigned)h_sess_nw(s), h_sess_dq(s, 64)); h_session_started(s, lace_workers()); }
      if (o.op == X_SUSPEND) { lace_suspend(); lace_resume(); continue; }
      one(o.op, o.a, o.b); R->runs++;
    }
    h_session_stopping(s);
    if (started) lace_stop();
    h_session_end(s);
  }
}
#ifdef __cplusplus
}
#endif

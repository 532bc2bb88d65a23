/* Deterministic simulator runtime.
 *
 * Everything that /repo's code and the workloads do to shared memory, threads, semaphores, mutexes, condition
 * variables, clocks, the allocator and stdio arrives here: memory accesses through the compiler's thread-sanitizer
 * hooks (whose runtime this file replaces), library calls through renamed symbols (see build.py).  Threads are
 * coroutines on one OS thread; a seeded scheduler decides every switch, store delay and fault. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <link.h>
#include <time.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/ucontext.h>
#include <pthread.h>
#include <semaphore.h>
#include "sim.h"

#define NOI __attribute__((noinline))
#define HOT __attribute__((hot))
#define CFA() ((uintptr_t)__builtin_frame_address(0)+16)
#define PC()  ((u32)(uintptr_t)__builtin_return_address(0))

Res *R; Cfg C; Prog P; Rec *replay_rec; u32 replay_n; int sim_verbose;

/* ------------------------------------------------------------------ address space */
#define ARENA   ((uintptr_t)0x100000000000ULL)
#define ARENASZ ((size_t)4<<30)
#define HEAPSZ  ((size_t)2<<30)
#define STKBASE (ARENA+HEAPSZ)
#define STKSZ   ((size_t)4<<20)
#define SHARENA ((uintptr_t)0x200000000000ULL)
typedef struct { u32 pc; u16 tid; u8 fl; u8 al; } Sh;      /* one per 8 bytes */
static u64 bound_extra;   /* added to the bound: loops over memory make progress with everything they write for the first time or read */
enum { F_SHARED=1, F_WRITTEN=2 };
static Sh *sh_data; static uintptr_t data_lo, data_hi;
static uintptr_t heap_top;
typedef struct { uintptr_t p; size_t n; int live; int tid; u64 step; int perm; } Blk;
static Blk *blks; static int nblks, capblks;

static inline Sh *shadow(uintptr_t a)
{
  if (a-ARENA < ARENASZ) return (Sh*)(SHARENA + ((a-ARENA)&~(uintptr_t)7));
  if (a-data_lo < data_hi-data_lo) return &sh_data[(a-data_lo)>>3];
  return 0;
}

/* ------------------------------------------------------------------ threads */
typedef struct { uintptr_t a; u8 sz, pend, alive; u8 nw[16], old[16]; u64 deadline; } Ent;
#define SBCAP 64
enum { T_RUN=1, T_BLOCK, T_DONE };
typedef struct {
  void *sp; uintptr_t cfa, stk_lo, stk_hi;
  u8 *tls; int err;
  int st, frozen, joiner, detached, reaped, role; size_t stack_sz;
  void *wobj; int wkind, wok;                    /* blocked on */
  u64 wake_step; int wake_kind; u64 wake_ns;
  int (*cond)(void*); void *carg;
  u32 lstep; u32 runlen, spin; u64 stall_until; uintptr_t hold_addr; u64 hold_until; uintptr_t win_addr; int win_k, win_any;
  int prio;
  Ent sb[SBCAP]; int nsb;                        /* sb[0] oldest */
  void *(*fn)(void*); void *arg; void (*efn)(int); int earg; void *ret;
  u32 rp;                                        /* replay cursor */
  void *keys[32];
  int lastw;
} Thr;
static Thr T[MAXT]; static int nT, cur; static Thr *me = T;
static void *main_sp;
static uintptr_t cur_cfa;
static u64 step, next_flush = ~0ULL, next_wake = ~0ULL;
static int in_fair, anysb;
static u64 hash = 1469598103934665603ULL, ihash = 14695981039346656037ULL;
static u64 simns_base = 1000000000ULL, clk_jump;
static u8 *tls_base; static size_t tls_size;
static int frozen_any;
static int finishing;

u64 mixh(u64 a, u64 b) { a ^= b + 0x9e3779b97f4a7c15ULL + (a<<6) + (a>>2); a *= 0xff51afd7ed558ccdULL; a ^= a>>33; return a; }

/* ------------------------------------------------------------------ PRNG */
typedef struct { u64 s; } Rng;
static Rng rs, rfair, rapp;
static inline u64 rnext(Rng *r) { u64 z = (r->s += 0x9e3779b97f4a7c15ULL); z = (z^(z>>30))*0xbf58476d1ce4e5b9ULL; z = (z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static inline u32 rbelow(Rng *r, u32 n) { return (u32)(((rnext(r)>>32)*n)>>32); }
u64 sim_rand(void) { return rnext(&rapp); }

/* ------------------------------------------------------------------ failing / finishing */
extern void oracle_finish(void);
void sim_log(const char *fmt, ...)
{
  if (!sim_verbose) return;
  va_list ap; va_start(ap, fmt);
  fprintf(stderr, "[%8lu t%02d.%u] ", (unsigned long)step, cur, me->lstep);
  vfprintf(stderr, fmt, ap); fputc('\n', stderr);
  va_end(ap);
}
static void sync_stats(void)
{
  R->hash = mixh(hash, ihash); R->ihash = ihash; R->steps = step; R->nthreads = nT; R->viol_tid = cur; R->viol_step = step;
  R->simns = step*2 + clk_jump;
}
void sim_finish(int status)
{
  finishing = 1;
  sync_stats();
  if (R->status == 0) R->status = status;
  _exit(0);
}
void h_fail(const char *cls, const char *fmt, ...)
{
  if (finishing) _exit(0);
  finishing = 1;
  va_list ap; va_start(ap, fmt);
  snprintf(R->cls, sizeof R->cls, "%s", cls);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  va_end(ap);
  if (sim_verbose) fprintf(stderr, "[%8lu t%02d.%u] VIOLATION %s: %s\n", (unsigned long)step, cur, me->lstep, R->cls, R->msg);
  sync_stats();
  R->status = 2;
  _exit(0);
}
static void harness_error(const char *m)
{
  finishing = 1;
  snprintf(R->cls, sizeof R->cls, "harness"); snprintf(R->msg, sizeof R->msg, "%s", m);
  sync_stats(); R->status = 3; _exit(0);
}

/* ------------------------------------------------------------------ decisions (recorded / replayed) */
static void rec_add(int kind, u32 param)
{
  if (in_fair) return;
  if (R->nrec < MAXREC) { Rec *r = &R->rec[R->nrec++]; r->tid = cur; r->kind = kind; r->lstep = me->lstep; r->param = param; }
  else harness_error("too many recorded decisions");
}
static Rec **rp_idx; static u32 *rp_cnt;        /* replay: per thread sorted lists */
static int rep_get(int kind, u32 *param)
{
  if (cur >= MAXT) return 0;
  Rec *l = rp_idx[cur]; u32 n = rp_cnt[cur];
  u32 k = me->rp;
  while (k < n && l[k].lstep < me->lstep) k++;
  me->rp = k;
  for (; k < n && l[k].lstep == me->lstep; k++) if (l[k].kind == kind) { *param = l[k].param; return 1; }
  return 0;
}
/* a fault decision with default "no": p in 1/10000 */
static int fault(int kind, int p, u32 *param, u32 range)
{
  if (in_fair) return 0;
  if (C.replay) { if (rep_get(kind, param)) { R->fired[kind]++; return 1; } return 0; }
  if (p <= 0 || (int)rbelow(&rs, 10000) >= p) return 0;
  *param = range ? rbelow(&rs, range)+1 : 0;
  rec_add(kind, *param);
  R->fired[kind]++;
  return 1;
}

/* ------------------------------------------------------------------ store buffers (x86-TSO) */
static inline void finalize_pending(void)
{
  if (me->nsb) { Ent *e = &me->sb[me->nsb-1]; if (e->pend) { memcpy(e->nw, (void*)e->a, e->sz); e->pend = 0; } }
}
static void sb_undo(Thr *t)
{
  for (int i=t->nsb-1; i>=0; i--) {
    Ent *e = &t->sb[i];
    u8 *m = (u8*)e->a;
    int dead = e->a >= t->stk_lo && e->a < t->cfa;
    if (dead) { e->sz = 0; continue; }             /* its frame has returned; the memory now belongs to other frames */
    for (int b=0; b<e->sz; b++) {
      if (m[b] != e->nw[b]) { e->old[b] = m[b]; e->nw[b] = m[b]; }   /* overwritten by a spill */
      else m[b] = e->old[b];
    }
  }
}
static void sb_redo(Thr *t)
{
  for (int i=0; i<t->nsb; i++) {
    Ent *e = &t->sb[i];
    u8 *m = (u8*)e->a;
    for (int b=0; b<e->sz; b++) { e->old[b] = m[b]; m[b] = e->nw[b]; }
  }
}
static void dead_check(Thr *owner, Ent *e);
static void recompute_flush(void)
{
  next_flush = ~0ULL; anysb = 0;
  for (int i=0; i<nT; i++) if (T[i].nsb) { anysb = 1; if (T[i].sb[0].deadline < next_flush) next_flush = T[i].sb[0].deadline; }
}
static void pop_oldest(Thr *t) { t->nsb--; memmove(t->sb, t->sb+1, t->nsb*sizeof(Ent)); }
static void flush_oldest(Thr *t)
{
  Ent e = t->sb[0];
  if (t == me) {                     /* memory already shows it: just becomes global.  Newer own entries overlapping: their old = its new */
    for (int b=0; b<e.sz; b++) {
      for (int k=1; k<t->nsb; k++) {
        Ent *f = &t->sb[k];
        if (e.a+b >= f->a && e.a+b < f->a+f->sz) break;      /* first newer overlap already has old == e.nw (view order) */
      }
    }
    pop_oldest(t);
    return;
  }
  dead_check(t, &e);
  for (int b=0; b<e.sz; b++) {
    uintptr_t a = e.a+b; int done = 0;
    for (int k=0; k<me->nsb; k++) {
      Ent *f = &me->sb[k];
      if (a >= f->a && a < f->a+f->sz) { f->old[a-f->a] = e.nw[b]; done = 1; break; }
    }
    if (!done) *(u8*)a = e.nw[b];
  }
  pop_oldest(t);
}
static void do_flushes(void)
{
  finalize_pending();
  for (int i=0; i<nT; i++) while (T[i].nsb && T[i].sb[0].deadline <= step) flush_oldest(&T[i]);
  recompute_flush();
}
static void drain(void)
{
  if (!me->nsb) return;
  finalize_pending();
  me->nsb = 0;
  R->drains++;
  recompute_flush();
}
static void sb_push(uintptr_t a, int sz, u64 delay, const u8 *nw)
{
  if (me->nsb >= C.sb_cap || me->nsb >= SBCAP) { finalize_pending(); flush_oldest(me); }
  Ent *e = &me->sb[me->nsb++];
  e->a = a; e->sz = sz; e->alive = 1;
  memcpy(e->old, (void*)a, sz);
  if (nw) { memcpy(e->nw, nw, sz); e->pend = 0; } else e->pend = 1;
  e->deadline = step + delay;
  if (me->nsb > 1 && me->sb[me->nsb-2].deadline > e->deadline) e->deadline = me->sb[me->nsb-2].deadline;
  anysb = 1;
  if (me->sb[0].deadline < next_flush) next_flush = me->sb[0].deadline;
}

/* ------------------------------------------------------------------ happens-before (C11), kept in runs without store delays */
#define HBT 20
static int hb_on;
static u32 hb_vc[HBT][HBT], hb_fr[HBT][HBT], hb_ap[HBT][HBT];
typedef struct { uintptr_t a; int head; u32 v[HBT]; } HbL;          /* head: thread of the last release store, +1 */
#define HBL 8192
static HbL *hb_tab; static int hb_n;
static HbL *hb_loc(uintptr_t g)
{
  u32 i = (u32)((g * 0x9E3779B97F4A7C15ULL) >> 40) & (HBL-1);
  for (;; i = (i+1) & (HBL-1)) {
    if (hb_tab[i].a == g) return &hb_tab[i];
    if (!hb_tab[i].a) { if (++hb_n > HBL*3/4) { hb_on = 0; hb_n = 0; } hb_tab[i].a = g; return &hb_tab[i]; }
  }
}
static inline void hb_max(u32 *d, const u32 *s) { for (int i=0; i<nT; i++) if (s[i] > d[i]) d[i] = s[i]; }
#define HB_ACQ(mo) ((mo) != __ATOMIC_RELAXED && (mo) != __ATOMIC_RELEASE)
#define HB_REL(mo) ((mo) == __ATOMIC_RELEASE || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
/* what: 1 load, 2 store, 3 read-modify-write */
static void hb_access(uintptr_t a, int sz, int what, int mo)
{
  for (uintptr_t g = a>>2; g <= (a+sz-1)>>2; g++) {
    HbL *l = hb_loc(g); if (!hb_on) return;
    if (what & 1) { hb_max(hb_ap[cur], l->v); if (HB_ACQ(mo)) hb_max(hb_vc[cur], l->v); }
    if (what & 2) { u32 *v = HB_REL(mo) ? hb_vc[cur] : hb_fr[cur]; 
      if (what == 3 || (!HB_REL(mo) && l->head == cur+1)) hb_max(l->v, v); else memcpy(l->v, v, sizeof l->v);   /* a store by the same thread continues its release sequence (C11 5.1.2.4) */
      if (HB_REL(mo)) l->head = cur+1; else if (what == 2 && l->head != cur+1) l->head = 0; }
  }
  if ((what & 2) && HB_REL(mo)) hb_vc[cur][cur]++;
}
static inline void hb_at(uintptr_t a, int sz, int what, int mo) { if (__builtin_expect(hb_on, 1)) hb_access(a, sz, what, mo); }
static inline void hb_fence(int mo)
{
  if (!hb_on) return;
  if (HB_ACQ(mo)) hb_max(hb_vc[cur], hb_ap[cur]);
  if (HB_REL(mo)) { memcpy(hb_fr[cur], hb_vc[cur], sizeof hb_fr[cur]); hb_vc[cur][cur]++; }
}
/* library objects: what 1 acquires, 2 releases */
static inline void hb_obj(void *o, int what) { if (hb_on) hb_access((uintptr_t)o | ((uintptr_t)1<<60), 4, what == 2 ? 3 : what, what == 1 ? __ATOMIC_ACQUIRE : __ATOMIC_RELEASE); }
int sim_hb(void) { return hb_on; }
u32 sim_hb_now(void) { return hb_on ? hb_vc[cur][cur] : 0; }
/* does the event of thread t at clock c happen before now? */
int sim_hb_before(int t, u32 c) { return !hb_on || t < 0 || t >= HBT || t == cur || hb_vc[cur][t] >= c; }

/* ------------------------------------------------------------------ context switch */
void sim_ctx(void **save, void *load);
__asm__(
".text\n.globl sim_ctx\n.type sim_ctx,@function\nsim_ctx:\n"
" pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
" movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
" popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n.size sim_ctx,.-sim_ctx\n");

static void switch_to(int n)
{
  if (n == cur) return;
  Thr *o = me, *t = &T[n];
  R->nsw++; sim_log("switch to t%d", n);
  o->cfa = cur_cfa;
  if (o->st == T_DONE) o->cfa = o->stk_hi;
  finalize_pending();
  if (o->nsb) sb_undo(o);
  memcpy(o->tls, tls_base, tls_size); o->err = errno;
  memcpy(tls_base, t->tls, tls_size); errno = t->err;
  cur = n; me = t; t->runlen = t->spin = 0;
  if (t->nsb) sb_redo(t);
  cur_cfa = t->cfa;
  sim_ctx(&o->sp, t->sp);
}

/* ------------------------------------------------------------------ scheduler */
static int wakeable(Thr *t)
{
  if (t->wok) return 1;
  if (t->wake_step && step >= t->wake_step) return 1;
  if (t->cond && t->cond(t->carg)) return 1;
  return 0;
}
static inline int runnable(Thr *t)
{
  if (t->frozen) return 0;
  if (t->st == T_RUN) return 1;
  if (t->st == T_BLOCK) return wakeable(t);
  return 0;
}
static int runnables(int *l) { int n=0; for (int i=0; i<nT; i++) if (runnable(&T[i])) l[n++] = i; return n; }
static int rr_next(void) { for (int k=1; k<=nT; k++) { int i = (cur+k)%nT; if (runnable(&T[i])) return i; } return -1; }

static int s_cd_int, s_cd_un; static int s_burst; static int pct_change[16], n_change, pct_low; static u64 isteps;
static int fair_q;
enum { S_RAND=0, S_PCT, S_BURST, S_RACE, S_NONE, S_WIN };
static int win_wake; static u32 win_m, win_r, win_p;
static int geom(int mean) { int n = 1; if (mean <= 1) return 1; /* approx geometric */ u64 r = rnext(&rs); double u = (double)((r>>11)+1)/9007199254740993.0; double x = -__builtin_log(u)*mean; n = (int)x+1; if (n < 1) n = 1; if (n > mean*20) n = mean*20; return n; }
static void sched_init(void)
{
  s_cd_int = C.p_int > 0 ? geom(10000/C.p_int) : 1<<30;
  s_cd_un  = C.p_unint > 0 ? geom(10000/C.p_unint) : 1<<30;
  s_burst = C.burst_long > 0 ? geom(C.burst_long) : 1<<30;
  n_change = C.pct_d > 16 ? 16 : C.pct_d;
  for (int i=0; i<n_change; i++) pct_change[i] = rbelow(&rs, C.pct_len > 0 ? C.pct_len : 1000);
  pct_low = 0;
  static const u32 wm[] = { 1, 8, 32, 128 };
  win_wake = 0; win_m = wm[rbelow(&rs, 4)]; win_r = rbelow(&rs, win_m); win_p = win_m == 1 ? 1+rbelow(&rs, 60) : 200+rbelow(&rs, 800);
}
/* "window" strategy: right after an access at one of the sites this run aims at, keep the thread out until others have
   accessed that location a few times (or for a while), so that what it has just learned is out of date when it goes on */
static NOI void win_after(uintptr_t a, int wr, u32 pc)
{
  if (C.replay || in_fair) return;
  uintptr_t c = a>>3;
  for (int i=0; i<nT; i++) if (i != cur && T[i].win_k && T[i].win_addr == c && (wr || T[i].win_any)) {
    if (T[i].hold_until <= step) T[i].win_k = 0;
    else if (--T[i].win_k == 0) { T[i].hold_until = 0; if (rbelow(&rs, 2)) win_wake = i+1; }
  }
  if ((u32)(((u64)pc * 0x9E3779B97F4A7C15ULL) >> 40) % win_m != win_r || rbelow(&rs, 1000) >= win_p || nT < 2) return;
  u32 k = rbelow(&rs, 8);
  me->win_addr = c; me->win_any = wr; me->win_k = k == 7 ? 0 : k < 3 ? 1 : k < 5 ? 2 : 3+rbelow(&rs, 4);
  me->hold_until = step + 20 + rbelow(&rs, C.race_q > 0 ? C.race_q : 1);
  R->stalls++;
}
#define WIN(a, wr, pc) do { if (__builtin_expect(C.strat == S_WIN, 0)) win_after(a, wr, pc); } while (0)
/* threads the overlay currently keeps out */
static int held(Thr *t) { return t->stall_until > step || t->hold_until > step; }
static int pick_random(int excl)
{
  int l[MAXT], m[MAXT], n = runnables(l), k = 0;
  for (int i=0; i<n; i++) if (l[i] != excl && !held(&T[l[i]])) m[k++] = l[i];
  if (k) return m[rbelow(&rs, k)];
  k = 0;
  for (int i=0; i<n; i++) if (l[i] != excl) m[k++] = l[i];
  if (k) return m[rbelow(&rs, k)];
  return n ? l[0] : -1;
}
static int pick_pct(void)
{
  int l[MAXT], n = runnables(l), b = -1;
  for (int i=0; i<n; i++) if (!held(&T[l[i]]) && (b < 0 || T[l[i]].prio > T[b].prio)) b = l[i];
  if (b < 0) for (int i=0; i<n; i++) if (b < 0 || T[l[i]].prio > T[b].prio) b = l[i];
  return b;
}
static int one_stalled(void) { for (int i=0; i<nT; i++) if (T[i].stall_until > step && T[i].st != T_DONE) return 1; return 0; }   /* very long stalls come one at a time */
static int last_rmw;   /* set by RMW hooks: next point follows a successful RMW */
static int strategy(int interesting, uintptr_t addr, int def)
{
  /* returns thread to run next; cur if no change */
  int want = cur;
  if (win_wake) { int w = win_wake-1; win_wake = 0; if (runnable(&T[w]) && !held(&T[w])) return w; }
  if (interesting) {
    isteps++;
    if (C.stall_p && (last_rmw ? rbelow(&rs, 1000) < (u32)C.stall_p*8 : rbelow(&rs, 1000) < (u32)C.stall_p) && rbelow(&rs,10)==0 && (C.stall_max <= 30000 || !one_stalled())) {
      me->stall_until = step + 1 + rbelow(&rs, C.stall_max > 0 ? C.stall_max : 1);
      R->stalls++;
    }
    last_rmw = 0;
  }
  if (held(me)) { int r = C.strat == S_PCT ? pick_pct() : pick_random(cur); if (r >= 0 && r != cur && !held(&T[r])) return r; }
  switch (C.strat) {
  case S_RAND: case S_WIN:
    if (interesting) { if (--s_cd_int <= 0) { s_cd_int = geom(10000/C.p_int); want = pick_random(cur); } }
    else if (--s_cd_un <= 0) { s_cd_un = C.p_unint > 0 ? geom(10000/C.p_unint) : 1<<30; want = pick_random(cur); }
    break;
  case S_PCT:
    if (interesting) {
      for (int i=0; i<n_change; i++) if ((u64)pct_change[i] == isteps) me->prio = --pct_low;
      if ((int)++me->spin > C.pct_spin) { me->prio = --pct_low; me->spin = 0; }
      want = pick_pct();
    } else if ((int)me->runlen > 20*C.pct_spin) { me->prio = --pct_low; want = pick_pct(); }
    break;
  case S_BURST:
    if (--s_burst <= 0) { s_burst = (rbelow(&rs, 4) == 0) ? geom(C.burst_long) : geom(C.burst_long/16+1); want = pick_random(cur); }
    break;
  case S_RACE:
    if (interesting) {
      int conflict = 0;
      for (int i=0; i<nT; i++) if (i != cur && T[i].hold_until > step && T[i].hold_addr == (addr>>3)) { T[i].hold_until = 0; conflict = i+1; }
      if (conflict) { if (rbelow(&rs, 2)) want = conflict-1; }
      else if (--s_cd_int <= 0) {
        s_cd_int = geom(10000/C.p_int);
        me->hold_addr = addr>>3; me->hold_until = step + 20 + rbelow(&rs, C.race_q > 0 ? C.race_q : 1);
        want = pick_random(cur);
      }
    } else if (--s_cd_un <= 0) { s_cd_un = C.p_unint > 0 ? geom(10000/C.p_unint) : 1<<30; want = pick_random(cur); }
    break;
  }
  if (want < 0) want = cur;
  if (want == cur && def != cur) want = C.strat == S_PCT ? cur : def;
  if (!runnable(&T[want])) want = def;
  return want;
}
static void enter_fair(void)
{
  in_fair = 1;
  for (int i=0; i<nT; i++) { T[i].stall_until = T[i].hold_until = 0; if (T[i].wake_kind == D_EINTR || T[i].wake_kind == D_SPUR) T[i].wake_step = 0; }
  for (int i=0; i<nT; i++) for (int k=0; k<T[i].nsb; k++) if (T[i].sb[k].deadline > step+50) T[i].sb[k].deadline = step+50;
  recompute_flush();
  R->fair_steps = step;
}
static void hang(void)
{
  static char b[300]; int n = 0;
  for (int i=0; i<nT && n < 250; i++) if (T[i].st != T_DONE) n += snprintf(b+n, sizeof b-n, " t%d:%s", i, T[i].frozen ? "frozen" : T[i].st == T_BLOCK ? "blocked" : "running");
  h_fail("no-progress", "no completion within %d steps after faults stopped:%s", C.bound, b);
}
HOT static inline void tick(void)
{
  step++; me->lstep++; me->runlen++;
  if (__builtin_expect(step >= next_flush, 0)) do_flushes();
  if (__builtin_expect(step >= (u64)C.chaos, 0)) {
    if (!in_fair) enter_fair();
    if (step >= (u64)C.chaos + C.bound + bound_extra) hang();
  }
}
static int choose(int interesting, uintptr_t addr)
{
  if (in_fair) {
    if ((int)me->runlen >= fair_q) { fair_q = 1 + rbelow(&rfair, 60); int r = rr_next(); return r < 0 ? cur : r; }
    return cur;
  }
  int def = cur;
  if ((int)me->runlen >= C.quantum) { int r = rr_next(); if (r >= 0) def = r; me->runlen = 0; }
  int want;
  if (C.replay) { u32 p; want = rep_get(D_SWITCH, &p) && p < (u32)nT && runnable(&T[p]) ? (int)p : def; }
  else { want = strategy(interesting, addr, def); if (want != def) rec_add(D_SWITCH, want); }
  return want;
}
HOT static inline void point(int interesting, uintptr_t addr)
{
  tick();
  if (nT > 1) { int n = choose(interesting, addr); if (n != cur) switch_to(n); }
}
static void deadlock(void)
{
  static char b[300]; int n = 0;
  for (int i=0; i<nT && n < 250; i++) if (T[i].st != T_DONE) n += snprintf(b+n, sizeof b-n, " t%d:%s(%s)", i, T[i].frozen ? "frozen" : "blocked", T[i].wkind == 1 ? "sem" : T[i].wkind == 2 ? "mutex" : T[i].wkind == 3 ? "cond" : T[i].wkind == 4 ? "join" : T[i].wkind == 6 ? "harness" : "?");
  h_fail("deadlock", "all threads blocked:%s", b);
}
/* current thread cannot continue: choose another.  Returns when current runs again. */
static void block_switch(void)
{
  for (;;) {
    tick();
    int def = rr_next();
    if (def < 0 || (def == cur && me->st == T_DONE)) {
      /* nobody runnable: jump to the next timed wake-up */
      u64 w = ~0ULL; 
      for (int i=0; i<nT; i++) if (T[i].st == T_BLOCK && !T[i].frozen && T[i].wake_step && T[i].wake_step < w) w = T[i].wake_step;
      if (w != ~0ULL) { if (w > step) step = w; do_flushes(); continue; }
      if (anysb) { for (int i=0; i<nT; i++) for (int k=0; k<T[i].nsb; k++) T[i].sb[k].deadline = step; do_flushes(); continue; }
      deadlock();
    }
    int want = def;
    if (!in_fair && nT > 1) {
      if (C.replay) { u32 p; if (rep_get(D_SWITCH, &p) && p < (u32)nT && runnable(&T[p])) want = p; }
      else { want = C.strat == S_PCT ? pick_pct() : pick_random(-1); if (want < 0) want = def; if (want != def) rec_add(D_SWITCH, want); }
    }
    if (want != cur) switch_to(want);
    if (me->st == T_BLOCK && wakeable(me)) { me->st = T_RUN; return; }
    if (me->st == T_RUN) return;
  }
}
/* block on (kind,obj); returns 1 if woken by the object, 0 if by the timed fault */
static int block_on(int kind, void *obj, int fkind, u32 fdelay)
{
  me->wobj = obj; me->wkind = kind; me->wok = 0; me->cond = 0;
  me->wake_step = fdelay ? step + fdelay : 0; me->wake_kind = fdelay ? fkind : 0;
  me->st = T_BLOCK;
  block_switch();
  int ok = me->wok;
  me->wobj = 0; me->wkind = 0; me->wok = 0; me->wake_step = 0; me->wake_kind = 0;
  return ok;
}
static void wake_all(int kind, void *obj) { for (int i=0; i<nT; i++) if (T[i].st == T_BLOCK && T[i].wkind == kind && T[i].wobj == obj) T[i].wok = 1; }

/* ------------------------------------------------------------------ accesses */
static NOI void bad_access(const char *cls, uintptr_t a, int sz, int wr, const char *what)
{
  h_fail(cls, "%s of %d bytes at %#lx: %s", wr ? "write" : "read", sz, (unsigned long)a, what);
}
static void dead_check(Thr *owner, Ent *e)
{
  /* a delayed store becoming visible: its target must still exist */
  Sh *s = shadow(e->a);
  if (e->a-STKBASE < MAXT*STKSZ) {
    int u = (e->a-STKBASE)/STKSZ;
    if (&T[u] == owner) return;
    int changed = 0; for (int b=0; b<e->sz; b++) if (e->nw[b] != e->old[b]) changed = 1;
    if (changed && (u >= nT || T[u].st == T_DONE || (u != cur && e->a < T[u].cfa) || (u == cur && e->a < cur_cfa))) h_fail("dead-stack", "delayed write lands in a stack frame of thread %d that has returned", u);
  } else if (s && e->a-ARENA < HEAPSZ && s->al == 0xFF) h_fail("use-after-free", "delayed write lands in freed memory %#lx", (unsigned long)e->a);
}
static u8 nullsh[16];
HOT static inline int touch(uintptr_t a, int sz, int wr, u32 pc, int *interesting)
{
  /* returns 0 if not tracked */
  if (__builtin_expect(a-ARENA < ARENASZ, 1)) {
    Sh *s = (Sh*)(SHARENA + ((a-ARENA)&~(uintptr_t)7));
    if (a < STKBASE) {
      int off = (a & 7) + sz;
      if (__builtin_expect(s->al != 8, 0)) {
        if (s->al == 0xFF) bad_access("use-after-free", a, sz, wr, "memory was freed");
        if (off > s->al) bad_access("out-of-bounds", a, sz, wr, "outside any allocated block");
      }
      if (off > 8) { Sh *s2 = (Sh*)(SHARENA + ((a+sz-1-ARENA)&~(uintptr_t)7)); if (s2->al != 8) { if (s2->al == 0xFF) bad_access("use-after-free", a, sz, wr, "memory was freed"); if ((int)((a+sz-1)&7) >= s2->al) bad_access("out-of-bounds", a, sz, wr, "runs past an allocated block"); } }
    } else {
      int u = (a-STKBASE)/STKSZ;
      if (u != cur) {
        if (u >= nT || T[u].st == T_DONE) bad_access("dead-stack", a, sz, wr, "stack of a thread that has ended");
        if (a < T[u].cfa) bad_access("dead-stack", a, sz, wr, "stack frame of another thread that has returned");
      } else if (a < cur_cfa) bad_access("dead-stack", a, sz, wr, "own stack frame that has returned");
    }
    int sharednow = 0;
    if (s->tid != cur+1) {
      if (s->tid) {
        s->fl |= F_SHARED; sharednow = 1;
        if (wr || (s->fl & F_WRITTEN)) { u64 h = (u64)s->pc*0x9E3779B97F4A7C15ULL ^ (u64)pc*0xC2B2AE3D27D4EB4FULL; h ^= h>>31; R->edges[(h>>6)&1023] |= 1ULL<<(h&63); }
      }
    }
    (void)sharednow;
    s->tid = cur+1; s->pc = pc;
    if (wr && !(s->fl & F_WRITTEN)) { s->fl |= F_WRITTEN; bound_extra += 64; }
    *interesting = s->fl == (F_SHARED|F_WRITTEN);
    return 1;
  }
  if (a-data_lo < data_hi-data_lo) {
    Sh *s = &sh_data[(a-data_lo)>>3];
    if (s->tid != cur+1 && s->tid) {
      s->fl |= F_SHARED;
      if (wr || (s->fl & F_WRITTEN)) { u64 h = (u64)s->pc*0x9E3779B97F4A7C15ULL ^ (u64)pc*0xC2B2AE3D27D4EB4FULL; h ^= h>>31; R->edges[(h>>6)&1023] |= 1ULL<<(h&63); }
    }
    s->tid = cur+1; s->pc = pc;
    if (wr && !(s->fl & F_WRITTEN)) { s->fl |= F_WRITTEN; bound_extra += 64; }
    *interesting = s->fl == (F_SHARED|F_WRITTEN);
    return 1;
  }
  if (a < 4096) h_fail("null-deref", "%s of %d bytes at address %#lx", wr ? "write" : "read", sz, (unsigned long)a);
  return 0;
}
HOT static inline void hmix(u64 v) { hash = (hash ^ v) * 0x9E3779B97F4A7C15ULL; hash ^= hash>>29; }
HOT static inline void imix(uintptr_t a, int k) { ihash = (ihash ^ ((u64)cur<<56) ^ ((u64)k<<52) ^ a) * 0xD6E8FEB86659FD93ULL; ihash ^= ihash>>32; }

HOT static inline void acc_read(uintptr_t a, int sz, uintptr_t cfa, u32 pc)
{
  cur_cfa = cfa; int in = 0;
  if (me->nsb) finalize_pending();
  if (!touch(a, sz, 0, pc, &in)) return;
  hmix(a ^ ((u64)pc<<32));
  point(in, a);
  if (in) { cur_cfa = cfa; touch(a, sz, 0, pc, &in); imix(a, 0); WIN(a, 0, pc); }
}
static u64 delay_amount(void) { u64 m = C.delay_max; u32 r = rbelow(&rs, 4); if (r == 0) return 1+rbelow(&rs, 8); if (r == 1) return 1+rbelow(&rs, 64); return 1+rbelow(&rs, m > 0 ? m : 1); }
HOT static inline int want_delay(u64 *d)
{
  /* stores that join a non-empty buffer must queue (FIFO) */
  u32 p = 0;
  if (!in_fair) {
    if (C.replay) { if (replay_n && rep_get(D_DELAY, &p)) { R->fired[D_DELAY]++; *d = p; return 1; } }
    else if (C.delay_p && (int)rbelow(&rs, 1000) < C.delay_p) { p = delay_amount(); rec_add(D_DELAY, p); R->fired[D_DELAY]++; *d = p; return 1; }
  }
  if (me->nsb) { *d = 0; return 1; }
  return 0;
}
HOT static inline void acc_write(uintptr_t a, int sz, uintptr_t cfa, u32 pc)
{
  cur_cfa = cfa; int in = 0;
  if (me->nsb) finalize_pending();
  if (!touch(a, sz, 1, pc, &in)) return;
  hmix(a ^ ((u64)pc<<32) ^ 1);
  point(in, a);
  if (in) { cur_cfa = cfa; touch(a, sz, 1, pc, &in); imix(a, 1); WIN(a, 1, pc); }
  u64 d;
  if ((C.delay_p || C.replay || me->nsb) && want_delay(&d)) sb_push(a, sz, d, 0);
}
#define ALIAS_UN(n) \
 void __tsan_read##n(void *a) { acc_read((uintptr_t)a, n, CFA(), PC()); } \
 void __tsan_write##n(void *a) { acc_write((uintptr_t)a, n, CFA(), PC()); } \
 void __tsan_unaligned_read##n(void *a) { acc_read((uintptr_t)a, n, CFA(), PC()); } \
 void __tsan_unaligned_write##n(void *a) { acc_write((uintptr_t)a, n, CFA(), PC()); } \
 void __tsan_volatile_read##n(void *a) { acc_read((uintptr_t)a, n, CFA(), PC()); } \
 void __tsan_volatile_write##n(void *a) { acc_write((uintptr_t)a, n, CFA(), PC()); } \
 void __tsan_read_write##n(void *a) { acc_read((uintptr_t)a, n, CFA(), PC()); acc_write((uintptr_t)a, n, CFA(), PC()); } \
 void __tsan_unaligned_read_write##n(void *a) { acc_read((uintptr_t)a, n, CFA(), PC()); acc_write((uintptr_t)a, n, CFA(), PC()); }
ALIAS_UN(1) ALIAS_UN(2) ALIAS_UN(4) ALIAS_UN(8) ALIAS_UN(16)
static void range(uintptr_t a, size_t n, int wr, uintptr_t cfa, u32 pc)
{
  cur_cfa = cfa;
  finalize_pending();
  if (!n) return;
  if (!shadow(a)) { if (a < 4096) h_fail("null-deref", "%s of %zu bytes at %#lx", wr ? "write" : "read", n, (unsigned long)a); return; }
  int any = 0, in;
  uintptr_t end = a+n, p = a;
  if (n > 4096) {            /* bulk: check both ends and all states, one scheduling point */
    for (; p < end; p += 8) { Sh *s = shadow(p); if (!s) break; if (p < STKBASE && p >= ARENA && s->al != 8 && s->al != 0xFF && p+8 <= end) bad_access("out-of-bounds", p, 8, wr, "range outside any allocated block"); if (s->al == 0xFF && p-ARENA < HEAPSZ) bad_access("use-after-free", p, 8, wr, "range in freed memory"); if (wr) s->fl |= F_WRITTEN; s->tid = cur+1; s->pc = pc; }
    if (wr && me->nsb) drain();
    hmix(a ^ n); point(0, a);
    return;
  }
  while (p < end) { size_t k = 8-(p&7); if (k > end-p) k = end-p; touch(p, k, wr, pc, &in); any |= in; p += k; }
  if (wr && me->nsb) drain();
  hmix(a ^ n ^ ((u64)pc<<32));
  point(any, a);
  cur_cfa = cfa;
  if (any) imix(a, 2+wr);
  if (any) for (p=a; p<end; ) { size_t k = 8-(p&7); if (k > end-p) k = end-p; touch(p, k, wr, pc, &in); p += k; }
}
void __tsan_read_range(void *a, unsigned long n) { range((uintptr_t)a, n, 0, CFA(), PC()); }
void __tsan_write_range(void *a, unsigned long n) { range((uintptr_t)a, n, 1, CFA(), PC()); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void *p) { (void)p; }
void __tsan_vptr_update(void **p, void *v) { (void)v; acc_write((uintptr_t)p, 8, CFA(), PC()); }
void __tsan_vptr_read(void **p) { acc_read((uintptr_t)p, 8, CFA(), PC()); }

/* atomics */
HOT static inline void at_pre(uintptr_t a, int sz, int wr, uintptr_t cfa, u32 pc)
{
  cur_cfa = cfa; int in = 0;
  if (me->nsb) finalize_pending();
  int tr = touch(a, sz, wr, pc, &in);
  hmix(a ^ ((u64)pc<<32) ^ 2);
  point(tr, a);
  cur_cfa = cfa;
  if (tr) { touch(a, sz, wr, pc, &in); imix(a, 4+wr); WIN(a, wr, pc); }
}
#define ATOM(n, t) \
t __tsan_atomic##n##_load(const volatile t *a, int mo) { at_pre((uintptr_t)a, n/8, 0, CFA(), PC()); hb_at((uintptr_t)a, n/8, 1, mo); return *a; } \
void __tsan_atomic##n##_store(volatile t *a, t v, int mo) { at_pre((uintptr_t)a, n/8, 1, CFA(), PC()); hb_at((uintptr_t)a, n/8, 2, mo); \
  if (mo == __ATOMIC_SEQ_CST) { drain(); *a = v; return; } \
  u64 d; if ((C.delay_p || C.replay || me->nsb) && shadow((uintptr_t)a) && want_delay(&d)) { sb_push((uintptr_t)a, n/8, d, (u8*)&v); *a = v; } else *a = v; } \
t __tsan_atomic##n##_exchange(volatile t *a, t v, int mo) { at_pre((uintptr_t)a, n/8, 1, CFA(), PC()); hb_at((uintptr_t)a, n/8, 3, mo); drain(); t o = *a; *a = v; last_rmw = 1; return o; } \
t __tsan_atomic##n##_fetch_add(volatile t *a, t v, int mo) { at_pre((uintptr_t)a, n/8, 1, CFA(), PC()); hb_at((uintptr_t)a, n/8, 3, mo); drain(); t o = *a; *a = o + v; last_rmw = 1; return o; } \
t __tsan_atomic##n##_fetch_sub(volatile t *a, t v, int mo) { at_pre((uintptr_t)a, n/8, 1, CFA(), PC()); hb_at((uintptr_t)a, n/8, 3, mo); drain(); t o = *a; *a = o - v; last_rmw = 1; return o; } \
t __tsan_atomic##n##_fetch_and(volatile t *a, t v, int mo) { at_pre((uintptr_t)a, n/8, 1, CFA(), PC()); hb_at((uintptr_t)a, n/8, 3, mo); drain(); t o = *a; *a = o & v; last_rmw = 1; return o; } \
t __tsan_atomic##n##_fetch_or(volatile t *a, t v, int mo) { at_pre((uintptr_t)a, n/8, 1, CFA(), PC()); hb_at((uintptr_t)a, n/8, 3, mo); drain(); t o = *a; *a = o | v; last_rmw = 1; return o; } \
t __tsan_atomic##n##_fetch_xor(volatile t *a, t v, int mo) { at_pre((uintptr_t)a, n/8, 1, CFA(), PC()); hb_at((uintptr_t)a, n/8, 3, mo); drain(); t o = *a; *a = o ^ v; last_rmw = 1; return o; } \
t __tsan_atomic##n##_fetch_nand(volatile t *a, t v, int mo) { at_pre((uintptr_t)a, n/8, 1, CFA(), PC()); hb_at((uintptr_t)a, n/8, 3, mo); drain(); t o = *a; *a = ~(o & v); last_rmw = 1; return o; } \
static int cas##n(volatile t *a, t *e, t v, int weak, int mo, int fmo, uintptr_t cfa, u32 pc) { at_pre((uintptr_t)a, n/8, 1, cfa, pc); drain(); \
  int in = 0; touch((uintptr_t)e, n/8, 0, pc, &in); \
  t o = *a; if (o == *e) { u32 p; if (weak && fault(D_CASFAIL, C.casfail_p, &p, 0)) { sim_log("spurious CAS failure"); hb_at((uintptr_t)a, n/8, 1, fmo); return 0; } hb_at((uintptr_t)a, n/8, 3, mo); *a = v; last_rmw = 1; return 1; } hb_at((uintptr_t)a, n/8, 1, fmo); *e = o; R->contended++; return 0; } \
int __tsan_atomic##n##_compare_exchange_strong(volatile t *a, t *e, t v, int mo, int fmo) { return cas##n(a, e, v, 0, mo, fmo, CFA(), PC()); } \
int __tsan_atomic##n##_compare_exchange_weak(volatile t *a, t *e, t v, int mo, int fmo) { return cas##n(a, e, v, 1, mo, fmo, CFA(), PC()); } \
t __tsan_atomic##n##_compare_exchange_val(volatile t *a, t e, t v, int mo, int fmo) { t x = e; at_pre((uintptr_t)a, n/8, 1, CFA(), PC()); drain(); t o = *a; if (o == x) { hb_at((uintptr_t)a, n/8, 3, mo); *a = v; last_rmw = 1; } else hb_at((uintptr_t)a, n/8, 1, fmo); return o; }
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64)
void __tsan_atomic_thread_fence(int mo) { cur_cfa = CFA(); finalize_pending(); hb_fence(mo); if (mo == __ATOMIC_SEQ_CST) { hmix(77); point(1, 0); drain(); } }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ------------------------------------------------------------------ heap */
static u64 garbage(u64 a) { return mixh(C.seed*31+7, a); }
static int alloc_failed_n, alloc_no, thr_no, thr_failed_n;
static void *balloc(size_t n, size_t al, int perm)
{
  if (al < 16) al = 16;
  uintptr_t p = (heap_top + 64 + al-1) & ~(al-1);
  size_t rz = 256;
  if (p + n + rz > ARENA+HEAPSZ) harness_error("simulated heap exhausted");
  heap_top = p + ((n+15)&~(size_t)15) + rz;
  size_t g = 0;
  for (; g+8 <= n; g += 8) { Sh *s = shadow(p+g); s->al = 8; }
  if (g < n) shadow(p+g)->al = n-g;
  if (n <= 65536) { for (size_t i=0; i+8<=n; i+=8) *(u64*)(p+i) = garbage(p+i); }
  for (size_t i=0; i<rz; i+=8) *(u64*)(p+((n+15)&~(size_t)15)+i) = garbage(p+n+i) | 0x8000000000000001ULL;
  for (uintptr_t q=p-64; q<p; q+=8) if (shadow(q)->al == 0) *(u64*)q = garbage(q) | 0x8000000000000001ULL;
  if (!perm && bound_extra < 20000000) bound_extra += n < 5000000 ? 2*n : 10000000;
  if (nblks == capblks) { capblks = capblks ? capblks*2 : 256; blks = realloc(blks, capblks*sizeof(Blk)); }
  blks[nblks++] = (Blk){ p, n, 1, cur, step, perm };
  return (void*)p;
}
void *sim_palloc(size_t n) { return balloc(n, 16, 1); }
static int sim_booted;
static int alloc_fault(size_t n)
{
  u32 p; alloc_no++;
  if (n > (size_t)1<<36) { alloc_failed_n++; errno = ENOMEM; return 1; }     /* no machine has it */
  if (in_fair) return 0;
  int f = 0;
  if (C.replay) f = rep_get(D_ALLOC, &p);
  else if (C.alloc_k && alloc_no == C.alloc_k) { rec_add(D_ALLOC, 0); f = 1; }
  if (f) { R->fired[D_ALLOC]++; alloc_failed_n++; errno = ENOMEM; sim_log("allocation fails"); }
  return f;
}
int sim_alloc_failed(void) { return alloc_failed_n; }
int sim_thread_create_failed(void) { return thr_failed_n; }
int sim_owns_block(int t, const void *p, size_t n) { for (int i=0; i<nblks; i++) if (blks[i].live && blks[i].tid == t && blks[i].p == (uintptr_t)p && blks[i].n == n) return 1; return 0; }
size_t sim_thread_stack(int t) { return T[t].stack_sz; }
#define ENTRY() do { cur_cfa = CFA(); finalize_pending(); } while (0)
void *sim_malloc(size_t n) { ENTRY(); point(0,0); if (alloc_fault(n)) return 0; return balloc(n, 16, 0); }
void *sim_calloc(size_t a, size_t b) { ENTRY(); point(0,0); if (alloc_fault(a*b)) return 0; void *p = balloc(a*b, 16, 0); memset(p, 0, a*b); return p; }
void *sim_aligned_alloc(size_t al, size_t n) { ENTRY(); point(0,0); if (alloc_fault(n)) return 0; return balloc(n, al, 0); }
void *sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
int sim_posix_memalign(void **r, size_t al, size_t n) { void *p = sim_aligned_alloc(al, n); if (!p) return ENOMEM; *r = p; return 0; }
static Blk *find_blk(uintptr_t p) { for (int i=nblks-1; i>=0; i--) if (blks[i].p == p) return &blks[i]; return 0; }
void sim_free(void *p)
{
  ENTRY(); point(1, (uintptr_t)p);
  if (!p) return;
  Blk *b = find_blk((uintptr_t)p);
  if (!b || b->perm) h_fail("bad-free", "free of %p which was not allocated", p);
  if (!b->live) h_fail("double-free", "free of %p twice", p);
  drain();
  b->live = 0;
  for (uintptr_t q=b->p&~(uintptr_t)7; q<b->p+b->n; q+=8) shadow(q)->al = 0xFF;
  for (size_t i=0; i+8<=b->n && i<65536; i+=8) *(u64*)(b->p+i) = garbage(b->p+i+1);
  hmix((uintptr_t)p);
}
void *sim_realloc(void *p, size_t n)
{
  if (!p) return sim_malloc(n);
  Blk *b = find_blk((uintptr_t)p); size_t o = b ? b->n : 0;
  void *q = sim_malloc(n); if (!q) return 0;
  memcpy(q, p, o < n ? o : n); sim_free(p); return q;
}
void *sim_mmap(void *a, size_t n, int prot, int fl, int fd, long off)
{
  (void)a; (void)prot; (void)fl; (void)fd; (void)off;
  ENTRY(); point(0,0);
  if (alloc_fault(n)) return MAP_FAILED;
  void *p = balloc(n, 4096, 0); memset(p, 0, n); return p;
}
int sim_munmap(void *p, size_t n)
{
  Blk *b = find_blk((uintptr_t)p);
  if (b && ((b->n+4095)&~4095UL) != ((n+4095)&~4095UL)) h_fail("bad-free", "munmap of %zu bytes of a %zu byte mapping", n, b->n);
  sim_free(p); return 0;
}
int sim_block_mark(void) { return nblks; }
int sim_live_blocks(int since, char *d, size_t n)
{
  int k = 0; size_t o = 0; d[0] = 0;
  for (int i=since; i<nblks; i++) if (blks[i].live && !blks[i].perm) { k++; if (o < n-40) o += snprintf(d+o, n-o, "%zu bytes (by thread %d) ", blks[i].n, blks[i].tid); }
  return k;
}
void *sim_memset(void *p, int c, size_t n) { range((uintptr_t)p, n, 1, CFA(), PC()); return memset(p, c, n); }
void *sim_memcpy(void *d, const void *s, size_t n) { range((uintptr_t)s, n, 0, CFA(), PC()); range((uintptr_t)d, n, 1, CFA(), PC()); return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { range((uintptr_t)s, n, 0, CFA(), PC()); range((uintptr_t)d, n, 1, CFA(), PC()); return memmove(d, s, n); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { return sim_memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { return sim_memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { return sim_memmove(d, s, n); }

/* ------------------------------------------------------------------ threads */
static int next_role;
static void thr_exit(void *ret);
static void tramp(void)
{
  Thr *t = me;
  void *r = 0;
  if (t->efn) t->efn(t->earg); else r = t->fn(t->arg);
  cur_cfa = CFA(); 
  thr_exit(r);
}
static int mkthr(void)
{
  if (nT >= MAXT) harness_error("too many simulated threads");
  int i = nT; Thr *t = &T[i];
  memset(t, 0, sizeof *t);
  t->stk_lo = STKBASE + i*STKSZ + 65536; t->stk_hi = STKBASE + (i+1)*STKSZ - 256;
  t->tls = calloc(1, tls_size+16);
  /* initial TLS image */
  extern u8 *sim_tls_init; extern size_t sim_tls_filesz;
  if (sim_tls_filesz) memcpy(t->tls, sim_tls_init, sim_tls_filesz);
  u64 *sp = (u64*)(t->stk_hi & ~(uintptr_t)15);
  *--sp = 0; *--sp = 0; *--sp = 0;
  *--sp = (u64)tramp;                  /* ret target; rsp%16==8 at entry */
  for (int k=0; k<6; k++) *--sp = 0;
  t->sp = sp; t->cfa = (uintptr_t)sp;
  if (C.seed & 3) for (uintptr_t q=(uintptr_t)sp-6144; q<(uintptr_t)sp; q+=8) { u64 g = garbage(q); *(u64*)q = g & 4 ? g : g >> 62; }   /* what earlier calls would have left on the stack */
  t->st = T_RUN; t->joiner = -1;
  t->prio = C.strat == S_PCT ? 1000 + (int)rbelow(&rs, 1000) : 0;
  nT++;
  if (hb_on) { if (i >= HBT) hb_on = 0; else { memset(hb_vc[i], 0, sizeof hb_vc[i]); if (i != cur) { memcpy(hb_vc[i], hb_vc[cur], sizeof hb_vc[i]); hb_vc[cur][cur]++; } hb_vc[i][i] = 1; } }
  return i;
}
u8 *sim_tls_init; size_t sim_tls_filesz;
static void thr_exit(void *ret)
{
  finalize_pending(); drain();
  hmix(0x7e); 
  sim_log("thread ends");
  me->ret = ret; me->st = T_DONE;
  if (cur == 0) { me->st = T_RUN; oracle_finish(); sim_finish(1); }
  wake_all(4, me);
  cur_cfa = me->stk_hi;
  block_switch();
  harness_error("ended thread resumed");
}
void sim_thread_exit(void *r) { ENTRY(); thr_exit(r); __builtin_unreachable(); }
int sim_pthread_create(u64 *id, const void *attr, void *(*fn)(void*), void *arg)
{
  ENTRY(); point(1, 0); cur_cfa = CFA();
  u32 p; int f = 0; thr_no++;
  if (!in_fair) {
    if (C.replay) f = rep_get(D_THR, &p);
    else if (C.thr_k && thr_no == C.thr_k) { rec_add(D_THR, 0); f = 1; }
  }
  if (f) { R->fired[D_THR]++; thr_failed_n++; sim_log("pthread_create fails"); return EAGAIN; }
  drain();
  int i = mkthr();
  T[i].fn = fn; T[i].arg = arg; T[i].role = 1;
  if (attr) { int ds; if (pthread_attr_getdetachstate((const pthread_attr_t*)attr, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED) T[i].detached = T[i].reaped = 1; }
  T[i].stack_sz = 8<<20; if (attr) pthread_attr_getstacksize((const pthread_attr_t*)attr, &T[i].stack_sz);
  *id = i+1;
  hmix(i);
  point(1, 0);
  return 0;
}
int sim_pthread_join(u64 id, void **r)
{
  ENTRY(); point(1, 0); cur_cfa = CFA();
  if (id == 0 || id > (u64)nT) h_fail("bad-join", "join of an unknown thread");
  Thr *t = &T[id-1];
  if (t->reaped) h_fail("bad-join", "join of a detached or already joined thread");
  while (t->st != T_DONE) block_on(4, t, 0, 0);
  t->reaped = 1;
  if (r) *r = t->ret;
  if (hb_on) hb_max(hb_vc[cur], hb_vc[id-1]);
  drain();
  return 0;
}
int sim_pthread_detach(u64 id)
{
  ENTRY(); point(1, 0);
  if (id == 0 || id > (u64)nT) h_fail("bad-join", "detach of an unknown thread");
  T[id-1].detached = T[id-1].reaped = 1; return 0;
}
u64 sim_pthread_self(void) { return cur+1; }
int sim_pthread_equal(u64 a, u64 b) { return a == b; }
int sim_spawn_ext(void (*f)(int), int arg) { ENTRY(); drain(); int i = mkthr(); T[i].efn = f; T[i].earg = arg; T[i].role = 2; T[i].reaped = 1; point(1,0); return i; }
int sim_self(void) { return cur; }
int sim_role(int t) { return T[t].role; }
u64 sim_lsteps(int t) { return T[t].lstep; }
u64 sim_step(void) { return step; }
int sim_thread_done(int t) { return T[t].st == T_DONE; }
int sim_thread_blocked(int t) { return T[t].st == T_BLOCK && !wakeable(&T[t]); }
int sim_nthreads(void) { return nT; }
int sim_thread_reaped(int t) { return T[t].reaped; }
int sim_in_fair(void) { return in_fair; }
void sim_freeze(int t, int on) { T[t].frozen = on; }
void sim_yield_point(void) { ENTRY(); hmix(3); point(1, 0); }
void sim_pause(int (*cond)(void*), void *arg)
{
  ENTRY(); hmix(5); point(1, 0); cur_cfa = CFA();
  while (!cond(arg)) {
    me->wkind = 6; me->wobj = 0; me->wok = 0; me->cond = cond; me->carg = arg; me->wake_step = 0;
    me->st = T_BLOCK; block_switch(); me->cond = 0; me->wkind = 0; me->wok = 0;
  }
}
int sim_sched_yield(void) { ENTRY(); hmix(6); point(1, 0); return 0; }
static void sleep_ns(u64 ns)
{
  point(1,0);
  me->wkind = 7; me->wobj = 0; me->wok = 0; me->cond = 0;
  u64 st = ns/2 + 1; if (st > 2000) { clk_jump += ns - 4000; st = 2000; }
  me->wake_step = step + st; me->wake_kind = 100; me->st = T_BLOCK; block_switch(); me->wake_step = 0; me->wake_kind = 0; me->wkind = 0;
}
int sim_usleep(unsigned us) { ENTRY(); sleep_ns(us*1000ULL); return 0; }
unsigned sim_sleep(unsigned s) { ENTRY(); sleep_ns(s*1000000000ULL); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *r) { ENTRY(); (void)r; sleep_ns(t->tv_sec*1000000000ULL + t->tv_nsec); return 0; }

/* ------------------------------------------------------------------ semaphores, mutexes, conditions */
typedef struct { uintptr_t a; int kind, alive, val, owner; u32 gen; } Obj;
static Obj objs[4096]; static int nobjs;
static Obj *obj(uintptr_t a, int kind, int create)
{
  for (int i=nobjs-1; i>=0; i--) if (objs[i].a == a && objs[i].kind == kind) return &objs[i];
  if (!create) return 0;
  if (nobjs == 4096) harness_error("too many synchronisation objects");
  Obj *o = &objs[nobjs++]; memset(o, 0, sizeof *o); o->a = a; o->kind = kind; o->alive = 1; o->owner = -1;
  return o;
}
static void obj_touch(void *p, uintptr_t cfa, u32 pc) { int in = 0; cur_cfa = cfa; touch((uintptr_t)p, 8, 1, pc, &in); hmix((uintptr_t)p ^ pc); imix((uintptr_t)p, 8); }
int sim_sem_init(void *s, int sh, unsigned v) { (void)sh; uintptr_t c = CFA(); u32 pc = PC(); ENTRY(); point(1, (uintptr_t)s); obj_touch(s, c, pc); drain(); Obj *o = obj((uintptr_t)s, 1, 1);
  for (int i=0; i<nT; i++) if (T[i].st == T_BLOCK && T[i].wkind == 1 && T[i].wobj == s) h_fail("sem-reinit", "sem_init on a semaphore that thread %d waits on", i);
  o->alive = 1; o->val = v; o->gen++; return 0; }
int sim_sem_destroy(void *s)
{
  uintptr_t c = CFA(); u32 pc = PC(); ENTRY(); point(1, (uintptr_t)s); obj_touch(s, c, pc); drain();
  Obj *o = obj((uintptr_t)s, 1, 0);
  if (!o || !o->alive) h_fail("sem-destroyed", "sem_destroy of a semaphore that is not initialised");
  for (int i=0; i<nT; i++) if (T[i].st == T_BLOCK && T[i].wkind == 1 && T[i].wobj == s && !T[i].wok) h_fail("sem-destroyed", "sem_destroy while thread %d waits on it", i);
  o->alive = 0; return 0;
}
static Obj *sem_live(void *s, const char *what)
{
  Obj *o = obj((uintptr_t)s, 1, 0);
  if (!o || !o->alive) h_fail("sem-destroyed", "%s on a semaphore that is %s", what, o ? "destroyed" : "not initialised");
  return o;
}
int sim_sem_post(void *s)
{
  uintptr_t c = CFA(); u32 pc = PC(); ENTRY(); point(1, (uintptr_t)s); obj_touch(s, c, pc); drain();
  Obj *o = sem_live(s, "sem_post"); o->val++; hb_obj(s, 2);
  wake_all(1, s); last_rmw = 1;
  point(1, (uintptr_t)s);
  return 0;
}
int sim_sem_wait(void *s)
{
  uintptr_t c = CFA(); u32 pc = PC(); ENTRY(); point(1, (uintptr_t)s);
  for (;;) {
    obj_touch(s, c, pc); drain();
    Obj *o = sem_live(s, "sem_wait");
    if (o->val > 0) { o->val--; hb_obj(s, 1); return 0; }
    u32 d = 0; 
    me->lstep++;
    if (fault(D_EINTR, C.eintr_p, &d, 400)) {}
    if (!block_on(1, s, D_EINTR, d)) { cur_cfa = c; sem_live(s, "sem_wait (interrupted)"); sim_log("EINTR"); errno = EINTR; return -1; }
    cur_cfa = c;
  }
}
int sim_sem_trywait(void *s)
{
  uintptr_t c = CFA(); u32 pc = PC(); ENTRY(); point(1, (uintptr_t)s); obj_touch(s, c, pc); drain();
  Obj *o = sem_live(s, "sem_trywait"); if (o->val > 0) { o->val--; hb_obj(s, 1); return 0; } errno = EAGAIN; return -1;
}
int sim_sem_timedwait(void *s, const struct timespec *t) { (void)t; int r = sim_sem_trywait(s); if (r) { errno = ETIMEDOUT; sim_sched_yield(); } return r; }
int sim_sem_getvalue(void *s, int *v) { ENTRY(); *v = sem_live(s, "sem_getvalue")->val; return 0; }

int sim_mutex_init(void *m, const void *a) { (void)a; ENTRY(); Obj *o = obj((uintptr_t)m, 2, 1); o->alive = 1; o->owner = -1; return 0; }
int sim_mutex_destroy(void *m) { ENTRY(); Obj *o = obj((uintptr_t)m, 2, 1); if (o->owner >= 0) h_fail("mutex-misuse", "destroy of a locked mutex"); o->alive = 0; return 0; }
static void mutex_acquire(void *m)
{
  Obj *o = obj((uintptr_t)m, 2, 1);
  if (!o->alive) h_fail("mutex-misuse", "lock of a destroyed mutex");
  if (o->owner == cur) h_fail("mutex-misuse", "relock of a mutex by its owner");
  while (o->owner >= 0) { R->contended++; block_on(2, m, 0, 0); }
  o->owner = cur; hb_obj(m, 1);
}
int sim_mutex_lock(void *m) { uintptr_t c = CFA(); u32 pc = PC(); ENTRY(); point(1, (uintptr_t)m); obj_touch(m, c, pc); drain(); mutex_acquire(m); return 0; }
int sim_mutex_trylock(void *m) { uintptr_t c = CFA(); u32 pc = PC(); ENTRY(); point(1, (uintptr_t)m); obj_touch(m, c, pc); drain(); Obj *o = obj((uintptr_t)m, 2, 1); if (o->owner >= 0) return EBUSY; o->owner = cur; hb_obj(m, 1); return 0; }
int sim_mutex_unlock(void *m)
{
  uintptr_t c = CFA(); u32 pc = PC(); ENTRY(); point(1, (uintptr_t)m); obj_touch(m, c, pc); drain();
  Obj *o = obj((uintptr_t)m, 2, 1);
  if (o->owner != cur) h_fail("mutex-misuse", "unlock of a mutex not held by the caller");
  hb_obj(m, 2); o->owner = -1; wake_all(2, m); point(1, (uintptr_t)m); return 0;
}
int sim_spin_init(void *m, int sh) { (void)sh; return sim_mutex_init(m, 0); }
/*  readers exclude each other here: fewer interleavings, same guarantees */
int sim_spin_destroy(void *) __attribute__((alias("sim_mutex_destroy"))); int sim_spin_lock(void *) __attribute__((alias("sim_mutex_lock"))); int sim_spin_trylock(void *) __attribute__((alias("sim_mutex_trylock"))); int sim_spin_unlock(void *) __attribute__((alias("sim_mutex_unlock")));
int sim_rwlock_init(void *, const void *) __attribute__((alias("sim_mutex_init"))); int sim_rwlock_destroy(void *) __attribute__((alias("sim_mutex_destroy"))); int sim_rwlock_unlock(void *) __attribute__((alias("sim_mutex_unlock")));
int sim_rwlock_rdlock(void *) __attribute__((alias("sim_mutex_lock"))); int sim_rwlock_wrlock(void *) __attribute__((alias("sim_mutex_lock"))); int sim_rwlock_tryrdlock(void *) __attribute__((alias("sim_mutex_trylock"))); int sim_rwlock_trywrlock(void *) __attribute__((alias("sim_mutex_trylock")));
int sim_cond_init(void *c, const void *a) { (void)a; ENTRY(); obj((uintptr_t)c, 3, 1)->alive = 1; return 0; }
int sim_cond_destroy(void *c) { ENTRY(); obj((uintptr_t)c, 3, 1)->alive = 0; return 0; }
int sim_cond_wait(void *cv, void *m)
{
  uintptr_t c = CFA(); u32 pc = PC(); ENTRY(); point(1, (uintptr_t)cv); obj_touch(cv, c, pc); drain();
  Obj *o = obj((uintptr_t)m, 2, 1);
  if (o->owner != cur) h_fail("mutex-misuse", "cond_wait without holding the mutex");
  obj((uintptr_t)cv, 3, 1);
  hb_obj(m, 2); o->owner = -1; wake_all(2, m);
  u32 d = 0; me->lstep++;
  fault(D_SPUR, C.spur_p, &d, 400);
  if (!block_on(3, cv, D_SPUR, d)) sim_log("spurious wake-up");
  mutex_acquire(m);
  return 0;
}
int sim_cond_timedwait(void *cv, void *m, const struct timespec *t) { (void)t; sim_mutex_unlock(m); sim_sched_yield(); sim_mutex_lock(m); (void)cv; return ETIMEDOUT; }
int sim_cond_broadcast(void *cv) { uintptr_t c = CFA(); u32 pc = PC(); ENTRY(); point(1, (uintptr_t)cv); obj_touch(cv, c, pc); drain(); obj((uintptr_t)cv, 3, 1); wake_all(3, cv); point(1, (uintptr_t)cv); return 0; }
int sim_cond_signal(void *cv)
{
  uintptr_t c = CFA(); u32 pc = PC(); ENTRY(); point(1, (uintptr_t)cv); obj_touch(cv, c, pc); drain();
  int l[MAXT], n = 0;
  for (int i=0; i<nT; i++) if (T[i].st == T_BLOCK && T[i].wkind == 3 && T[i].wobj == cv && !T[i].wok) l[n++] = i;
  if (n) {
    u32 k = 0;
    if (n > 1 && !in_fair) { if (C.replay) { if (!rep_get(D_PICK, &k)) k = 0; } else { k = rbelow(&rs, n); if (k) rec_add(D_PICK, k); } }
    T[l[k % n]].wok = 1;
  }
  point(1, (uintptr_t)cv);
  return 0;
}
/* pthread barriers (not used by Lace today; a changed tree might) */
typedef struct { uintptr_t a; unsigned need, have; u32 gen; } PBar; static PBar pbars[16]; static int npbars;
static PBar *pbar(void *b) { for (int i=0; i<npbars; i++) if (pbars[i].a == (uintptr_t)b) return &pbars[i]; if (npbars == 16) harness_error("too many pthread barriers"); pbars[npbars].a = (uintptr_t)b; return &pbars[npbars++]; }
int sim_barrier_init(void *b, const void *a, unsigned n) { (void)a; ENTRY(); PBar *p = pbar(b); p->need = n; p->have = 0; return 0; }
int sim_barrier_destroy(void *b) { (void)b; return 0; }
int sim_barrier_wait(void *b)
{
  ENTRY(); point(1, (uintptr_t)b); drain(); PBar *p = pbar(b); hb_obj(b, 2);
  if (++p->have >= p->need) { p->have = 0; p->gen++; hb_obj(b, 1); wake_all(8, b); point(1, 0); return PTHREAD_BARRIER_SERIAL_THREAD; }
  u32 g = p->gen; while (p->gen == g) block_on(8, b, 0, 0);
  hb_obj(b, 1); return 0;
}
/* thread-specific keys */
/* key 0 belongs to another library, which has a value for it in every thread */
static u8 key_live[32] = { 1 }; int sim_nkeys = 0;
int sim_key_create(unsigned *k, void (*d)(void*)) { (void)d; ENTRY(); for (int i=1; i<32; i++) if (!key_live[i]) { key_live[i] = 1; sim_nkeys++; for (int t=0; t<nT; t++) T[t].keys[i] = 0; *k = i; return 0; } return EAGAIN; }
int sim_key_delete(unsigned k) { if (k >= 32 || !key_live[k] || !k) return EINVAL; key_live[k] = 0; sim_nkeys--; return 0; }
void *sim_getspecific(unsigned k) { return k == 0 ? (void*)0x5000 : k < 32 && key_live[k] ? me->keys[k] : 0; }
int sim_setspecific(unsigned k, const void *v) { if (k >= 32 || !key_live[k]) return EINVAL; me->keys[k] = (void*)v; return 0; }
int sim_once(int *o, void (*f)(void)) { ENTRY(); if (!*o) { *o = 1; f(); hb_obj(o, 2); } hb_obj(o, 1); return 0; }

/* ------------------------------------------------------------------ clocks, environment */
static u64 now_ns(void)
{
  u64 base = simns_base + clk_jump;
  switch (C.clock_mode) {
    case 1: return base;                          /* a very coarse clock: stands still */
    case 2: return base + (step*2)/1000000*1000000;
    case 3: return base + step*2000;              /* slow machine */
    default: return base + step*2;
  }
}
static void maybe_jump(void)
{
  u32 p;
  me->lstep++;
  if (C.clock_mode == 4 || C.replay) { if (fault(D_CLOCK, C.clock_mode == 4 ? 3000 : 0, &p, 1000000)) clk_jump += (u64)p*1000; }
}
int sim_clock_gettime(int id, struct timespec *ts) { (void)id; ENTRY(); point(0,0); maybe_jump(); u64 n = now_ns(); ts->tv_sec = n/1000000000ULL; ts->tv_nsec = n%1000000000ULL; return 0; }
int sim_gettimeofday(struct timeval *tv, void *z) { (void)z; ENTRY(); point(0,0); maybe_jump(); u64 n = now_ns(); tv->tv_sec = n/1000000000ULL; tv->tv_usec = n%1000000000ULL/1000; return 0; }
long sim_time(long *t) { long v = now_ns()/1000000000ULL; if (t) *t = v; return v; }
long sim_clock(void) { return now_ns()/1000; }
static u64 sim_rdtsc(void) { u64 skew = C.clock_mode == 5 ? (u64)cur*1000003 : 0; return now_ns()*3 + skew; }
u64 sim_ticks(void) { return now_ns()*3; }
int sim_rand_c(void) { return (int)(rnext(&rapp)>>33); }
void sim_srand(unsigned s) { (void)s; }
long sim_random(void) { return (long)(rnext(&rapp)>>33); }
long sim_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return C.npu + (C.affk > 0 ? C.affk : 0); return sysconf(n); }
int sim_get_nprocs(void) { return C.npu + (C.affk > 0 ? C.affk : 0); }
int sim_get_nprocs_conf(void) { return C.npu + (C.affk > 0 ? C.affk : 0); }
int sim_setname_np(u64 t, const char *n) { (void)t; return strlen(n) > 15 ? ERANGE : 0; }
int sim_setaffinity_np(u64 t, size_t n, const void *m) { (void)t; (void)n; (void)m; return 0; }
int sim_sched_getaffinity(int, size_t, void *);
int sim_getaffinity_np(u64 t, size_t n, void *m) { (void)t; return sim_sched_getaffinity(0, n, m); }
int sim_sched_setaffinity(int p, size_t n, const void *m) { (void)p; (void)n; (void)m; return 0; }
int sim_sched_getcpu(void) { return cur % C.npu; }
char *sim_strdup(const char *s) { size_t n = strlen(s)+1; char *p = sim_malloc(n); if (p) memcpy(p, s, n); return p; }
/* the process may run on npu of the npu+affk processors that are online; affk < 0: more processors than the caller's set can hold */
int sim_sched_getaffinity(int p, size_t n, void *m) { (void)p; if (C.affk < 0 && n < 4096) { errno = EINVAL; return -1; } memset(m, 0, n); int f = C.affk > 0 ? C.affk : 0; for (int i=0; i<C.npu; i++) { int b = C.affk & 1 ? f+i : i; ((u8*)m)[b/8] |= 1<<(b%8); } return 0; }
int sim_getrlimit(int r, struct rlimit *l) { (void)r; l->rlim_cur = C.rlim_k < 0 ? RLIM_INFINITY : C.rlim_k ? (rlim_t)C.rlim_k<<10 : 8<<20; l->rlim_max = RLIM_INFINITY; return 0; }

/* ------------------------------------------------------------------ stdio, exit */
extern void oracle_exit(int code, int isabort, const char *err);
static void out_add(int which, const char *s, size_t n)
{
  char *b = which ? R->err : R->out; u32 *l = which ? &R->errlen : &R->outlen; size_t cap = which ? sizeof R->err : sizeof R->out;
  if (*l + n >= cap) n = cap-1-*l;
  memcpy(b+*l, s, n); *l += n; b[*l] = 0;
  for (size_t i=0; i<n; i++) hmix(s[i]);
}
static int stream(void *f) { return f == (void*)stderr ? 1 : 0; }
static int vout(int w, const char *fmt, va_list ap) { static char buf[140000]; ENTRY(); point(0,0); int n = vsnprintf(buf, sizeof buf, fmt, ap); if (n > (int)sizeof buf-1) n = sizeof buf-1; out_add(w, buf, n); return n; }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vout(0, fmt, ap); va_end(ap); return n; }
int sim_fprintf(void *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vout(stream(f), fmt, ap); va_end(ap); return n; }
int sim_vfprintf(void *f, const char *fmt, va_list ap) { return vout(stream(f), fmt, ap); }
int sim_puts(const char *s) { out_add(0, s, strlen(s)); out_add(0, "\n", 1); return 0; }
int sim_fputs(const char *s, void *f) { out_add(stream(f), s, strlen(s)); return 0; }
int sim_putchar(int c) { char x = c; out_add(0, &x, 1); return c; }
int sim_fputc(int c, void *f) { char x = c; out_add(stream(f), &x, 1); return c; }
size_t sim_fwrite(const void *p, size_t a, size_t b, void *f) { if (f != (void*)stdout && f != (void*)stderr) return b; out_add(stream(f), p, a*b); return b; }
/* a small simulated file system for the example programs: written files vanish, read files are given by sim_file() */
static char f_name[64], f_text[2000]; static FILE *f_open;
void sim_file(const char *n, const char *t) { snprintf(f_name, sizeof f_name, "%s", n); snprintf(f_text, sizeof f_text, "%s", t); }
void *sim_fopen(const char *n, const char *m) { ENTRY(); point(0,0); drain(); if (m[0] != 'r') return (void*)&f_open; if (!f_name[0] || strcmp(n, f_name)) { errno = ENOENT; return 0; } return f_open = fmemopen(f_text, strlen(f_text), "r"); }
int sim_fclose(void *f) { if (f == (void*)&f_open) return 0; if (f == f_open) { f_open = 0; return fclose(f); } return 0; }
size_t sim_fread(void *p, size_t a, size_t b, void *f) { ENTRY(); drain(); range((uintptr_t)p, a*b, 1, CFA(), PC()); return f == f_open ? fread(p, a, b, f) : 0; }
int sim_fscanf(void *f, const char *fmt, ...) { ENTRY(); drain(); if (f != f_open) return -1; va_list ap; va_start(ap, fmt); int n = vfscanf(f, fmt, ap); va_end(ap); return n; }
int sim_fscanf99(void *, const char *, ...) __attribute__((alias("sim_fscanf")));
int sim_fscanf23(void *, const char *, ...) __attribute__((alias("sim_fscanf")));
int sim_sprintf(char *o, const char *fmt, ...) { ENTRY(); drain(); va_list ap; va_start(ap, fmt); int n = vsprintf(o, fmt, ap); va_end(ap); range((uintptr_t)o, n+1, 1, CFA(), PC()); return n; }
int sim_snprintf(char *o, size_t sz, const char *fmt, ...) { ENTRY(); drain(); va_list ap; va_start(ap, fmt); int n = vsnprintf(o, sz, fmt, ap); va_end(ap); return n; }
void sim_qsort(void *b, size_t n, size_t z, int (*c)(const void*, const void*)) { ENTRY(); drain(); qsort(b, n, z, c); }
int sim_fflush(void *f) { (void)f; return 0; }
/* less usual relatives of the above, for rewrites of the code */
int sim_vprintf(const char *fmt, va_list ap) { return vout(0, fmt, ap); }
int sim_dprintf(int fd, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vout(fd == 2, fmt, ap); va_end(ap); return n; }
long sim_write(int fd, const void *p, size_t n) { ENTRY(); drain(); out_add(fd == 2, p, n); return n; }
int sim_vsnprintf(char *o, size_t sz, const char *fmt, va_list ap) { ENTRY(); drain(); return vsnprintf(o, sz, fmt, ap); }
int sim_vasprintf(char **o, const char *fmt, va_list ap) { static char b[140000]; int n = vsnprintf(b, sizeof b, fmt, ap); if (n > (int)sizeof b-1) n = sizeof b-1; *o = sim_malloc(n+1); if (!*o) return -1; memcpy(*o, b, n+1); return n; }
int sim_asprintf(char **o, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vasprintf(o, fmt, ap); va_end(ap); return n; }
char *sim_strndup(const char *s, size_t n) { n = strnlen(s, n); char *p = sim_malloc(n+1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void *sim_reallocarray(void *p, size_t a, size_t b) { if (b && a > (size_t)-1/b) { errno = ENOMEM; return 0; } return sim_realloc(p, a*b); }
void sim_bzero(void *p, size_t n) { sim_memset(p, 0, n); }
void sim_explicit_bzero(void *p, size_t n) { sim_memset(p, 0, n); }
void *sim_mempcpy(void *d, const void *s, size_t n) { sim_memcpy(d, s, n); return (char*)d+n; }
void sim_thrd_yield(void) { sim_sched_yield(); }
int sim_thrd_sleep(const struct timespec *t, struct timespec *r) { return sim_nanosleep(t, r); }
int sim_clock_nanosleep(int c, int fl, const struct timespec *t, struct timespec *r) { (void)c; if (fl) { sim_sched_yield(); return 0; } return sim_nanosleep(t, r); }
int sim_sem_clockwait(void *s, int c, const struct timespec *t) { (void)c; return sim_sem_timedwait(s, t); }
int sim_cond_clockwait(void *cv, void *m, int c, const struct timespec *t) { (void)c; return sim_cond_timedwait(cv, m, t); }
int sim_mutex_timedlock(void *m, const struct timespec *t) { (void)t; return sim_mutex_lock(m); }
void sim_perror(const char *s) { out_add(1, s, strlen(s)); out_add(1, "\n", 1); }
__attribute__((noreturn)) void sim_exit(int c) { ENTRY(); oracle_exit(c & 0xff, 0, R->err); sim_finish(4); }
__attribute__((noreturn)) void sim_abort(void) { ENTRY(); oracle_exit(134, 1, R->err); sim_finish(4); }
__attribute__((noreturn)) void sim_assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)fn; h_fail("assert", "assertion %s failed at %s:%u", e, f, l); abort(); }

int sim_pthread_yield(void) __attribute__((alias("sim_sched_yield")));
int sim_putc(int, void*) __attribute__((alias("sim_fputc")));
void sim__exit(int) __attribute__((alias("sim_exit"), noreturn));
void sim__Exit(int) __attribute__((alias("sim_exit"), noreturn));
void sim_quick_exit(int) __attribute__((alias("sim_exit"), noreturn));

/* ------------------------------------------------------------------ crashes */
static void on_segv(int sig, siginfo_t *si, void *uc_)
{
  ucontext_t *uc = uc_;
  if (sig == SIGSEGV) {
    u8 *ip = (u8*)uc->uc_mcontext.gregs[REG_RIP];
    if ((uintptr_t)ip > 4096) {
      int n = 0;
      if (ip[0] == 0x0f && ip[1] == 0x31) n = 2;
      else if (ip[0] == 0x0f && ip[1] == 0x01 && ip[2] == 0xf9) n = 3;
      if (n) {
        u64 t = sim_rdtsc(); step += 1; hmix(t);
        uc->uc_mcontext.gregs[REG_RAX] = t & 0xffffffff; uc->uc_mcontext.gregs[REG_RDX] = t >> 32;
        if (n == 3) uc->uc_mcontext.gregs[REG_RCX] = 0;
        uc->uc_mcontext.gregs[REG_RIP] += n; return;
      }
    }
  }
  uintptr_t a = (uintptr_t)si->si_addr, sp = uc->uc_mcontext.gregs[REG_RSP];
  if (sig == SIGSEGV && (sp < me->stk_lo+4096 || (a >= me->stk_lo-65536 && a < me->stk_lo))) { harness_error("simulated stack overflow"); }
  if (sig == SIGPROF) h_fail("cpu-hang", "no scheduling point reached for seconds of CPU time");
  h_fail("crash", "signal %d (%s) at address %#lx, pc %#lx", sig, strsignal(sig), (unsigned long)a, (unsigned long)uc->uc_mcontext.gregs[REG_RIP]);
}
extern char __data_start[], _end[], __bss_start[];
extern const int work_pie;
static int phdr_cb(struct dl_phdr_info *i, size_t n, void *d)
{
  (void)n; (void)d;
  for (int k=0; k<i->dlpi_phnum; k++) {
    if (i->dlpi_phdr[k].p_type == PT_TLS) { tls_base = i->dlpi_tls_data; tls_size = i->dlpi_phdr[k].p_memsz; sim_tls_init = (u8*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); sim_tls_filesz = i->dlpi_phdr[k].p_filesz; }
  }
  return 1; /* only the executable */
}
static int cmp_rec(const void *a, const void *b) { const Rec *x = a, *y = b; if (x->tid != y->tid) return x->tid < y->tid ? -1 : 1; if (x->lstep != y->lstep) return x->lstep < y->lstep ? -1 : 1; return x->kind < y->kind ? -1 : x->kind > y->kind; }
/* once per runner process */
void sim_global_init(void)
{
  void *p = mmap((void*)ARENA, ARENASZ, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
  void *q = mmap((void*)SHARENA, ARENASZ, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)ARENA || q != (void*)SHARENA) { fprintf(stderr, "cannot map the simulated address space\n"); exit(3); }
  madvise(p, ARENASZ, MADV_NOHUGEPAGE); madvise(q, ARENASZ, MADV_NOHUGEPAGE);
  /* tracked globals: only those of the instrumented objects (linked between the two marks) */
  extern char sim_tracked_lo[] __attribute__((weak)), sim_tracked_hi[] __attribute__((weak)); (void)sim_tracked_lo; (void)sim_tracked_hi;
  data_lo = (uintptr_t)__data_start & ~15UL; data_hi = ((uintptr_t)_end + 15) & ~15UL;
  sh_data = mmap(0, (data_hi-data_lo)+4096, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  dl_iterate_phdr(phdr_cb, 0);
}
/* runs one execution in this process and never returns */
void sim_run(void)
{
  static u8 altstk[65536];
  stack_t ss = { .ss_sp = altstk, .ss_size = sizeof altstk }; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO|SA_ONSTACK|SA_NODEFER;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGPROF, &sa, 0); sigaction(SIGABRT, &sa, 0);
  struct itimerval it = { {0,0}, {20,0} }; setitimer(ITIMER_PROF, &it, 0);
  rs.s = mixh(C.seed, 1); rfair.s = mixh(12345, 2); rapp.s = mixh(C.seed, 3);
  heap_top = ARENA + 4096;
  fair_q = 20;
  if (C.sb_cap <= 0) C.sb_cap = 1;
  if (C.replay) {
    rp_idx = calloc(MAXT+1, sizeof *rp_idx); rp_cnt = calloc(MAXT+1, sizeof *rp_cnt);
    qsort(replay_rec, replay_n, sizeof(Rec), cmp_rec);
    for (u32 i=0; i<replay_n; i++) if (replay_rec[i].tid < MAXT) { int t = replay_rec[i].tid; if (!rp_cnt[t]) rp_idx[t] = &replay_rec[i]; rp_cnt[t]++; }
  } 
  hb_on = !C.delay_p; if (hb_on) hb_tab = calloc(HBL, sizeof *hb_tab);
  sched_init();
  if (work_pie) prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0);
  extern void sim_main_thread(int);
  nT = 0; cur = 0; me = &T[0];
  int m = mkthr(); T[m].efn = sim_main_thread; T[m].role = 0; T[m].reaped = 1;
  memcpy(tls_base, T[0].tls, tls_size);
  (void)nullsh; (void)next_role; (void)sim_booted; (void)next_wake; (void)frozen_any;
  cur_cfa = T[0].cfa;
  sim_ctx(&main_sp, T[0].sp);
  _exit(9);
}
void sim_main_thread(int x) { (void)x; work_main(); }

/* Deterministic simulator: interface between runtime (sim.c), oracles (oracle.c), workloads (work.c)
 * and the runner (runner.c).  work.c and /repo's sources are the only instrumented code. */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;

/* ---------- programs ---------- */
enum { /* ops inside a task: a = node, b = small parameter */
  O_NOP=0, O_SPAWN, O_SYNC, O_DROP, O_CALL, O_NEWFRAME, O_TOGETHER, O_RUNIN, O_RUNEXIN, O_YIELD, O_STEAL,
  O_SHARE, O_BARRIER, O_VARS, O_WORK, O_SYNCALL, O_DROPALL, O_T0, O_FREEZE, O_THAW, O_RENDEZ,
  O_AWAIT, O_BUSY, O_MEET, O_PAIRS, O_FLAGSET, O_FLAGWAIT, O_INSPECT, O_POLL, O_CB, O_BULK, O_BARS, O_CROWDWAIT, O_LAST,
  /* ops of a non-Lace thread */
  X_RUN=64, X_RUNEX, X_NEWFRAME, X_TOGETHER, X_SUSPEND, X_RESUME, X_SLEEPCHECK, X_DELAY, X_CRESET, X_CREPORT, X_T0, X_CROWD, X_LAST
};
typedef struct { u8 op; u8 b; u16 a; } Op;
#define MAXNODES 512
#define MAXOPS   6000
#define MAXSESS  280
#define MAXEXT   6
#define MAXW     320       /* workers */
#define MAXT     420       /* threads of all sessions together */
#define WSET     (MAXW/64)
typedef struct { u16 kind; u16 first, n; } Node;       /* kind = arity*2 + isvoid */
typedef struct { u16 first, n; } Script;
typedef struct { int nw, dq, nscripts, waitdone, stk, verb, huge; Script sc[MAXEXT]; } Session;   /* nw: 0 = ask for default; stk, verb: value+1 for the setters, 0 = do not call; huge: a queue no machine has */
typedef struct {
  int nnodes, nops, nsess;
  Node node[MAXNODES]; Op op[MAXOPS]; Session sess[MAXSESS];
} Prog;

/* ---------- dynamic instances ---------- */
enum { I_NEW, I_RUNNING, I_DONE, I_DROPPED };
enum { HOW_SPAWN, HOW_CALL, HOW_NF, HOW_TG, HOW_COPY, HOW_RUNIN, HOW_RUN, HOW_RUNEX, HOW_XNF, HOW_XTG };
typedef struct Frame { int kind, on, begun, left; struct Frame *up; int isext; } Frame;
typedef struct Inst {
  u64 magic; int id, node, kind, how, state;
  int wspawn, wexec, group, copies, ext, exclusive, sess, thr, spawn_live, seqno;
  u64 wmask[WSET], wdone[WSET]; int begun;
  Frame *frame;                                         /* frame its code runs in */
  struct Inst *parent;
  struct Inst **stack; int sp, cap;                     /* spawned, unsynced children, newest last */
  int pc, barcnt[MAXW], meet, meetneed, flag, seen_stolen, argev; void *slot;
  volatile u64 *pay;                                    /* memory seen by instrumented code */
  u64 paycnt; u64 payexp;
  int hb_t0; u32 hb_c0;                                 /* offering event */
  int *hb_t1; u32 *hb_c1;                               /* end of the execution on each worker (groups), or [0] */
  u32 (*hb_bar)[64]; int *hb_bt;                        /* barrier entries */
} Inst;

/* ---------- harness calls made by workloads (never scheduling points unless noted) ---------- */
u64   h_val(const Inst *i, int k);                      /* expected argument k (k>=2), result (k=0) */
Inst *h_new(Inst *parent, int node, int how, int w);
Inst *h_once(Inst *i);                                  /* in the argument list of every task started: counts its evaluations */
void  hw_pu(int core);
Inst *h_enter(Inst *i, int kind, int w, const void *wp, const void *gw, int isw);
void  h_leave(Inst *i, int w);
int   h_next(Inst *i, Op *op, int w, const void *wp, const void *gw);
void  h_bad_arg(Inst *i, int k);
void  h_bad_pay(Inst *i, const char *what, u64 got, u64 want);
void  h_bad_result(Inst *i, u64 got);
void  h_spawn_begin(Inst *par, Inst *ch, int w);
void  h_spawned(Inst *par, Inst *ch, int w);
void  h_spawn_plain(Inst *par, int w); void h_spawned_plain(Inst *par, int w); void h_sync_plain(Inst *par, int w, int ran);
Inst *h_top(Inst *par);
void  h_sync_begin(Inst *par, Inst *ch, int w);
void  h_sync_end(Inst *par, Inst *ch, int w, int drop);
void  h_call_end(Inst *ch, int w);
int   h_executed(Inst *ch); void h_ran(Inst *ch);
void  h_t0(int isvoid, int w, const void *wp, const void *gw);
void  h_t0_spawn(void); void h_t0_sync(void); void h_t0_group(int before); u64 h_t0_count(void);
void  h_bar(Inst *i, int w, int leaving);
void  h_head(Inst *i, int w, const void *have, const void *want);
int   h_begun_children(Inst *i);
int   h_nchildren(Inst *i);
void  h_meet(Inst *i, int up);                           /* blocks (schedules) */
int   h_meet_full(Inst *i);
void  h_wait_begun(Inst *i);                             /* blocks until all children begun */
void  h_flag(Inst *i, int set);
void  h_freeze(int w, int mask, int on);
Inst *h_ext_begin(int thr, int xop, int node);
void  h_ext_end(int thr, int xop, Inst *i);
int   h_xnext(int thr, Op *op);
void  h_gate_enter(int thr); void h_gate_leave(int thr); /* may block */
void  h_sleepcheck(int thr);
void  h_delay(int n); void h_delay_long(int n); void h_crowd(int node, int n); int h_crowd_op(int j, Op *o); void h_crowd_wait(void);
void  h_fail(const char *cls, const char *fmt, ...) __attribute__((format(printf,2,3)));
int   h_kindof(int node);
int   h_nw(void);
void  h_session_begin(int s); void h_session_started(int s, unsigned lw); void h_session_stopping(int s); void h_session_end(int s);
int   h_nsess(void); int h_sess_nw(int s); size_t h_sess_dq(int s, size_t tasksize); int h_sess_stk(int s); int h_sess_verb(int s); void h_settings(size_t stk, unsigned pus); int h_sess_nscripts(int s);
void  h_ext_spawn(int s); void h_ext_join(int s);
void  h_suspended(void); void h_resumed(void);
void  h_not_worker(int isw, const void *gw);
void  h_creset_begin(void); void h_creset_done(int quiesced); u64 sim_ticks(void); void h_report(int begin);
volatile u64 *h_slots(Inst *g);
int   h_begun(Inst *ch); void h_status(Inst *ch, int begun, int stolen, int completed);
Inst *h_child(Inst *par, int k);
/* many small tasks at once */
typedef struct Bulk { struct Inst *par; int id, n, nx, sp, w, *stk; u8 *st; volatile u64 *cell; u64 key; struct Bulk *next; } Bulk;
Bulk *h_bulk_new(Inst *i, int n, int w); int h_bulk_spawn(Bulk *b); void h_bulk_spawned(Bulk *b); int h_bulk_top(Bulk *b); void h_bulk_sync(Bulk *b, int k, int drop, int isvoid, u64 res);
void  h_bulk_enter(Bulk *b, u32 k, int w, const void *wp, const void *gw); void h_bulk_leave(Bulk *b, u32 k, int w); u64 h_bulk_val(Bulk *b, u32 k, int j); int h_bulk_ran(Bulk *b, int k); int h_bulk_count(const Op *o);

/* implemented by work.c */
void  work_main(void);           /* first simulated thread */
void  work_crowd(int j);         /* one call of one of very many non-Lace threads */
void  work_ext(int thr);         /* script of one non-Lace thread */
extern const int work_hwloc, work_pie, work_maxarity, work_counts; extern const char work_variant[];

/* ---------- runtime ---------- */
enum { D_SWITCH=0, D_DELAY, D_CASFAIL, D_EINTR, D_SPUR, D_ALLOC, D_THR, D_PICK, D_CLOCK, D_NKINDS };
typedef struct { u16 tid; u16 kind; u32 lstep; u32 param; } Rec;
typedef struct {            /* everything that, with the program, determines a run */
  u64 seed; int replay;
  int strat, p_int, p_unint, quantum, pct_d, pct_len, pct_spin, burst_long, race_q, stall_p, stall_max;
  int delay_p, delay_max, sb_cap;
  int casfail_p, eintr_p, spur_p, alloc_k, thr_k, clock_mode, npu, rlim_k, topo, hwfail, affk;
  int chaos, bound;
  int profile, flags;
} Cfg;
enum { CF_OVERFLOW=1 /* a program that overflows the queue is acceptable */ };
#define MAXREC 3000000
typedef struct {
  int status;               /* 0 running, 1 ok, 2 violation, 3 harness error, 4 expected exit */
  char cls[32], msg[400];
  u64 hash, ihash, steps, simns, fair_steps;
  u64 nsw, fired[D_NKINDS], drains, stalls;
  u64 stolen, dropped, drops_stolen, frames, togethers, runs, runexs, exits, tasks, t0, sleeps, barriers, maxlive, contended, heads, nested, resumes, sessions, freezes, meets, full;
  u32 nrec; u32 nthreads; int viol_tid; u64 viol_step;
  char out[150000]; u32 outlen; char err[2000]; u32 errlen; int exitcode;
  u64 edges[1024];          /* bitmap of communication edges */
  Rec rec[MAXREC];
} Res;
extern Res *R; extern Cfg C; extern Prog P; extern Rec *replay_rec; extern u32 replay_n; extern int sim_verbose;

void sim_global_init(void);
void sim_run(void);                              /* does not return */
void sim_finish(int status) __attribute__((noreturn));
int  sim_self(void); int sim_role(int t);
u64  sim_lsteps(int t); u64 sim_step(void);
void *sim_palloc(size_t n);                      /* simulated permanent memory */
int  sim_spawn_ext(void (*f)(int), int arg);
int  sim_thread_done(int t); int sim_thread_blocked(int t); int sim_nthreads(void); int sim_thread_reaped(int t); int sim_thread_create_failed(void); int sim_owns_block(int t, const void *p, size_t n); int hw_npus(void); void hw_session_begin(void); void hw_working(int t); void hw_session_end(int first, int nw); size_t sim_thread_stack(int t);
int  sim_in_fair(void);
void sim_freeze(int t, int on);
void sim_yield_point(void);
void sim_pause(int (*cond)(void*), void *arg);   /* block the calling simulated thread until cond holds */
int  sim_live_blocks(int since, char *desc, size_t n); int sim_block_mark(void);
void sim_log(const char *fmt, ...);
int  sim_alloc_failed(void);
int  sim_hb(void); u32 sim_hb_now(void); int sim_hb_before(int t, u32 c);   /* C11 happens-before, in runs without store delays */
u64  sim_rand(void);
u64  mixh(u64 a, u64 b);
#ifdef __cplusplus
}
#endif
#endif

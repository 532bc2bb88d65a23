/* Workloads: instrumented user code of Lace.  Interprets the program in P, using every public entry point.
 * Compiled as C and as C++, against lace.h or lace14.h. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include LACE_H
#include "sim.h"
#ifdef __cplusplus
extern "C" {
#endif
#ifndef LACE_USE_HWLOC
#define LACE_USE_HWLOC 0
#endif
extern const int work_hwloc = LACE_USE_HWLOC, work_pie = LACE_PIE_TIMES, work_maxarity = MAXAR, work_counts = (LACE_COUNT_TASKS?1:0)|(LACE_COUNT_STEALS?2:0)|(LACE_COUNT_SPLITS?4:0);
extern const char work_variant[] = VARIANT;
#ifdef __cplusplus
}
#endif
typedef struct { u32 a; u32 b; } S8;
typedef struct { u64 a, b; } S16;
typedef struct { u64 v[6]; } S48;
typedef struct { u64 v[14]; } S112;
typedef void *voidp;
#define SI static inline __attribute__((unused))
SI u64 mk_u64(u64 v) { return v; }            SI int eq_u64(u64 a, u64 v) { return a == v; }
SI int mk_int(u64 v) { return (int)v; }       SI int eq_int(int a, u64 v) { return a == (int)v; }
SI double mk_double(u64 v) { return (double)(v>>12)*0.5; } SI int eq_double(double a, u64 v) { return a == mk_double(v); }
SI float mk_float(u64 v) { return (float)(v>>44); } SI int eq_float(float a, u64 v) { return a == mk_float(v); }
SI u8 mk_u8(u64 v) { return (u8)v; }          SI int eq_u8(u8 a, u64 v) { return a == (u8)v; }
SI char mk_char(u64 v) { return (char)v; }    SI int eq_char(char a, u64 v) { return a == (char)v; }
SI short mk_short(u64 v) { return (short)v; } SI int eq_short(short a, u64 v) { return a == (short)v; }
SI u16 mk_u16(u64 v) { return (u16)v; }       SI int eq_u16(u16 a, u64 v) { return a == (u16)v; }
SI u32 mk_u32(u64 v) { return (u32)v; }       SI int eq_u32(u32 a, u64 v) { return a == (u32)v; }
SI long mk_long(u64 v) { return (long)v; }    SI int eq_long(long a, u64 v) { return a == (long)v; }
SI voidp mk_voidp(u64 v) { return (void*)v; } SI int eq_voidp(void *a, u64 v) { return a == (void*)v; }
SI S8 mk_S8(u64 v) { S8 s; s.a = (u32)v; s.b = (u32)(v>>32); return s; } SI int eq_S8(S8 a, u64 v) { return a.a == (u32)v && a.b == (u32)(v>>32); }
SI S16 mk_S16(u64 v) { S16 s; s.a = v; s.b = ~v; return s; } SI int eq_S16(S16 a, u64 v) { return a.a == v && a.b == ~v; }
SI S48 mk_S48(u64 v) { S48 s; for (int k=0; k<6; k++) s.v[k] = v*(k+1); return s; } SI int eq_S48(S48 a, u64 v) { for (int k=0; k<6; k++) if (a.v[k] != v*(k+1)) return 0; return 1; }
SI S112 mk_S112(u64 v) { S112 s; for (int k=0; k<14; k++) s.v[k] = v*(k+1); return s; } SI int eq_S112(S112 a, u64 v) { for (int k=0; k<14; k++) if (a.v[k] != v*(k+1)) return 0; return 1; }

#if LACE_USE_HWLOC
#define H_PU() hw_pu(LACE_WORKER_PU)
#else
#define H_PU()
#endif
static void body(WorkerP *__lace_worker, Task *__lace_dq_head, Inst *i) __attribute__((noinline));

/* memory that must travel with spawn and sync.  pay[0] caller->task, pay[1] task->caller, pay[2] caller's counter */
SI void pay_before(Inst *par, Inst *x)
{
  x->pay[0] = h_val(x, 100); x->pay[3] = h_val(x, 103);
  if (par) { par->paycnt++; par->pay[2] = par->paycnt; x->payexp = par->paycnt; }
}
SI void pay_enter(Inst *i)
{
  if (i->how == HOW_COPY) { Inst *g = i->parent; u64 v = g->pay[0]; if (v != h_val(g, 100)) h_bad_pay(g, "caller's memory", v, h_val(g, 100)); return; }
  u64 v = i->pay[0]; if (v != h_val(i, 100)) h_bad_pay(i, "spawner's memory", v, h_val(i, 100));
  v = i->pay[3]; if (v != h_val(i, 103)) h_bad_pay(i, "spawner's memory", v, h_val(i, 103));
  if (i->parent && i->parent->how != HOW_COPY) { v = i->parent->pay[2]; if (v < i->payexp || v > i->parent->paycnt) h_bad_pay(i, "spawner's counter", v, i->payexp); }
}
SI void pay_leave(Inst *i) { if (i->how != HOW_COPY) { i->pay[4] = h_val(i, 104); i->pay[1] = h_val(i, 101); } }
SI void pay_after(Inst *x)
{
  u64 v = x->pay[1]; if (v != h_val(x, 101)) h_bad_pay(x, "memory written by the task", v, h_val(x, 101));
  v = x->pay[4]; if (v != h_val(x, 104)) h_bad_pay(x, "memory written by the task", v, h_val(x, 104));
}

#define IMPLEMENT_TASKS
#include TASKS_INC

LACE_TYPEDEF_CB(u64, w1_cb, Inst*)
LACE_TYPEDEF_CB(void, v2_cb, Inst*, AT2)
TASK_IMPL_0(u64, W0) { h_t0(0, LACE_WORKER_ID, __lace_worker, lace_get_worker()); return 0x7070707070707070ULL; }
VOID_TASK_IMPL_0(V0) { h_t0(1, LACE_WORKER_ID, __lace_worker, lace_get_worker()); }

/* bulk tasks: k-th of a large number of small tasks */
SI void bulk_run(Bulk *b, u32 k, u64 v, WorkerP *__lace_worker)
{
  h_bulk_enter(b, k, LACE_WORKER_ID, __lace_worker, lace_get_worker());
  if (v != h_bulk_val(b, k, 1)) h_fail("bad-arg", "bulk task %u received a wrong argument", k);
  if (b->cell) { u64 c = b->cell[k]; if (c != h_bulk_val(b, k, 2)) h_fail("stale-memory", "bulk task %u reads %#lx from its spawner's memory", k, (unsigned long)c); b->cell[k] = h_bulk_val(b, k, 3); }
  h_bulk_leave(b, k, LACE_WORKER_ID);
}
TASK_3(u64, BW, Bulk*, b, u32, k, u64, v) { bulk_run(b, k, v, __lace_worker); return h_bulk_val(b, k, 0); }
VOID_TASK_3(BV, Bulk*, b, u32, k, u64, v) { bulk_run(b, k, v, __lace_worker); }
#define BULK_SPAWN(b) do { int k_ = h_bulk_spawn(b); if ((b)->cell) (b)->cell[k_] = h_bulk_val(b, k_, 2); if (isv) SPAWN(BV, b, (u32)k_, h_bulk_val(b, k_, 1)); else SPAWN(BW, b, (u32)k_, h_bulk_val(b, k_, 1)); h_bulk_spawned(b); } while (0)
#define BULK_SYNC(b) do { int k_ = h_bulk_top(b), drop_ = (o.b & 2) && (h_bulk_val(b, k_, 7) & 3) == 0; u64 r_ = 0; if (drop_) DROP(); else if (isv) SYNC(BV); else r_ = SYNC(BW); \
  h_bulk_sync(b, k_, drop_, isv, r_); if ((b)->cell && h_bulk_ran(b, k_)) { u64 c = (b)->cell[k_]; if (c != h_bulk_val(b, k_, 3)) h_fail("stale-memory", "what bulk task %d wrote is %#lx for its spawner", k_, (unsigned long)c); } } while (0)

#define SYNC_TOP() do { Inst *x_ = h_top(i); h_sync_begin(i, x_, LACE_WORKER_ID); switch (x_->kind) { CASES_SYNC(x_) default: abort(); } pay_after(x_); h_sync_end(i, x_, LACE_WORKER_ID, 0); } while (0)
#define DROP_TOP() do { Inst *x_ = h_top(i); h_sync_begin(i, x_, LACE_WORKER_ID); DROP(); int e_ = h_executed(x_); h_sync_end(i, x_, LACE_WORKER_ID, 1); if (e_) pay_after(x_); } while (0)
#define SPAWN_NODE(n_) do { Inst *x_ = h_new(i, (n_), HOW_SPAWN, LACE_WORKER_ID); pay_before(i, x_); h_spawn_begin(i, x_, LACE_WORKER_ID); x_->slot = __lace_dq_head; switch (x_->kind) { CASES_SPAWN(x_) default: abort(); } h_spawned(i, x_, LACE_WORKER_ID); } while (0)

static void body(WorkerP *__lace_worker, Task *__lace_dq_head, Inst *i)
{
  Op o;
  pay_enter(i);
  while (h_next(i, &o, LACE_WORKER_ID, __lace_worker, lace_get_worker())) {
    switch (o.op) {
    case O_SPAWN: for (int k=0; k<=o.b; k++) SPAWN_NODE(o.a); break;
    case O_SYNC: if (h_top(i)) SYNC_TOP(); break;
    case O_SYNCALL: while (h_top(i)) SYNC_TOP(); break;
    case O_DROP: if (h_top(i)) DROP_TOP(); break;
    case O_DROPALL: while (h_top(i)) DROP_TOP(); break;
    case O_CALL: { Inst *x = h_new(i, o.a, HOW_CALL, LACE_WORKER_ID); pay_before(i, x); switch (x->kind) { CASES_CALL(x) default: abort(); } h_call_end(x, LACE_WORKER_ID); pay_after(x); } break;
    case O_NEWFRAME: { Inst *x = h_new(i, o.a, HOW_NF, LACE_WORKER_ID); pay_before(i, x); switch (x->kind) { CASES_NEWFRAME(x) default: abort(); } h_call_end(x, LACE_WORKER_ID); pay_after(x); } break;
    case O_TOGETHER: { Inst *x = h_new(i, o.a, HOW_TG, LACE_WORKER_ID); pay_before(i, x); switch (x->kind) { CASES_TOGETHER(x) default: abort(); } h_call_end(x, LACE_WORKER_ID); } break;
    case O_RUNIN: { Inst *x = h_new(i, o.a, HOW_RUNIN, LACE_WORKER_ID); pay_before(i, x); switch (x->kind) { CASES_RUN(x) default: abort(); } h_call_end(x, LACE_WORKER_ID); pay_after(x); } break;
    case O_RUNEXIN: { Inst *x = h_new(i, o.a, HOW_RUNIN, LACE_WORKER_ID); pay_before(i, x); switch (x->kind) { CASES_RUNEX(x) default: abort(); } h_call_end(x, LACE_WORKER_ID); pay_after(x); } break;
    case O_YIELD: YIELD_NEWFRAME(); break;
    case O_STEAL: for (int k=0; k<=o.b; k++) STEAL_RANDOM(); break;
    case O_SHARE: LACE_MAKE_ALL_SHARED(); break;
    case O_VARS: { h_head(i, LACE_WORKER_ID, lace_get_head(lace_get_worker()), __lace_dq_head);
        Task *save = __lace_dq_head; { LACE_VARS; if (__lace_dq_head != save) h_head(i, LACE_WORKER_ID, __lace_dq_head, save); } } break;
    case O_WORK: for (int k=0; k<o.b+o.a*16; k++) i->pay[5] = i->pay[5]*3+k; break;
    case O_CROWDWAIT: h_crowd_wait(); break;
    case O_BARS: if (i->how == HOW_COPY) { int w = LACE_WORKER_ID; for (int k=0; k<o.a; k++) { h_bar(i, w, 0); lace_barrier(); h_bar(i, w, 1); } } break;   /* very many barriers */
    case O_BARRIER: if (i->how == HOW_COPY) {
        volatile u64 *s = h_slots(i); int w = LACE_WORKER_ID, n = (int)lace_workers();
        int g = ++i->barcnt[0];
        /* slots 8..: one per worker, written before, read after */
        s[8+w] = (u64)g*1000 + w;
        h_bar(i, w, 0); lace_barrier(); h_bar(i, w, 1);
        for (int k=0; k<n; k++) { u64 v = s[8+k]; if (v < (u64)g*1000 || v > (u64)(g+1)*1000+k || v % 1000 != (u64)k) h_bad_pay(i, "barrier slot", v, (u64)g*1000+k); }
      } break;
    case O_T0: {
        h_t0_spawn(); h_spawn_plain(i, LACE_WORKER_ID);
        if (o.b & 1) { SPAWN(V0); h_spawned_plain(i, LACE_WORKER_ID); } else { SPAWN(W0); h_spawned_plain(i, LACE_WORKER_ID); }
        if (o.b & 2) { SPAWN_NODE(o.a); SYNC_TOP(); }
        if (o.b & 1) SYNC(V0); else if (SYNC(W0) != 0x7070707070707070ULL) h_fail("bad-result", "argument-less task: wrong result");
        h_sync_plain(i, LACE_WORKER_ID, 1); h_t0_sync();
        if (o.b & 4) { h_t0_spawn(); if (NEWFRAME(W0) != 0x7070707070707070ULL) h_fail("bad-result", "argument-less NEWFRAME task: wrong result"); h_t0_sync(); h_t0_spawn(); NEWFRAME(V0); h_t0_sync(); }
        if (o.b & 8) { h_t0_group(1); TOGETHER(V0); h_t0_group(0); h_t0_group(1); TOGETHER(W0); h_t0_group(0); }
        if (o.b & 16) { h_t0_spawn(); if (CALL(W0) != 0x7070707070707070ULL) h_fail("bad-result", "argument-less call: wrong result"); h_t0_sync(); h_t0_spawn(); CALL(V0); h_t0_sync(); h_t0_spawn(); RUN(V0); h_t0_sync(); }
      } break;
    case O_FREEZE: h_freeze(LACE_WORKER_ID, o.b, 1); break;
    case O_THAW: h_freeze(LACE_WORKER_ID, 0xff, 0); break;
    case O_AWAIT: if (lace_workers() > 1) while (h_begun_children(i) < h_nchildren(i)) {
        /* keeps spawning and syncing a trivial task until idle workers have taken every outstanding child */
        h_t0_spawn(); h_spawn_plain(i, LACE_WORKER_ID); SPAWN(V0); h_spawned_plain(i, LACE_WORKER_ID);
        SYNC(V0); h_sync_plain(i, LACE_WORKER_ID, 1); h_t0_sync();
      } break;
    case O_BUSY: if (lace_workers() > 1) h_wait_begun(i); break;    /* no Lace call until all children were taken */
    case O_MEET: h_meet(i, o.b); break;
    case O_RENDEZ: if (i->how == HOW_COPY && lace_workers() > 1) {
        int n = (int)lace_workers();
        if (LACE_WORKER_ID == o.b % n) { for (int k=1; k<n; k++) SPAWN_NODE(o.a); LACE_MAKE_ALL_SHARED(); h_meet(i, 0); while (h_top(i)) SYNC_TOP(); }
        else while (!h_meet_full(i)) STEAL_RANDOM();
      } break;
    case O_FLAGSET: h_flag(i, 1); break;
    case O_FLAGWAIT: h_flag(i, 0); break;
    case O_INSPECT: for (int k=0; h_child(i, k); k++) {
        Inst *x = h_child(i, k); Task *t = (Task*)x->slot; int b = h_begun(x), c = TASK_IS_COMPLETED(t), s = c && (h_val(x, 20) & 1) ? 1 : TASK_IS_STOLEN(t);   /* sometimes only the first question, which must suffice */
        h_status(x, b, s, c);
        if (c) { switch (x->kind) { CASES_RESULT(x, t) default: abort(); } pay_after(x); }
      } break;
    case O_POLL: for (int k=0; h_child(i, k); k++) { Inst *x = h_child(i, k); Task *t = (Task*)x->slot; while (!TASK_IS_COMPLETED(t)) {} switch (x->kind) { CASES_RESULT(x, t) default: abort(); } pay_after(x); } break;
    case O_BULK: {
        int n = h_bulk_count(&o), isv = o.b & 1, step = 1 + n/4;
        Bulk *b = h_bulk_new(i, n, LACE_WORKER_ID);
        for (int k=0; k<n; k++) {
          BULK_SPAWN(b);
          if ((o.b & 4) && k % step == 1) LACE_MAKE_ALL_SHARED();
          if ((o.b & 32) && h_bulk_val(b, k, 8) % 5 == 0) BULK_SYNC(b);
          if ((o.b & 8) && k % step == 3) { h_head(i, LACE_WORKER_ID, lace_get_head(lace_get_worker()), __lace_dq_head); Task *save = __lace_dq_head; { LACE_VARS; if (__lace_dq_head != save) h_head(i, LACE_WORKER_ID, __lace_dq_head, save); } }
        }
        if (o.b & 64) { h_t0_spawn(); if (NEWFRAME(W0) != 0x7070707070707070ULL) h_fail("bad-result", "argument-less NEWFRAME task: wrong result"); h_t0_sync(); }
        if (o.b & 8) h_head(i, LACE_WORKER_ID, lace_get_head(lace_get_worker()), __lace_dq_head);
        while (h_bulk_top(b) >= 0) BULK_SYNC(b);
      } break;
    case O_CB: { Inst *x = h_new(i, o.a, HOW_CALL, LACE_WORKER_ID); pay_before(i, x);
        if (x->kind == 2) { w1_cb f = TASK(W1); u64 r = WRAP(f, h_once(x)); if (r != h_val(x, 0)) h_bad_result(x, 3); }
        else if (x->kind == 5) { v2_cb f = TASK(V2); WRAP(f, h_once(x), mk_u64(h_val(x, 2)) ); }
        else switch (x->kind) { CASES_CALL(x) default: abort(); }
        h_call_end(x, LACE_WORKER_ID); pay_after(x); } break;
    }
  }
  while (h_top(i)) SYNC_TOP();
  pay_leave(i);
}

static void ext_call(int thr, Op o)
{
        Inst *x = h_ext_begin(thr, o.op, o.a);
        pay_before(0, x);
        switch (o.op) {
          case X_RUN: switch (x->kind) { CASES_RUN(x) default: abort(); } break;
          case X_RUNEX: switch (x->kind) { CASES_RUNEX(x) default: abort(); } break;
          case X_NEWFRAME: switch (x->kind) { CASES_NEWFRAME(x) default: abort(); } break;
          case X_TOGETHER: switch (x->kind) { CASES_TOGETHER(x) default: abort(); } break;
        }
        h_ext_end(thr, o.op, x);
        if (o.op != X_TOGETHER) pay_after(x);
}
static void ext_script(int thr)
{
  Op o;
  while (h_xnext(thr, &o)) {
    h_not_worker(lace_is_worker(), lace_get_worker());
    switch (o.op) {
    case X_RUN: case X_RUNEX: case X_NEWFRAME: case X_TOGETHER: {
        h_gate_enter(thr); ext_call(thr, o); h_gate_leave(thr);
      } break;
    case X_T0: {
        h_gate_enter(thr);
        if (o.b == 0) { h_t0_spawn(); if (RUN(W0) != 0x7070707070707070ULL) h_fail("bad-result", "argument-less RUN: wrong result"); h_t0_sync(); }
        else if (o.b == 1) { h_t0_spawn(); RUN(V0); h_t0_sync(); }
        else if (o.b == 2) { h_t0_spawn(); if (NEWFRAME(W0) != 0x7070707070707070ULL) h_fail("bad-result", "argument-less NEWFRAME: wrong result"); h_t0_sync(); }
        else if (o.b == 3) { h_t0_group(1); TOGETHER(W0); h_t0_group(0); }
        else if (o.b == 4) { h_t0_spawn(); RUNEX(V0); h_t0_sync(); }
        else { h_t0_spawn(); if (RUNEX(W0) != 0x7070707070707070ULL) h_fail("bad-result", "argument-less RUNEX: wrong result"); h_t0_sync(); }
        h_gate_leave(thr);
      } break;
    case X_SUSPEND: lace_suspend(); if (thr) h_gate_leave(thr); else h_suspended(); break;
    case X_RESUME: if (thr) h_gate_enter(thr); lace_resume(); if (!thr) h_resumed(); break;
    case X_SLEEPCHECK: h_sleepcheck(thr); break;
    case X_DELAY: if (o.a) h_delay_long(o.a*64); else h_delay(o.b); break;
    case X_CROWD: h_gate_enter(thr); h_crowd(o.a, o.b+45); h_gate_leave(thr); break;
#if LACE_COUNT_EVENTS
    case X_CRESET: h_creset_begin(); lace_count_reset(); h_creset_done(o.b); break;
    case X_CREPORT: h_report(1); lace_count_report_file(stdout); h_report(0); break;
#endif
    }
  }
}

#ifdef __cplusplus
extern "C" {
#endif
void work_ext(int thr) { ext_script(thr); }
void work_crowd(int j) { Op o; h_not_worker(lace_is_worker(), lace_get_worker()); while (h_crowd_op(j, &o)) ext_call(1000+j, o); }
void work_main(void)
{
  for (int s=0; s<h_nsess(); s++) {
    h_session_begin(s);
    h_not_worker(lace_is_worker(), lace_get_worker());
    if (h_sess_stk(s)) lace_set_stacksize((size_t)(h_sess_stk(s)-1));
    if (h_sess_verb(s)) lace_set_verbosity(h_sess_verb(s)-1);
    h_settings(lace_get_stacksize(), lace_get_pu_count());
    lace_start((unsigned)h_sess_nw(s), h_sess_dq(s, sizeof(Task)));
    h_session_started(s, lace_workers());
    h_ext_spawn(s);
    if (h_sess_nscripts(s) > 0) ext_script(0);
    h_ext_join(s);
    h_session_stopping(s);
    lace_stop();
    h_session_end(s);
  }
}
#ifdef __cplusplus
}
#endif

/* Reference model and oracles.  Runs un-instrumented, inside the simulated execution; none of these calls is a
 * scheduling point unless it blocks through sim_pause / sim_yield_point. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sim.h"

#define MAGIC 0x1CE1CE1CE1CE1CEULL
#define MAXINST 20000
static Inst *pool; static int ninst;
static Frame *root_frame, *top;
static int nw, dq, cur_sess = -1, in_stop;
static int wtid[MAXW];                    /* worker id -> simulated thread, this session */
static int tidw[MAXT];
static int live[MAXW];                    /* unsynced tasks on each worker's queue */
static int spawning[MAXW]; static u64 spawn_l0[MAXW];
static int ext_running, ex_running;
static int t0_spawned, t0_synced, t0_run; static u64 plain_spawned;   /* argument-less tasks in queues: their thief is not known to the model */
static int sess_first_thread, sess_blk;
static int gate_closed, gate_inside;
static u64 nspawn_sess, nstolen_sess, wspawns[2][MAXW], wstolen[2][MAXW], pie_mark;   /* [1]: at the last reset */
static void counts_reset(void) { memcpy(wspawns[1], wspawns[0], sizeof wspawns[0]); memcpy(wstolen[1], wstolen[0], sizeof wstolen[0]); }
static int count_fuzzy; static u32 out_mark;
static u64 spawn_base, stolen_base;
static int xpos[MAXEXT], ext_tid[MAXEXT];
static u64 stop_l[MAXT]; static int stop_n;
static int is_suspended;

/* side guarantees are judged only where the property under check is about them */
static int judges(int a, int b, int c) { int p = C.profile; return p == a || p == b || p == c; }
static Inst *ialloc(void)
{
  if (!pool) pool = calloc(MAXINST, sizeof(Inst));
  if (ninst == MAXINST) { R->status = 3; snprintf(R->msg, sizeof R->msg, "too many instances"); sim_finish(3); }
  Inst *i = &pool[ninst]; i->magic = MAGIC; i->id = ninst++; return i;
}
static int valid(const Inst *i)
{
  return pool && (uintptr_t)i >= (uintptr_t)pool && (uintptr_t)i < (uintptr_t)(pool+ninst) && ((uintptr_t)i-(uintptr_t)pool) % sizeof(Inst) == 0 && i->magic == MAGIC;
}
static const char *nm(const Inst *i) { static char b[8][64]; static int k; char *s = b[k++&7]; if (!i) return "none"; snprintf(s, 64, "task %d (node %d arity %d%s)", i->id, i->node, i->kind/2, i->kind&1 ? " void" : ""); return s; }
u64 h_val(const Inst *i, int k) { return mixh((u64)i->node*1000003 + i->seqno*7919 + 17, k*0x1234567ULL + 99); }
int h_kindof(int node) { return P.node[node].kind; }
int h_nw(void) { return nw; }

/* happens-before in the sense of C11; judged where the property is about memory order */
static void hb_need(int t, u32 c, const char *fmt, const Inst *i) { if ((judges(2,10,24)) && !sim_hb_before(t, c)) { char b[200]; snprintf(b, sizeof b, fmt, nm(i)); h_fail("unordered", "%s is not ordered by C11 synchronisation", b); } }
/* ------------------------------------------------ creation, entry, exit */
Inst *h_new(Inst *par, int node, int how, int w)
{
  Inst *i = ialloc();
  i->node = node; i->kind = P.node[node].kind; i->how = how; i->wspawn = w; i->wexec = -1; i->parent = par; i->sess = cur_sess;
  i->seqno = i->id; i->group = (how == HOW_TG || how == HOW_XTG);
  i->ext = how >= HOW_RUN; i->exclusive = how == HOW_RUNEX;
  i->pay = sim_palloc(i->group ? 64+8*MAXW : 64);
  i->frame = par && how != HOW_NF && how != HOW_TG ? par->frame : 0;
  i->spawn_live = -1; i->thr = -1;
  i->hb_t0 = sim_self(); i->hb_c0 = sim_hb_now();
  return i;
}
static void push_frame(int kind, Inst *i)
{
  Frame *f = calloc(1, sizeof *f); f->kind = kind; f->up = top; f->on = 1; f->isext = i->ext; top = f; i->frame = f;
  for (Frame *q = f->up; q; q = q->up) if (q->kind) { R->nested++; break; }
}
static void pop_frame(Inst *i)
{
  if (top != i->frame) h_fail("frame-mixed", "%s ends while another frame is active", nm(i));
  top->on = 0; top = top->up;
}
static void event(Inst *i)
{
  if (i->frame == top) return;
  for (Frame *f = top; f; f = f->up) if (f == i->frame) h_fail("frame-leak", "%s makes progress while a NEWFRAME/TOGETHER frame is active", nm(i));
  int e = 0; for (Inst *q = i; q; q = q->parent) if (q->ext && q->frame == i->frame) e = 1;
  if (!e) h_fail("frame-late", "%s makes progress after its frame ended", nm(i));
}
static void who(int w, const void *wp, const void *gw, int isw)
{
  int t = sim_self();
  if (sim_role(t) != 1) h_fail("identity", "task runs on thread %d which is not a Lace worker thread", t);
  if (wp != gw) h_fail("identity", "task's worker %p differs from lace_get_worker() %p", wp, gw);
  if (isw != 1) h_fail("identity", "lace_is_worker() is %d inside a task", isw);
  if (w < 0 || w >= nw) h_fail("identity", "worker id %d with %d workers", w, nw);
  if (tidw[t] < 0) {
    if (wtid[w] >= 0) h_fail("identity", "threads %d and %d are both worker %d", wtid[w], t, w);
    tidw[t] = w; wtid[w] = t; if (work_hwloc) hw_working(t);
  } else if (tidw[t] != w) h_fail("identity", "thread %d was worker %d and is now %d", t, tidw[t], w);
}
void h_not_worker(int isw, const void *gw) { if (isw || gw) h_fail("identity", "lace_is_worker() is true in a non-Lace thread"); }

Inst *h_once(Inst *i) { i->argev++; return i; }
Inst *h_enter(Inst *i, int kind, int w, const void *wp, const void *gw, int isw)
{
  who(w, wp, gw, isw);
  if (!valid(i)) h_fail("bad-arg", "task of arity %d%s started with a corrupt first argument %p", kind/2, kind&1 ? " (void)" : "", (void*)i);
  if (i->kind != kind) h_fail("wrong-task", "%s started as arity %d%s", nm(i), kind/2, kind&1 ? " void" : "");
  if (i->argev != 1) h_fail("bad-arg", "the argument expressions of %s were evaluated %d times", nm(i), i->argev);
  if (i->sess != cur_sess) h_fail("wrong-session", "%s of session %d runs in session %d", nm(i), i->sess, cur_sess);
  if (in_stop == 2) h_fail("after-stop", "%s runs after lace_stop returned", nm(i));
  R->tasks++;
  hb_need(i->hb_t0, i->hb_c0, "start of %s after its SPAWN/RUN", i);
  if (i->group) {
    if (i->state == I_DONE) h_fail("together-late", "copy of %s starts after TOGETHER returned", nm(i));
    if (i->wmask[w>>6] >> (w&63) & 1) h_fail("together-twice", "worker %d executes %s twice", w, nm(i));
    if (!i->begun) {
      if (i->parent && i->parent->frame != top) h_fail("frame-mixed", "TOGETHER %s starts in the wrong frame", nm(i));
      push_frame(2, i); R->togethers++;
      if (i->ext) { ext_running++; if (ex_running || (i->exclusive && ext_running > 1)) h_fail("runex-overlap", "%s starts while a RUNEX task runs", nm(i)); }
    } else event(i);
    i->begun++; i->wmask[w>>6] |= 1ULL<<(w&63); i->state = I_RUNNING;
    Inst *c = ialloc();
    c->node = i->node; c->kind = kind; c->how = HOW_COPY; c->parent = i; c->sess = cur_sess; c->wspawn = c->wexec = w; c->seqno = i->seqno; c->state = I_RUNNING; c->frame = i->frame; c->pay = sim_palloc(64); c->spawn_live = -1;
    sim_log("w%d enters copy of %s", w, nm(i));
    return c;
  }
  if (i->state == I_DROPPED) h_fail("dropped-ran", "%s runs although it was dropped", nm(i));
  if (i->state != I_NEW) h_fail("run-twice", "%s starts a second time (first on worker %d, now %d)", nm(i), i->wexec, w);
  i->state = I_RUNNING; i->wexec = w;
  sim_log("w%d enters %s", w, nm(i));
  switch (i->how) {
  case HOW_SPAWN:
    if (w != i->wspawn) { R->stolen++; nstolen_sess++; wstolen[0][w]++; }
    else if (i->seen_stolen) h_fail("task-status", "%s runs on its own worker after TASK_IS_STOLEN was true", nm(i));
    else if (i->spawn_live == 1) { i->spawn_live = -2; live[w]--; }   /* in place: its slot is free again */
    event(i);
    break;
  case HOW_CALL: case HOW_RUNIN:
    if (w != i->wspawn) h_fail("wrong-worker", "%s called on worker %d runs on %d", nm(i), i->wspawn, w);
    event(i);
    break;
  case HOW_NF: case HOW_XNF:
    if (i->parent && i->parent->frame != top) h_fail("frame-mixed", "NEWFRAME %s starts in the wrong frame", nm(i));
    push_frame(1, i); R->frames++;
    break;
  default:
    i->frame = top;
    break;
  }
  if (i->ext) {
    ext_running++;
    if (ex_running || (i->exclusive && ext_running > 1)) h_fail("runex-overlap", "%s starts while %s", nm(i), ex_running ? "a RUNEX task runs" : "another external task runs");
    if (i->exclusive) ex_running = 1;
  }
  return i;
}
void h_leave(Inst *c, int w)
{
  Inst *i = c->how == HOW_COPY ? c->parent : c;
  event(c);
  if (c->wexec != w) h_fail("wrong-worker", "%s began on worker %d and ends on %d", nm(i), c->wexec, w);
  sim_log("w%d leaves %s", w, nm(i));
  c->state = I_DONE;
  if (!i->hb_t1) { int n = i->group ? nw : 1; i->hb_t1 = calloc(n, sizeof(int)); i->hb_c1 = calloc(n, sizeof(u32)); }
  i->hb_t1[i->group ? w : 0] = sim_self(); i->hb_c1[i->group ? w : 0] = sim_hb_now();
  if (c->how == HOW_COPY) {
    i->wdone[w>>6] |= 1ULL<<(w&63); i->copies++;
    if (i->copies == nw) { pop_frame(i); if (i->ext) ext_running--; }
    return;
  }
  if (i->how == HOW_NF || i->how == HOW_XNF) pop_frame(i);
  if (i->ext) { ext_running--; if (i->exclusive) ex_running = 0; }
}
int h_next(Inst *i, Op *op, int w, const void *wp, const void *gw)
{
  if (wp != gw) h_fail("identity", "worker changed inside %s", nm(i));
  if (i->wexec != w) h_fail("wrong-worker", "%s moved from worker %d to %d", nm(i), i->wexec, w);
  event(i);
  Node *n = &P.node[i->node];
  if (i->pc >= n->n) return 0;
  *op = P.op[n->first + i->pc++];
  return 1;
}
void h_bad_arg(Inst *i, int k) { h_fail("bad-arg", "%s received a wrong argument %d", nm(i), k); }
void h_bad_pay(Inst *i, const char *what, u64 got, u64 want) { h_fail("stale-memory", "%s: %s is %#lx, expected %#lx", nm(i), what, (unsigned long)got, (unsigned long)want); }
void h_bad_result(Inst *i, u64 got) { h_fail("bad-result", "wrong result of %s: %#lx", nm(i), (unsigned long)got); }

static void hb_ended(Inst *i) { if (i->hb_t1) for (int k=0; k<(i->group ? nw : 1); k++) hb_need(i->hb_t1[k], i->hb_c1[k], "return of the SYNC/RUN of %s after the end of the task", i); }
/* ------------------------------------------------ spawn, sync, drop */
static void cap_begin(int w)
{
  spawning[w] = 1; spawn_l0[w] = sim_lsteps(sim_self());
}
static void cap_end(int w)
{
  if (live[w] >= dq && judges(15,20,0)) h_fail("capacity", "SPAWN of task %d succeeds on a queue of %d", live[w]+1, dq);
  u64 d = sim_lsteps(sim_self()) - spawn_l0[w];
  if (d > 400) h_fail("spawn-unbounded", "SPAWN took %lu own steps", (unsigned long)d);
  spawning[w] = 0; live[w]++; nspawn_sess++; wspawns[0][w]++;
  if ((u64)live[w] > R->maxlive) R->maxlive = live[w];
  if (live[w] == dq) R->full++;
}
void h_spawn_begin(Inst *par, Inst *ch, int w) { (void)par; (void)ch; 
  if (par->sp == par->cap) { par->cap = par->cap ? par->cap*2 : 8; par->stack = realloc(par->stack, par->cap*sizeof(Inst*)); }
  par->stack[par->sp++] = ch;
  ch->spawn_live = -1;
  cap_begin(w); }
void h_spawned(Inst *par, Inst *ch, int w) { (void)par; cap_end(w); ch->spawn_live = -1; sim_log("w%d spawned %s (live %d)", w, nm(ch), live[w]); }
void h_spawn_plain(Inst *par, int w) { (void)par; plain_spawned++; cap_begin(w); }
void h_spawned_plain(Inst *par, int w) { (void)par; cap_end(w); }
void h_sync_plain(Inst *par, int w, int ran) { (void)par; (void)ran; live[w]--; }
Inst *h_top(Inst *par) { return par && par->sp ? par->stack[par->sp-1] : 0; }
void h_sync_begin(Inst *par, Inst *ch, int w) { (void)par; (void)w; ch->spawn_live = 1; sim_log("w%d syncs %s", w, nm(ch)); }
void h_sync_end(Inst *par, Inst *ch, int w, int drop)
{
  event(par);
  if (ch->state == I_RUNNING) h_fail("early-return", "%s of %s returned before it finished", drop ? "DROP" : "SYNC", nm(ch));
  if (ch->state == I_NEW) {
    if (!drop) h_fail("lost-task", "SYNC of %s returned but it never ran", nm(ch));
    ch->state = I_DROPPED; R->dropped++;
  } else if (drop) {
    if (ch->wexec == ch->wspawn) h_fail("drop-ran", "DROP executed %s in place", nm(ch));
    R->drops_stolen++;
  }
  hb_ended(ch);
  if (ch->spawn_live != -2) live[w]--;
  par->sp--;
  sim_log("w%d %s of %s done", w, drop ? "DROP" : "SYNC", nm(ch));
}
void h_ran(Inst *ch)
{
  if (ch->state == I_RUNNING) h_fail("early-return", "SYNC of %s returned before it finished", nm(ch));
  if (ch->state != I_DONE) h_fail("lost-task", "SYNC of %s returned but it never ran", nm(ch));
}
/* what TASK_IS_STOLEN and TASK_IS_COMPLETED said about an unsynced task; begun: it had begun before they were read */
int h_begun(Inst *ch) { return ch->state != I_NEW && !C.delay_p; }
Inst *h_child(Inst *par, int k) { return k < par->sp ? par->stack[k] : 0; }
void h_status(Inst *ch, int begun, int stolen, int completed)
{
  R->heads++;
  if (completed && !stolen) h_fail("task-status", "%s is reported completed but not stolen", nm(ch));
  if (stolen && ch->wexec == ch->wspawn) h_fail("task-status", "%s is reported stolen but runs on its own worker", nm(ch));
  if (completed && ch->state != I_DONE) h_fail("task-status", "%s is reported completed and has not ended", nm(ch));
  if (!stolen && ch->seen_stolen) h_fail("task-status", "%s is no longer reported stolen", nm(ch));
  if (!stolen && begun) h_fail("task-status", "%s runs on another worker and is reported not stolen", nm(ch));
  if (completed) hb_ended(ch);
  if (stolen) ch->seen_stolen = 1;
}
/* ------------------------------------------------ bulk tasks: state 0 not spawned, 1 spawned, 2 running, 3 done here, 4 done elsewhere, 5 dropped */
static Bulk *bulks; static int nbulk;
Bulk *h_bulk_new(Inst *i, int n, int w)
{
  Bulk *b = calloc(1, sizeof *b); b->par = i; b->id = nbulk++; b->n = n; b->w = w; b->st = calloc(n, 1); b->key = mixh(i->id*77+n, b->id); b->next = bulks; bulks = b;
  b->stk = calloc(n, sizeof(int)); if (n <= 3000) b->cell = sim_palloc(8*(size_t)n);
  sim_log("w%d: %d bulk tasks", w, n);
  return b;
}
u64 h_bulk_val(Bulk *b, u32 k, int j) { return mixh(b->key + k, j); }
int h_bulk_count(const Op *o) { return o->b & 16 ? o->a*16 : o->a; }
int h_bulk_spawn(Bulk *b)
{
  int k = b->nx++; b->st[k] = 1; b->stk[b->sp++] = k; cap_begin(b->w); return k;
}
void h_bulk_spawned(Bulk *b) { cap_end(b->w); }
int h_bulk_top(Bulk *b) { return b->sp ? b->stk[b->sp-1] : -1; }
void h_bulk_enter(Bulk *b, u32 k, int w, const void *wp, const void *gw)
{
  who(w, wp, gw, 1);
  Bulk *q = bulks; while (q && q != b) q = q->next;
  if (!q) h_fail("bad-arg", "bulk task started with a corrupt first argument %p", (void*)b);
  if (k >= (u32)b->n) h_fail("bad-arg", "bulk task with index %u of %d", k, b->n);
  if (in_stop == 2 || b->par->sess != cur_sess) h_fail("after-stop", "bulk task runs after lace_stop returned");
  int s = b->st[k];
  if (s != 1) h_fail(s & 0x80 && (s & 7) == 5 ? "dropped-ran" : "run-twice", "bulk task %u of %d runs %s", k, b->n, s == 0 ? "and was never spawned" : (s & 7) == 5 ? "although it was dropped" : "a second time");
  event(b->par); R->tasks++;
  if (w != b->w) { R->stolen++; nstolen_sess++; wstolen[0][w]++; }
  b->st[k] = 2;
}
void h_bulk_leave(Bulk *b, u32 k, int w) { event(b->par); b->st[k] = w == b->w ? 3 : 4; }
int h_bulk_ran(Bulk *b, int k) { int s = b->st[k] & 7; return s == 3 || s == 4; }
void h_bulk_sync(Bulk *b, int k, int drop, int isvoid, u64 res)
{
  event(b->par);
  int s = b->st[k];
  if (s == 2) h_fail("early-return", "%s of bulk task %d returned before it finished", drop ? "DROP" : "SYNC", k);
  if (s == 1 && !drop) h_fail("lost-task", "SYNC of bulk task %d returned but it never ran", k);
  if (s == 3 && drop) h_fail("drop-ran", "DROP executed bulk task %d in place", k);
  if (!drop && !isvoid && res != h_bulk_val(b, k, 0)) h_fail("bad-result", "wrong result of bulk task %d", k);
  if (s == 1) { s = 5; R->dropped++; } else if (drop) R->drops_stolen++;
  b->st[k] = 0x80|s; live[b->w]--; b->sp--;
}
int h_executed(Inst *ch) { return ch->state == I_DONE; }
void h_call_end(Inst *ch, int w)
{
  if (ch->group) {
    for (int k=0; k<nw; k++) if (!(ch->wdone[k>>6] >> (k&63) & 1)) h_fail("together-incomplete", "TOGETHER of %s returned, worker %d has %s its copy (%d of %d workers have)", nm(ch), k, ch->wmask[k>>6] >> (k&63) & 1 ? "not finished" : "not begun", ch->copies, nw);
    ch->state = I_DONE;
  }
  if (ch->state == I_NEW) h_fail("lost-task", "call of %s returned but it never ran", nm(ch));
  if (ch->state != I_DONE) h_fail("early-return", "call of %s returned before it finished", nm(ch));
  hb_ended(ch);
  if (ch->parent) { event(ch->parent); if (ch->parent->wexec != w) h_fail("wrong-worker", "%s moved between workers", nm(ch->parent)); }
}
void h_t0(int isvoid, int w, const void *wp, const void *gw) { (void)isvoid; who(w, wp, gw, 1); t0_run++; R->t0++; }
u64 h_t0_count(void) { return t0_run; }
void h_t0_spawn(void) { t0_spawned++; }
void h_t0_sync(void) { t0_synced++; if (t0_run < t0_synced || t0_run > t0_spawned) h_fail("t0-count", "argument-less tasks: %d spawned, %d synced, %d executed", t0_spawned, t0_synced, t0_run); }
void h_t0_group(int before) { if (before) t0_spawned += nw; else { t0_synced += nw; if (t0_run < t0_synced || t0_run > t0_spawned) h_fail("t0-count", "TOGETHER of an argument-less task: %d copies expected in total, %d executed", t0_synced, t0_run); } }
void h_head(Inst *i, int w, const void *have, const void *want) { R->heads++; if (have != want && judges(15,18,20)) h_fail("bad-head", "in %s on worker %d the recovered queue position %p differs from the actual %p", nm(i), w, have, want); }

/* ------------------------------------------------ barrier */
volatile u64 *h_slots(Inst *c) { return c->parent->pay; }
void h_bar(Inst *c, int w, int leaving)
{
  Inst *g = c->parent;
  if (!g->hb_bar) { g->hb_bar = calloc(MAXW, sizeof *g->hb_bar); g->hb_bt = calloc(MAXW, sizeof(int)); }
  if (!leaving) { g->barcnt[w]++; R->barriers++; if (g->barcnt[w] < 64) { g->hb_bar[w][g->barcnt[w]] = sim_hb_now(); g->hb_bt[w] = sim_self(); } return; }
  for (int k=0; k<nw; k++) if (g->barcnt[k] < g->barcnt[w]) h_fail("barrier-early", "worker %d left lace_barrier %d before worker %d entered it", w, g->barcnt[w], k);
  if (g->barcnt[w] < 64) for (int k=0; k<nw; k++) hb_need(g->hb_bt[k], g->hb_bar[k][g->barcnt[w]], "leaving lace_barrier in %s after all workers entered it", g);
}

/* ------------------------------------------------ waiting inside tasks */
int h_begun_children(Inst *i) { int n = 0; for (int k=0; k<i->sp; k++) n += i->stack[k]->state != I_NEW; return n; }
int h_nchildren(Inst *i) { return i->sp; }
static int c_begun(void *a) { Inst *i = a; return h_begun_children(i) == i->sp; }
void h_wait_begun(Inst *i) { sim_pause(c_begun, i); }
static Inst *meet_of(Inst *i, int up) { Inst *m = up && i->parent ? i->parent : i; return m->how == HOW_COPY ? m->parent : m; }
static int c_meet(void *a) { return ((Inst*)a)->meet >= nw; }
void h_meet(Inst *i, int up) { Inst *m = meet_of(i, up); m->meet++; R->meets++; sim_pause(c_meet, m); event(i); }
int h_meet_full(Inst *i) { return meet_of(i, 0)->meet >= nw; }
static int c_flag(void *a) { return ((Inst*)a)->flag; }
static Inst *rootof(Inst *i) { while (i->parent) i = i->parent; return i; }
void h_flag(Inst *i, int set) { Inst *r = rootof(i); if (set) r->flag = 1; else sim_pause(c_flag, r); }
void h_freeze(int w, int mask, int on)
{
  (void)w;
  int k = 0;
  for (int t=0; t<sim_nthreads(); t++) if (sim_role(t) == 1 && t != sim_self() && t >= sess_first_thread) { if (!on) sim_freeze(t, 0); else if (mask >> (k&7) & 1) { sim_freeze(t, 1); R->freezes++; } k++; }
}

/* ------------------------------------------------ non-Lace threads */
static int c_gate(void *a) { (void)a; return !gate_closed; }
static int gate_depth[MAXEXT];            /* a thread inside its own resume/suspend bracket enters again */
void h_gate_enter(int thr) { if (!gate_depth[thr]) sim_pause(c_gate, 0); if (!gate_depth[thr]++) gate_inside++; }
void h_gate_leave(int thr) { if (!--gate_depth[thr]) gate_inside--; }
Inst *h_ext_begin(int thr, int xop, int node)
{
  static const int how[] = { HOW_RUN, HOW_RUNEX, HOW_XNF, HOW_XTG };
  Inst *i = h_new(0, node, how[xop-X_RUN], -1); i->thr = thr;
  if (xop == X_RUNEX) R->runexs++; else R->runs++;
  sim_log("thread %d offers %s", thr, nm(i));
  return i;
}
void h_ext_end(int thr, int xop, Inst *i) { (void)xop; if (i->thr != thr) h_fail("wrong-caller", "caller mixed up"); h_call_end(i, -1); sim_log("thread %d: %s returned", thr, nm(i)); }
int h_xnext(int thr, Op *op)
{
  Script *s = &P.sess[cur_sess].sc[thr];
  if (xpos[thr] >= s->n) return 0;
  *op = P.op[s->first + xpos[thr]++]; return 1;
}
void h_delay(int n) { for (int k=0; k<n; k++) sim_yield_point(); }
void h_delay_long(int n) { u64 s0 = R->steps; for (int k=0; k<n && R->steps-s0 < (u64)n; k++) sim_yield_point(); }   /* n steps of everybody together */
static int crowd_node, crowd_n, crowd_t[MAXT]; static u8 crowd_done[MAXT]; static int crowd_entering;
static int c_entered(void *a) { (void)a; return !crowd_entering; }
static int crowd_waiting;
void h_crowd_wait(void) { crowd_waiting++; sim_pause(c_entered, 0); }   /* keeps a worker busy while the callers enter */
int h_crowd_op(int j, Op *o) { if (crowd_done[j]) return 0; crowd_done[j] = 1; u64 h = (C.seed + j) * 0x9e3779b97f4a7c15ULL >> 40; o->op = crowd_n > 256 && C.seed & 2 ? (j < 257 - P.sess[cur_sess].nscripts ? X_RUN : X_RUNEX) : C.profile == 5 || (C.seed & 1) ? X_RUN : h % 8 < 5 ? X_RUN : h % 8 < 7 ? X_RUNEX : X_NEWFRAME; o->a = crowd_node; o->b = 0; return 1; }
void h_crowd(int node, int n)
{ /* the callers enter one after the other, each is held for a while somewhere in its call, so that many are inside at once; then they go on in small groups */
  crowd_node = node; crowd_n = n; memset(crowd_done, 0, sizeof crowd_done); u64 g = C.seed ^ 0x6d; int held = 1; crowd_entering = 1;
  if (P.sess[cur_sess].nscripts > 1) for (int y=0; y<6000 && crowd_waiting < nw; y++) sim_yield_point();
  for (int k=0; k<n; k++) {
    int t = crowd_t[k] = sim_spawn_ext(work_crowd, k); g = g*6364136223846793005ULL+1442695040888963407ULL; u64 quota = n > 256 && C.seed & 2 ? 300 : 20 + (g>>33)%(g>>60 & 1 ? 60 : 300);
    for (int y=0; y<600 && !sim_thread_done(t) && sim_lsteps(t) < quota; y++) sim_yield_point();
    if (!sim_thread_done(t)) sim_freeze(t, 1);
  }
  int in = 0; for (int k=0; k<n; k++) in += !sim_thread_done(crowd_t[k]);
  sim_log("%d of %d callers inside", in, n);
  crowd_entering = 0;
  int r = n > 256 && C.seed & 2 && C.seed & 24 ? 257 - P.sess[cur_sess].nscripts : (int)((g>>20)%(u64)n);
#define CT(q) crowd_t[((q)+r)%n]
  for (int k=0; k<n; k+=held) {
    g = g*6364136223846793005ULL+1442695040888963407ULL; held = 1+(g>>33)%6; int left = 1;
    for (int q=k; q<k+held && q<n; q++) sim_freeze(CT(q), 0);
    for (int y=0; y<2000 && left; y++) { sim_yield_point(); left = 0; for (int q=k; q<k+held && q<n; q++) left |= !sim_thread_done(CT(q)); }
  }
  for (int k=0; k<n; k++) while (!sim_thread_done(crowd_t[k])) sim_yield_point();
}
/* lace_suspend and lace_resume count: thread 0 owns the base count, other threads make balanced resume..suspend brackets */
static int susp_count;
void h_suspended(void) { is_suspended = ++susp_count > 0; }
void h_resumed(void) { is_suspended = --susp_count > 0; R->resumes++; }
static int c_noinside(void *a) { (void)a; return gate_inside == 0; }
static int c_asleep(void *a) { (void)a; for (int t=sess_first_thread; t<sim_nthreads(); t++) if (sim_role(t) == 1 && !sim_thread_done(t) && !sim_thread_blocked(t)) return 0; return 1; }
void h_sleepcheck(int thr)
{
  (void)thr;
  if (!is_suspended) return;
  gate_closed = 1;
  sim_pause(c_noinside, 0);
  sim_pause(c_asleep, 0);
  u64 e0 = R->fired[D_EINTR] + R->fired[D_SPUR];
  u64 l[MAXT]; for (int t=0; t<sim_nthreads(); t++) l[t] = sim_lsteps(t);
  for (int k=0; k<300; k++) sim_yield_point();
  for (int t=sess_first_thread; t<sim_nthreads(); t++) if (sim_role(t) == 1 && sim_lsteps(t) > l[t] + (C.eintr_p || C.spur_p ? 60*(2+R->fired[D_EINTR]+R->fired[D_SPUR]-e0) : 0)) h_fail("not-asleep", "suspended worker thread %d executes (%lu steps)", t, (unsigned long)(sim_lsteps(t)-l[t]));
  R->sleeps++;
  gate_closed = 0;
}

/* ------------------------------------------------ sessions */
int h_nsess(void) { return P.nsess; }
int h_sess_nw(int s) { return P.sess[s].nw; }
size_t h_sess_dq(int s, size_t tasksize) { int h = P.sess[s].huge; return !h ? P.sess[s].dq : h & 1 ? (size_t)-1/tasksize + 1 + h : (size_t)1 << (40 + h%18); }
int h_sess_stk(int s) { return P.sess[s].stk; }
int h_sess_verb(int s) { return P.sess[s].verb; }
int h_sess_nscripts(int s) { return P.sess[s].nscripts; }
static int dflt_dq = 100000;
static size_t set_stk; static int set_verb; static u32 m_out, m_err;
void h_settings(size_t stk, unsigned pus)
{
  int s = cur_sess; if (P.sess[s].stk) set_stk = P.sess[s].stk-1; if (P.sess[s].verb) set_verb = P.sess[s].verb-1;
  if (stk != set_stk && judges(25,0,0)) h_fail("settings", "lace_get_stacksize() is %zu, lace_set_stacksize(%zu) was called", stk, set_stk);
  if ((int)pus != C.npu && judges(25,0,0)) h_fail("settings", "lace_get_pu_count() is %u on a machine with %d processors", pus, C.npu);
  m_out = R->outlen; m_err = R->errlen;
}
void h_session_begin(int s)
{
  cur_sess = s; in_stop = 0; R->sessions++;
  nw = P.sess[s].nw ? P.sess[s].nw : C.npu; dq = P.sess[s].dq ? P.sess[s].dq : dflt_dq;
  for (int k=0; k<MAXW; k++) { wtid[k] = -1; live[k] = 0; spawning[k] = 0; }
  if (s == 0) for (int k=0; k<MAXT; k++) tidw[k] = -1;
  root_frame = top = calloc(1, sizeof(Frame)); top->on = 1;
  ext_running = ex_running = 0; gate_closed = gate_inside = 0; is_suspended = susp_count = 0; memset(gate_depth, 0, sizeof gate_depth);
  t0_spawned = t0_synced = t0_run = 0; plain_spawned = 0;
  if (work_hwloc) hw_session_begin();
  sess_first_thread = sim_nthreads(); sess_blk = sim_block_mark();
  memset(wspawns, 0, sizeof wspawns); memset(wstolen, 0, sizeof wstolen); pie_mark = sim_ticks();
  nspawn_sess = nstolen_sess = 0; spawn_base = stolen_base = 0; count_fuzzy = 0; out_mark = R->outlen;
  memset(xpos, 0, sizeof xpos);
  sim_log("session %d begins: %d workers, queue %d", s, nw, dq);
}
void h_session_started(int s, unsigned lw)
{
  (void)s;
  if ((int)lw != nw) h_fail("worker-count", "lace_workers() is %u after lace_start(%d)", lw, P.sess[s].nw);
  int k = 0; for (int t=sess_first_thread; t<sim_nthreads(); t++) k += sim_role(t) == 1;
  if (judges(25,0,0)) {
    size_t lim = C.rlim_k < 0 ? (size_t)16<<20 : C.rlim_k ? (size_t)C.rlim_k<<10 : (size_t)8<<20; if (lim > (size_t)16<<20) lim = (size_t)16<<20;
    size_t want = set_stk ? set_stk : lim;
    for (int t=sess_first_thread; t<sim_nthreads(); t++) if (sim_role(t) == 1 && want >= 16384 && (sim_thread_stack(t) < want || sim_thread_stack(t) > want + (64<<10))) h_fail("settings", "worker thread with a stack of %zu bytes, %zu are due", sim_thread_stack(t), want);
    if (set_verb) {
      char num[20]; int l = snprintf(num, sizeof num, "%d", nw), ok = 0; R->out[R->outlen] = 0;
      for (char *q = R->out + m_out; !ok && (q = strstr(q, num)); q++) ok = (q == R->out || q[-1] < '0' || q[-1] > '9') && (q[l] < '0' || q[l] > '9');
      if (!ok) h_fail("settings", "no startup message with the number of workers at verbosity %d", set_verb);
    }
  }
  if (k != nw && !sim_thread_create_failed()) h_fail("worker-count", "lace_start created %d threads for %d workers", k, nw);
}
void h_session_stopping(int s)
{
  (void)s; in_stop = 1; sim_log("session %d stops", s);
  for (int i=0; i<ninst; i++) if (pool[i].sess == cur_sess && pool[i].how != HOW_COPY && pool[i].state == I_RUNNING) h_fail("early-return", "%s still runs when all callers have returned", nm(&pool[i]));
  out_mark = R->outlen;
}
static u64 grab(const char *txt, const char *label, int *ok)
{
  const char *p = strstr(txt, label); if (!p) { *ok = 0; return 0; }
  return strtoull(p+strlen(label), 0, 10);
}
/* time slices: never negative, they add up, and no worker's exceed the time since the start or the last reset */
static void check_pie(const char *txt)
{
  static const char *row[] = { "Startup time", "Steal work", "Leap work", "Steal overhead", "Leap overhead", "Steal search", "Leap search", "Exit time" };
  if (C.clock_mode != 0 && C.clock_mode != 3) return;      /* the other clocks are wrong on purpose */
  double f = atof(strstr(txt, "Measured clock (tick) frequency: ")+33), sum[8] = {0}; char lab[40];
  double el = (sim_ticks()-pie_mark)/1e6;                  /* ticks since the mark, in millions */
  for (int k=0; k<=nw; k++) {
    double tot = 0;
    for (int j=0; j<8; j++) {
      if (k < nw) snprintf(lab, sizeof lab, "%s (%d):", row[j], k); else snprintf(lab, sizeof lab, "%s (sum):", row[j]);
      const char *p = strstr(txt, lab); if (!p) h_fail("stats", "%s not reported", lab);
      double v = atof(p+strlen(lab));
      if (!(v >= 0)) h_fail("stats", "%s %f ms", lab, v);
      if (k == nw && (v > sum[j]*1.001+0.01*nw || v < sum[j]*0.999-0.01*nw)) h_fail("stats", "%s %f ms, the workers' add up to %f", lab, v, sum[j]);
      sum[j] += v; tot += v;
    }
    if (k < nw && C.clock_mode == 3 && tot*(f-0.006) > el*1.001+0.05*f) h_fail("stats", "the times of worker %d add up to %.2f ms at %.2f GHz, %.2f million ticks have passed", k, tot, f, el);
  }
}
/* parses what the statistics printed and compares with the model */
static void check_report(const char *txt, u64 spawns, u64 stolen, int exact)
{
  char lab[64]; u64 sum, tot = 0; int ok = 1;
  if (R->outlen+1 >= sizeof R->out) return;   /* the record of the output is full */
  if (work_counts & 1) {
    sum = grab(txt, "Tasks (sum): ", &ok); if (!ok) h_fail("stats", "no task count reported");
    for (int k=0; k<nw; k++) { snprintf(lab, sizeof lab, "Tasks (%d): ", k); u64 c = grab(txt, lab, &ok); tot += c;
      if (exact && ok && c != wspawns[0][k]-wspawns[1][k]) h_fail("stats", "%lu tasks reported for worker %d, which spawned %lu", (unsigned long)c, k, (unsigned long)(wspawns[0][k]-wspawns[1][k])); }
    if (!ok) h_fail("stats", "task count of a worker not reported");
    if (exact && tot != sum) h_fail("stats", "per-worker task counts add up to %lu, sum reported %lu", (unsigned long)tot, (unsigned long)sum);
    if (exact && sum != spawns) h_fail("stats", "%lu tasks reported, %lu spawned", (unsigned long)sum, (unsigned long)spawns);
  }
  if (work_counts & 2) {
    u64 g[6] = {0}, a[6];
    for (int k=0; k<=nw; k++) {
      if (k < nw) snprintf(lab, sizeof lab, "Steals (%d): ", k); else snprintf(lab, sizeof lab, "Steals (sum): ");
      const char *p = strstr(txt, lab); if (!p) h_fail("stats", "%snot reported", lab);
      unsigned long v[6];
      if (sscanf(p+strlen(lab), "%lu good/%lu busy of %lu tries; leaps: %lu good/%lu busy of %lu tries", &v[0], &v[1], &v[2], &v[3], &v[4], &v[5]) != 6) h_fail("stats", "steal counts not reported");
      if (v[0]+v[1] > v[2] || v[3]+v[4] > v[5]) if (exact) h_fail("stats", "%smore outcomes than tries", lab);
      u64 st = k < nw ? wstolen[0][k]-wstolen[1][k] : 0;
      if (exact && k < nw && (v[0]+v[3] < st || v[0]+v[3] > st+plain_spawned)) h_fail("stats", "%lu steals and leaps reported for worker %d, which executed %lu tasks of others", v[0]+v[3], k, (unsigned long)st);
      if (k < nw) for (int j=0; j<6; j++) g[j] += v[j]; else for (int j=0; j<6; j++) a[j] = v[j];
    }
    if (exact) for (int j=0; j<6; j++) if (a[j] != g[j]) h_fail("stats", "per-worker steal counts add up to %lu, sum reported %lu", (unsigned long)g[j], (unsigned long)a[j]);
    if (exact && (a[0]+a[3] < stolen || a[0]+a[3] > stolen+plain_spawned)) h_fail("stats", "%lu steals and leaps reported, %lu tasks executed by another worker", (unsigned long)(a[0]+a[3]), (unsigned long)stolen);
  }
  if (work_counts & 4) {
    u64 g[3] = {0}, a[3] = {0};
    for (int k=0; k<=nw; k++) {
      if (k < nw) snprintf(lab, sizeof lab, "Splits (%d): ", k); else snprintf(lab, sizeof lab, "Splits (sum): ");
      const char *p = strstr(txt, lab); if (!p) h_fail("stats", "%snot reported", lab);
      unsigned long v[3];
      if (sscanf(p+strlen(lab), "%lu shrinks, %lu grows, %lu outgoing requests", &v[0], &v[1], &v[2]) != 3) h_fail("stats", "split counts not reported");
      for (int j=0; j<3; j++) { if (k < nw) g[j] += v[j]; else a[j] = v[j]; }
    }
    if (exact) for (int j=0; j<3; j++) if (a[j] != g[j]) h_fail("stats", "per-worker split counts do not add up");
  }
  if (work_pie) { ok = 1; grab(txt, "Measured clock (tick) frequency: ", &ok); if (!ok) h_fail("stats", "no timing report"); if (exact) check_pie(txt); }
}
static u64 pie_next;
void h_creset_begin(void) { pie_next = sim_ticks(); }
void h_creset_done(int quiesced)
{
  pie_mark = pie_next; counts_reset();
  spawn_base = nspawn_sess; stolen_base = nstolen_sess; count_fuzzy = !quiesced;
}
void h_report(int begin) { static u32 m; if (begin) m = R->outlen; else if (judges(19,0,0)) check_report(R->out+m, nspawn_sess-spawn_base, nstolen_sess-stolen_base, is_suspended && !count_fuzzy); }
static int c_workersdone(void *a) { (void)a; for (int t=0; t<sim_nthreads(); t++) if (sim_role(t) == 1 && !sim_thread_done(t)) return 0; return 1; }
static void check_ended(void)
{
  char d[300];
  for (int t=0; t<stop_n; t++) if (sim_role(t) == 1 && stop_l[t] != ~0ULL && sim_lsteps(t) > stop_l[t] + 60) h_fail("after-stop", "worker thread %d ran %lu steps after lace_stop returned", t, (unsigned long)(sim_lsteps(t)-stop_l[t]));
  (void)d;
}
void h_session_end(int s)
{
  in_stop = 2;
  if (judges(25,0,0) && !work_counts && !work_pie && !set_verb && !strstr(R->out+m_out, "Lace warning") && !strstr(R->err+m_err, "Lace warning") && !strstr(R->err+m_err, "Lace error") && (R->outlen != m_out || R->errlen != m_err)) h_fail("settings", "messages are printed at verbosity 0: %.100s%.100s", R->out+m_out, R->err+m_err);
  if (P.sess[s].huge) h_fail("fault-ignored", "Lace started and stopped with a queue larger than any memory");
  if (sim_alloc_failed() || sim_thread_create_failed()) h_fail("fault-ignored", "Lace started and stopped although %s failed", sim_alloc_failed() ? "an allocation" : "thread creation");
  for (int t=0; t<sim_nthreads(); t++) if (sim_role(t) == 1 && t >= sess_first_thread) stop_l[t] = sim_lsteps(t); 
  stop_n = sim_nthreads();
  for (int i=0; i<ninst; i++) {
    Inst *q = &pool[i];
    if (q->sess == cur_sess && q->how != HOW_COPY && q->state != I_DONE && q->state != I_DROPPED) h_fail("lost-task", "%s never completed", nm(q));
  }
  if (t0_run != t0_synced || t0_spawned != t0_synced) h_fail("t0-count", "argument-less tasks: %d spawned, %d executed", t0_spawned, t0_run);
  if (work_hwloc) hw_session_end(sess_first_thread, nw);
  char d[300]; int k = sim_live_blocks(sess_blk, d, sizeof d);
  if (k && judges(12,16,20)) h_fail("leak", "%d memory blocks acquired by lace_start not released by lace_stop: %s", k, d);
  { extern int sim_nkeys; static int keys1; if (s == 0) keys1 = sim_nkeys; else if (sim_nkeys > keys1 && judges(12,16,20)) h_fail("leak", "thread-specific data keys of earlier sessions are never deleted"); }
  if ((work_counts || work_pie) && judges(19,0,0)) check_report(R->out+out_mark, nspawn_sess-spawn_base, nstolen_sess-stolen_base, !count_fuzzy);
  if (P.sess[s].waitdone) { sim_pause(c_workersdone, 0); check_ended(); }
  sim_log("session %d ended", s);
}
static void ext_tramp(int thr) { work_ext(thr); }
void h_ext_spawn(int s) { for (int k=1; k<P.sess[s].nscripts; k++) ext_tid[k] = sim_spawn_ext(ext_tramp, k); }
static int c_extdone(void *a) { int s = *(int*)a; for (int k=1; k<P.sess[s].nscripts; k++) if (!sim_thread_done(ext_tid[k])) return 0; return 1; }
void h_ext_join(int s) { sim_pause(c_extdone, &s); }

void oracle_finish(void)
{
  sim_pause(c_workersdone, 0);
  check_ended();
  if (judges(12,20,0)) for (int t=0; t<sim_nthreads(); t++) if (sim_role(t) == 1 && !sim_thread_reaped(t)) h_fail("thread-leak", "worker thread %d was neither joined nor detached: its resources are never released", t);
}
void oracle_exit(int code, int isabort, const char *err)
{
  (void)isabort;
  R->exitcode = code; R->exits++;
  if (sim_alloc_failed() || sim_thread_create_failed() || (cur_sess >= 0 && P.sess[cur_sess].huge)) {
    if (code == 0) h_fail("exit-status", "startup failure ends the program with status 0");
    if (!err[0]) h_fail("exit-silent", "startup failure ends the program without an error message");
    return;
  }
  int t = sim_self();
  if (strstr(err, "overflow")) {
    if (sim_role(t) != 1 || tidw[t] < 0) h_fail("spurious-overflow", "queue overflow reported outside a task");
    int w = tidw[t];
    if (!spawning[w]) h_fail("spurious-overflow", "queue overflow reported outside SPAWN");
    if (live[w] < dq) h_fail("spurious-overflow", "queue overflow reported with %d of %d tasks", live[w], dq);
    if (!code) h_fail("exit-status", "queue overflow ends the program with status 0");
    return;
  }
  h_fail("unexpected-exit", "program ends with status %d: %.200s", code, err);
}

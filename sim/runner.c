/* Seeded exploration, replay and shrinking.  One forked child per simulated execution. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/prctl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <stdarg.h>
#include "sim.h"

static u64 gs;
typedef struct { u64 s; } Rng_;
static u64 sm(Rng_ *r) { u64 z = (r->s += 0x9e3779b97f4a7c15ULL); z = (z^(z>>30))*0xbf58476d1ce4e5b9ULL; z = (z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static u64 gn(void) { u64 z = (gs += 0x9e3779b97f4a7c15ULL); z = (z^(z>>30))*0xbf58476d1ce4e5b9ULL; z = (z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static int rn(int n) { return n <= 1 ? 0 : (int)(((gn()>>32)*(u64)n)>>32); }
static int pr(int pct) { return rn(100) < pct; }
static int rng_(int a, int b) { return a + rn(b-a+1); }
static int logr(int a, int b) { double x = (double)rn(1000001)/1000000.0; double v = a*__builtin_pow((double)b/a, x); int r = (int)v; return r < a ? a : r > b ? b : r; }

/* ------------------------------------------------------------------ program generation */
static int cost[MAXNODES];                    /* dynamic tasks below and including the node */
static int gen_nw, gen_maxar, gen_small_ar;
static int W[O_LAST];                         /* op weights of the current profile */
static int wT0bits;
static int newnode(void) { if (P.nnodes >= MAXNODES-2) return P.nnodes-1; P.node[P.nnodes].first = P.node[P.nnodes].n = 0; return P.nnodes++; }
static int rkind(int group) { (void)group; int a = gen_small_ar && pr(60) ? 1+rn(2) : 1+rn(gen_maxar); return a*2 + rn(2); }
typedef struct { Op o[64]; int n; } L;
static void put(L *l, int op, int a, int b) { if (l->n < 62) { l->o[l->n].op = op; l->o[l->n].a = a; l->o[l->n].b = b; l->n++; } }
static int finish_node(int n, L *l, int kind, int c)
{
  if (P.nops + l->n > MAXOPS) l->n = 0;
  P.node[n].kind = kind; P.node[n].first = P.nops; P.node[n].n = l->n;
  memcpy(&P.op[P.nops], l->o, l->n*sizeof(Op)); P.nops += l->n; cost[n] = c;
  return n;
}
static int leaf(void)
{
  L l; l.n = 0; int n = newnode();
  if (W[O_WORK] && pr(60)) put(&l, O_WORK, 0, rn(8));
  if (W[O_VARS] && pr(40)) put(&l, O_VARS, 0, 0);
  if (W[O_YIELD] && pr(10)) put(&l, O_YIELD, 0, 0);
  if (W[O_STEAL] && pr(8)) put(&l, O_STEAL, 0, rn(2));
  return finish_node(n, &l, rkind(0), 1);
}
static int gtree(int budget, int depth, int noframe);
static int gfib(int k)
{
  int f[20]; f[0] = leaf(); f[1] = leaf();
  for (int i=2; i<=k && i<20; i++) {
    L l; l.n = 0; int n = newnode();
    put(&l, O_SPAWN, f[i-1], 0);
    if (W[O_VARS] && pr(30)) put(&l, O_VARS, 0, 0);
    if (W[O_WORK] && pr(30)) put(&l, O_WORK, 0, rn(6));
    if (W[O_DROP] && pr(30)) { put(&l, O_SPAWN, f[i-2], 0); put(&l, O_DROP, 0, 0); }
    if (W[O_CALL] && pr(60)) { put(&l, O_CALL, f[i-2], 0); put(&l, O_SYNC, 0, 0); }
    else { put(&l, O_SPAWN, f[i-2], 0); put(&l, O_SYNC, 0, 0); put(&l, O_SYNC, 0, 0); }
    if (W[O_VARS] && pr(30)) put(&l, O_VARS, 0, 0);
    f[i] = finish_node(n, &l, rkind(0), cost[f[i-1]] + cost[f[i-2]]*2 + 1);
  }
  return f[k];
}
static int gchain(int k, int drop)
{
  int c = leaf();
  for (int i=0; i<k; i++) {
    L l; l.n = 0; int n = newnode();
    put(&l, O_SPAWN, c, 0);
    if (W[O_VARS] && pr(30)) put(&l, O_VARS, 0, 0);
    if (W[O_WORK]) put(&l, O_WORK, 0, rn(8));
    if (W[O_YIELD] && pr(20)) put(&l, O_YIELD, 0, 0);
    put(&l, drop && pr(40) ? O_DROP : O_SYNC, 0, 0);
    c = finish_node(n, &l, rkind(0), cost[c]+1);
  }
  return c;
}
static int gwide(int k)
{
  L l; l.n = 0; int n = newnode(), c = 1;
  int lf = leaf();
  while (k > 0) {
    int b = 1+rn(k > 8 ? 8 : k); put(&l, O_SPAWN, lf, b-1); c += b; k -= b;
    if (pr(20)) lf = leaf();
    if (W[O_VARS] && pr(30)) put(&l, O_VARS, 0, 0);
    if (W[O_SHARE] && pr(25)) put(&l, O_SHARE, 0, 0);
    if (W[O_WORK] && pr(40)) put(&l, O_WORK, 0, rn(10));
    if (pr(25)) put(&l, W[O_DROP] && pr(40) ? O_DROP : O_SYNC, 0, 0);
    if (W[O_YIELD] && pr(10)) put(&l, O_YIELD, 0, 0);
    if (l.n > 50) break;
  }
  if (W[O_DROP] && pr(30)) { int d = 1+rn(3); while (d--) put(&l, O_DROP, 0, 0); }
  if (W[O_DROPALL] && pr(15)) put(&l, O_DROPALL, 0, 0);
  put(&l, O_SYNCALL, 0, 0);
  if (W[O_VARS]) put(&l, O_VARS, 0, 0);
  return finish_node(n, &l, rkind(0), c);
}
static int ggroup(int budget, int depth)
{ /* body of a TOGETHER task; cost counted per copy */
  int bar = W[O_BARRIER] && pr(W[O_BARRIER] > 30 ? 80 : 40);
  L l; l.n = 0; int n = newnode(), c = 1;
  int nops = bar ? 1+rn(8) : rn(5);
  for (int k=0; k<nops; k++) {
    int x = rn(100);
    if (bar && x < 55) put(&l, O_BARRIER, 0, 0);
    else if (x < 75 && c < budget && depth < 6) { int ch = gtree(1+rn(budget-c), depth+1, bar); put(&l, O_SPAWN, ch, 0); c += cost[ch]; }
    else if (x < 85) put(&l, O_SYNC, 0, 0);
    else if (x < 90 && W[O_VARS]) put(&l, O_VARS, 0, 0);
    else if (!bar && x < 95 && W[O_YIELD]) put(&l, O_YIELD, 0, 0);
    else if (!bar && W[O_NEWFRAME] && c < budget && depth < 4 && pr(40)) { int ch = gtree(1+rn((budget-c)/2+1), depth+1, 0); put(&l, O_NEWFRAME, ch, 0); c += cost[ch]; }
    else if (!bar && W[O_TOGETHER] && c+gen_nw < budget/2 && depth < 3 && pr(30)) { int ch = ggroup(budget/(2*gen_nw)+1, depth+1); put(&l, O_TOGETHER, ch, 0); c += cost[ch]*gen_nw; }
    else put(&l, O_WORK, 0, rn(8));
  }
  if (bar && pr(60)) put(&l, O_BARRIER, 0, 0);
  return finish_node(n, &l, rkind(1), c);
}
static int gtree(int budget, int depth, int noframe)
{
  if (budget <= 1 || depth > 14 || P.nnodes > MAXNODES-40 || P.nops > MAXOPS-200) return leaf();
  int shape = rn(10);
  if (shape == 0 && budget >= 6) { int k = 2; int a = 1, b = 1; while (k < 12) { int c = a+b*2+1; if (c > budget) break; b = a; a = c; k++; } k--; if (k >= 2) return gfib(k); }
  if (shape == 1) return gchain(1+rn(budget > 12 ? 12 : budget-1), W[O_DROP] > 0);
  if (shape == 2) return gwide(1+rn(budget > 40 ? 40 : budget-1));
  L l; l.n = 0; int n = newnode(), c = 1, pend = 0;
  int nops = 2+rn(9), tot = 0;
  for (int k=1; k<O_LAST; k++) tot += W[k];
  for (int k=0; k<nops && tot > 0; k++) {
    int x = rn(tot), op = 1; while (x >= W[op]) x -= W[op++];
    int left = budget - c;
    switch (op) {
    case O_SPAWN: if (left < 1) break; { int ch = gtree(1+rn(left), depth+1, noframe); int rep = pr(20) ? rn(4) : 0; if (cost[ch]*(rep+1) > left) rep = 0; put(&l, op, ch, rep); c += cost[ch]*(rep+1); pend += rep+1; } break;
    case O_CALL: case O_RUNIN: case O_RUNEXIN: case O_CB: if (left < 1) break; { int ch = gtree(1+rn(left/2+1), depth+1, noframe); put(&l, op, ch, 0); c += cost[ch]; } break;
    case O_NEWFRAME: if (left < 1 || noframe) break; { int ch = gtree(1+rn(left/2+1), depth+1, noframe); put(&l, op, ch, 0); c += cost[ch]; } break;
    case O_TOGETHER: if (left < gen_nw || noframe) break; { int ch = ggroup(left/(2*gen_nw)+1, depth+1); put(&l, op, ch, 0); c += cost[ch]*gen_nw; } break;
    case O_SYNC: case O_DROP: if (pend > 0) { put(&l, op, 0, 0); pend--; } break;
    case O_SYNCALL: case O_DROPALL: if (pend > 0) put(&l, op, 0, 0); pend = 0; break;
    case O_STEAL: put(&l, op, 0, rn(4)); break;
    case O_WORK: put(&l, op, 0, rn(12)); break;
    case O_T0: { int b = rn(32) & wT0bits; if (noframe) b &= ~(4|8); int ch = (b & 2) ? leaf() : 0; put(&l, op, ch, b); c += 2 + ((b & 2) ? cost[ch] : 0) + (b & 8 ? 2*gen_nw : 0); } break;
    case O_BARRIER: break;
    case O_BULK: { int q = logr(1, pr(20) ? 400 : 60); put(&l, op, q, rn(128) & ~16 & (noframe ? ~64 : ~0)); c += q; } break;
    default: put(&l, op, 0, 0);
    }
  }
  return finish_node(n, &l, rkind(0), c);
}
static void wts(const int *p) { memset(W, 0, sizeof W); for (; *p; p += 2) W[p[0]] = p[1]; }
static void script(Session *s, L *l) { if (s->nscripts >= MAXEXT) return; Script *c = &s->sc[s->nscripts++]; c->first = P.nops; c->n = l->n; memcpy(&P.op[P.nops], l->o, l->n*sizeof(Op)); P.nops += l->n; }

/* scenarios used for progress properties */
static int node_of(int kind, int nops, ...) 
{
  va_list ap; va_start(ap, nops); L l; l.n = 0;
  for (int k=0; k<nops; k++) { int op = va_arg(ap, int), a = va_arg(ap, int), b = va_arg(ap, int); put(&l, op, a, b); }
  va_end(ap);
  int n = newnode(); return finish_node(n, &l, kind ? kind : rkind(0), 1);
}
static int with_noise(int core)
{ /* work before the scenario so that queues and flags are in assorted states */
  L l; l.n = 0; int n = newnode();
  if (pr(50)) { int t = gtree(rng_(2,20), 1, 1); put(&l, O_CALL, t, 0); }
  int k = pr(50) ? rn(4) : 0; for (int j=0; j<k; j++) put(&l, O_SPAWN, leaf(), rn(3));
  if (pr(40)) put(&l, O_SYNC, 0, 0);
  put(&l, O_CALL, core, 0);
  put(&l, O_SYNCALL, 0, 0);
  return finish_node(n, &l, rkind(0), 40);
}
static int scenario(int which)
{
  int nw = gen_nw;
  switch (which) {
  case 0: { int k = 1+rn(12); int lf = leaf(); int core = pr(50) ? node_of(0, 4, O_SPAWN, lf, k-1, O_SHARE, 0, 0, O_BUSY, 0, 0, O_SYNCALL, 0, 0) : node_of(0, 7, O_SPAWN, lf, 0, O_SPAWN, leaf(), k-1, O_T0, lf, 2, O_WORK, 0, rn(10), O_SHARE, 0, 0, O_BUSY, 0, 0, O_SYNCALL, 0, 0); return with_noise(core); }
  case 1: { int k = 1+rn(8); return with_noise(node_of(0, 3, O_SPAWN, leaf(), k-1, O_AWAIT, 0, 0, O_SYNCALL, 0, 0)); }
  case 2: { if (nw < 2) return leaf(); int m = node_of(0, 1, O_MEET, 0, 1); return node_of(0, 4, O_SPAWN, m, nw-2, pr(50) ? O_SHARE : O_AWAIT, 0, 0, O_MEET, 0, 0, O_SYNCALL, 0, 0); }
  case 3: { int m = node_of(0, 1, O_MEET, 0, 1); int g = node_of(0, 1, O_RENDEZ, m, rn(16)); return node_of(0, 1, O_TOGETHER, g, 0); }
  case 4: { /* waiting in SYNC for a stolen task must fetch unrelated work elsewhere */
      int y = node_of(0, 1, O_FLAGSET, 0, 0); int z = node_of(0, 4, O_SPAWN, y, 0, O_SHARE, 0, 0, O_BUSY, 0, 0, O_SYNCALL, 0, 0); int x = node_of(0, 1, O_FLAGWAIT, 0, 0);
      if (nw != 3) return leaf();
      return node_of(0, 6, O_SPAWN, z, 0, O_SPAWN, x, 0, O_SHARE, 0, 0, O_BUSY, 0, 0, O_SYNC, 0, 0, O_SYNC, 0, 0); }
  case 5: { /* waiting in SYNC must help the thief */
      if (nw != 2) return leaf();
      int y = leaf(); int x = node_of(0, 4, O_SPAWN, y, rn(6), O_SHARE, 0, 0, O_BUSY, 0, 0, O_SYNCALL, 0, 0);
      int x2 = node_of(0, 3, O_SPAWN, y, rn(6), O_AWAIT, 0, 0, O_SYNCALL, 0, 0);
      return node_of(0, 4, O_SPAWN, pr(50) ? x : x2, 0, pr(50) ? O_SHARE : O_AWAIT, 0, 0, O_BUSY, 0, 0, O_SYNCALL, 0, 0); }
  case 7: { /* the owner watches the status of what it shared and makes no Lace call */
      if (nw < 2) return leaf();
      int k = 1+rn(5); return with_noise(node_of(0, 6, O_SPAWN, leaf(), 0, O_SPAWN, leaf(), k-1, O_SHARE, 0, 0, O_POLL, 0, 0, O_INSPECT, 0, 0, O_SYNCALL, 0, 0)); }
  case 6: { /* workers stop while they hold nothing; the rest must finish */
      int t = gtree(rng_(3,60), 1, 1); return node_of(0, 3, O_FREEZE, 0, 1+rn(255), O_CALL, t, 0, O_THAW, 0, 0); }
  }
  return leaf();
}

/* programs with one extreme: deep nesting, very many calls, callers, barriers or sessions, or very long idle times; what is
 * counted in a byte, a 16-bit field or an increasing back-off goes wrong only here */
static Op XL[2000]; static int xn;
static void xput(int op, int a, int b) { if (xn < 2000) { XL[xn].op = op; XL[xn].a = a; XL[xn].b = b; xn++; } }
static void xscript(Session *s) { if (s->nscripts >= MAXEXT || P.nops + xn > MAXOPS) return; Script *c = &s->sc[s->nscripts++]; c->first = P.nops; c->n = xn; memcpy(&P.op[P.nops], XL, xn*sizeof(Op)); P.nops += xn; xn = 0; }
static int xnode(void) { int n = newnode(); if (P.nops + xn > MAXOPS) xn = 0; P.node[n].kind = rkind(0); P.node[n].first = P.nops; P.node[n].n = xn; memcpy(&P.op[P.nops], XL, xn*sizeof(Op)); P.nops += xn; xn = 0; return n; }
static int beyond_byte(void) { return pr(60) ? 254+rn(20) : 127+rn(200); }
static int xrate(void) { static int r; if (!r) { const char *e = getenv("SIM_XRATE"); r = e ? atoi(e) : 700; } return r; }
static void extreme(int gf)
{
  memset(&P, 0, sizeof P); P.nsess = 1; Session *s = &P.sess[0]; s->nw = gen_nw = 1+rn(3); s->waitdone = rn(2); s->dq = 700+rn(50); xn = 0; gen_small_ar = 1;
  if (pr(70)) C.delay_p = 0;
  if (pr(50)) C.stall_p = 0;
  C.bound = 50000000;
  enum { E_NFCHAIN, E_MANY, E_MANYIN, E_IDLE, E_SUSP, E_CROWD, E_BARS, E_SESS };
  static const u8 pick[][4] = { {E_NFCHAIN, E_NFCHAIN, E_MANYIN, E_MANY}, {E_IDLE, E_IDLE, E_IDLE, E_MANY}, {E_SUSP, E_SUSP, E_CROWD, E_IDLE}, {E_CROWD, E_CROWD, E_CROWD, E_IDLE}, {E_MANY, E_MANYIN, E_BARS, E_MANYIN}, {E_BARS, E_BARS, E_BARS, E_BARS}, {E_SESS, E_SESS, E_IDLE, E_MANY}, {E_NFCHAIN, E_CROWD, E_IDLE, E_MANYIN} };
  int g = gf == 7 || gf == 9 ? 0 : gf == 13 || gf == 14 ? 1 : gf == 11 ? 2 : gf == 5 || gf == 6 || gf == 17 ? 3 : gf == 8 ? 4 : gf == 10 ? 5 : gf == 12 ? 6 : gf == 20 ? 7 : 1;
  int k = pick[g][rn(4)], n;
  switch (k) {
  case E_NFCHAIN: {                              /* frames inside frames */
    int d = beyond_byte(); xput(O_WORK, 0, 20); xput(O_STEAL, 0, 3); xput(O_YIELD, 0, 0); xput(O_WORK, 0, 50); xput(O_STEAL, 0, 3); n = xnode();
    while (d--) { if (pr(10)) xput(O_SPAWN, P.nnodes-1 > 400 ? n : leaf(), 0); if (pr(5)) xput(O_STEAL, 0, 1); xput(O_NEWFRAME, n, 0); n = xnode(); }
    xput(pr(50) ? X_RUN : X_NEWFRAME, n, 0); xscript(s);
    if (pr(70)) { int lf = leaf(); for (int j=0; j<40; j++) { xput(X_RUN, lf, 0); xput(X_DELAY, 0, rn(256)); } xscript(s); }
    break; }
  case E_MANY: {                                 /* calls from outside */
    int m = beyond_byte()*(1+rn(2)), sc = 1+rn(2); int lf = leaf(), l2 = leaf();
    int what = gf == 8 ? X_TOGETHER : gf == 7 ? X_NEWFRAME : gf == 9 ? 0 : X_RUN; int tg = ggroup(1, 5);
    for (int t=0; t<sc; t++) { for (int j=0; j<m; j++) { int w = what && pr(90) ? what : X_RUN + rn(4); xput(w, w == X_TOGETHER ? tg : pr(50) ? lf : l2, 0); } xscript(s); }
    break; }
  case E_MANYIN: {                               /* interrupts by a task */
    int m = beyond_byte(); int tg = ggroup(1, 5), lf = leaf(); int lo = gf == 8 ? 10 : gf == 7 ? 90 : 50;
    for (int j=0; j<m; j++) { if (pr(lo)) xput(O_NEWFRAME, lf, 0); else xput(O_TOGETHER, tg, 0); if (pr(5)) xput(O_SPAWN, lf, 0); if (pr(5)) xput(O_STEAL, 0, 1); }
    n = xnode(); xput(X_RUN, n, 0); xscript(s); s->dq = 900; break; }
  case E_IDLE: {                                 /* workers look for work in vain for long, then there is some */
    int steps = logr(100, 40000), sc = rn(6); C.bound += steps*64*2;
    if (pr(70) && s->nw == 1) s->nw = gen_nw = 2+rn(2);
    if (sc == 4) s->nw = gen_nw = 3; if (sc == 5) s->nw = gen_nw = 2;
    int f = scenario(gf == 13 || gf == 14 ? sc : rn(4)); s->dq = 400+rn(300);
    if (pr(50)) { xput(X_DELAY, steps, 0); if (pr(30)) { xput(X_RUN, leaf(), 0); } xput(X_RUN, f, 0); if (pr(30)) { xput(X_DELAY, steps/4+1, 0); xput(X_RUN, f, 0); } }
    else if (gf == 11 || pr(15)) { xput(X_SUSPEND, 0, 0); xput(X_DELAY, steps/8+1, 0); if (pr(50)) xput(X_RUN, leaf(), 0); xput(X_RESUME, 0, 0); xput(X_RUN, f, 0); }
    else {
      int a = steps/(s->nw*2)+1, y = leaf(); if (a > 12000) a = 12000;
      if (s->nw > 1 && pr(60)) { int x; xput(O_WORK, a, 0); xput(O_SPAWN, y, 1+rn(4)); xput(O_SHARE, 0, 0); xput(O_BUSY, 0, 0); xput(O_SYNCALL, 0, 0); x = xnode(); s->nw = gen_nw = 2; xput(O_SPAWN, x, 0); xput(O_SHARE, 0, 0); xput(O_BUSY, 0, 0); xput(O_SYNCALL, 0, 0); n = xnode(); }
      else { xput(O_WORK, a, 0); xput(O_CALL, f, 0); n = xnode(); }
      xput(X_RUN, n, 0);
    }
    xscript(s); break; }
  case E_SUSP: {                                 /* deep nesting of resume and suspend */
    int m = beyond_byte(), lf = leaf(), tg = ggroup(1, 5);
    if (pr(30)) xput(X_RUN, lf, 0);
    for (int j=0; j<m; j++) { xput(X_RESUME, 0, 0); if (pr(1)) xput(X_RUN, lf, 0); }
    xput(pr(50) ? X_RUN : X_TOGETHER, tg, 0); if (XL[xn-1].op == X_RUN) XL[xn-1].a = lf;
    for (int j=0; j<m; j++) { xput(X_SUSPEND, 0, 0); if (pr(1)) xput(X_RUN, lf, 0); }
    if (pr(60)) { xput(X_TOGETHER, tg, 0); xput(X_SUSPEND, 0, 0); xput(X_SLEEPCHECK, 0, 0); xput(X_RUN, lf, 0); xput(X_SLEEPCHECK, 0, 0); xput(X_RESUME, 0, 0); xput(X_TOGETHER, tg, 0); }
    xscript(s); break; }
  case E_CROWD: {                                /* callers */
    if (pr(30)) { xput(X_SUSPEND, 0, 0); xput(X_CROWD, leaf(), rn(256)); xput(X_SLEEPCHECK, 0, 0); xput(X_RESUME, 0, 0); }
    else { xput(X_CROWD, leaf(), pr(80) ? 209+rn(20) : rn(256)); if (pr(30)) xput(X_RUN, leaf(), 0); }
    xscript(s);
    if (pr(80)) { int wl; xput(O_CROWDWAIT, 0, 0); wl = xnode(); xput(X_DELAY, 0, rn(200)); xput(pr(70) ? X_TOGETHER : X_RUN, wl, 0); xscript(s); }
    break; }
  case E_BARS: {
    s->nw = gen_nw = 2+(rn(4) == 0); int m = pr(50) ? beyond_byte() : pr(40) ? 65000+rn(536) : 32700+rn(200);
    if (m > 1000) { C.delay_p = 0; C.stall_p = 0; C.bound += m*200*s->nw; }
    xput(O_BARS, m, 0); n = xnode(); xput(X_TOGETHER, n, 0); if (m < 1000 && pr(50)) xput(X_TOGETHER, n, 0); xscript(s); break; }
  case E_SESS: {
    P.nsess = 254+rn(20); int lf = leaf(), tg = ggroup(1, 3); C.delay_p = C.stall_p = 0;
    for (int j=0; j<P.nsess; j++) { s = &P.sess[j]; s->nw = gen_nw = 1; s->waitdone = pr(30); s->dq = 10+rn(9); if (pr(30)) { xput(pr(70) ? X_RUN : X_TOGETHER, 0, 0); XL[0].a = XL[0].op == X_RUN ? lf : tg; xscript(s); } }
    break; }
  }
}

static u64 run_seed(u64 seed, u64 index, const char *prop) { Rng_ r = { seed * 0xD6E8FEB86659FD93ULL + atoi(prop+1) * 0xA24BAED4963EE407ULL }; u64 a = sm(&r); r.s = a + index * 0x9e3779b97f4a7c15ULL; return sm(&r); }
typedef struct { const char *id; } Prof;
static const char *props[] = { "C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C21","C22","C23","C24","C25" };
static int dyn_budget(int lo, int hi) { return logr(lo, hi); }
static void base_cfg(u64 seed, int prof)
{
  memset(&C, 0, sizeof C);
  C.seed = seed; C.profile = prof; C.npu = 1+rn(4);
  int s = rn(100);
  static int fs = -2; if (fs == -2) { const char *e = getenv("SIM_STRAT"); fs = e ? atoi(e) : -1; }   /* experiments */
  C.strat = fs >= 0 ? fs : s < 27 ? 0 : s < 44 ? 1 : s < 57 ? 2 : s < 75 ? 3 : s < 80 ? 4 : 5;
  static const int pi[] = { 30, 100, 300, 1000, 2500, 5000 };
  C.p_int = pi[rn(6)]; C.p_unint = pr(50) ? 0 : pi[rn(3)]/4+1;
  static const int qs[] = { 30, 100, 300, 1000, 3000 };
  C.quantum = qs[rn(5)];
  C.pct_d = 1+rn(8); C.pct_len = logr(200, 40000); C.pct_spin = logr(30, 2000);
  C.burst_long = logr(20, 3000);
  C.race_q = logr(50, 3000);
  if (C.strat == 3 || C.strat == 5) C.p_int = logr(10, 1500);
  if (pr(35)) { C.stall_p = 1+rn(30); C.stall_max = logr(100, 20000); }
  C.sb_cap = pr(50) ? 1+rn(4) : 4+rn(40);
  if (pr(45)) { static const int dp[] = { 20, 100, 300, 700 }; C.delay_p = dp[rn(4)]; C.delay_max = logr(50, 5000); }
  C.chaos = logr(20000, 300000);
  C.bound = 4000000;
}
static int pick_nw(void)
{
  static const int d[] = { 1,2,2,2,2,3,3,3,3,4,4,4,5,6,8 };
  int many = C.profile == 20 || C.profile == 12 || C.profile == 16 ? 7 : 2;     /* now and then many workers, at odd counts */
  if (P.nsess <= 3 && pr(many)) return 5+rn(P.nsess == 1 ? 24 : 16);
  return d[rn(15)];
}
static int has_dflt;
static void set_dq(Session *s, int need) { (void)has_dflt; int m = rn(10); s->dq = m < 5 ? need : m < 9 ? need + rn(60) : need + 300; if (s->dq < 1) s->dq = 1; }

static void gen(u64 seed, const char *prop)
{
  gs = mixh(seed, 777); for (int k=0; k<3; k++) gn();
  memset(&P, 0, sizeof P);
  int pf = atoi(prop+1);
  base_cfg(seed, pf);
  gen_maxar = work_maxarity; gen_small_ar = 0; wT0bits = 1|2|16;
  L l; int b, need;
  static const int w01[] = { O_BULK,3, O_SPAWN,40, O_SYNC,22, O_CALL,10, O_WORK,10, O_STEAL,4, O_SHARE,4, O_T0,5, O_SYNCALL,5, 0 };
  static const int w02[] = { O_BULK,3, O_SPAWN,40, O_SYNC,22, O_CALL,8, O_WORK,14, O_STEAL,4, O_SHARE,5, O_NEWFRAME,4, O_YIELD,4, O_SYNCALL,5, 0 };
  static const int w03[] = { O_SPAWN,30, O_SYNC,12, O_CALL,10, O_NEWFRAME,6, O_TOGETHER,5, O_RUNIN,6, O_RUNEXIN,6, O_CB,6, O_T0,10, O_WORK,4, O_SHARE,4, O_YIELD,3, 0 };
  static const int w04[] = { O_BULK,5, O_SPAWN,40, O_SYNC,14, O_DROP,22, O_DROPALL,3, O_CALL,6, O_WORK,10, O_STEAL,3, O_SHARE,6, O_VARS,3, O_T0,3, 0 };
  static const int w05[] = { O_BULK,2, O_SPAWN,30, O_SYNC,15, O_CALL,6, O_WORK,10, O_T0,4, O_NEWFRAME,3, O_SHARE,3, O_STEAL,6, O_YIELD,4, 0 };
  static const int w06[] = { O_BULK,1, O_SPAWN,30, O_SYNC,15, O_CALL,6, O_WORK,12, O_STEAL,5, O_YIELD,3, O_RUNIN,2, O_RUNEXIN,2, 0 };
  static const int w07[] = { O_BULK,4, O_SPAWN,34, O_SYNC,14, O_CALL,6, O_WORK,10, O_NEWFRAME,14, O_SHARE,5, O_STEAL,4, O_YIELD,5, O_DROP,3, O_T0,2, 0 };
  static const int w08[] = { O_BULK,2, O_SPAWN,34, O_SYNC,14, O_CALL,6, O_WORK,10, O_TOGETHER,14, O_SHARE,5, O_STEAL,4, O_YIELD,5, O_BARRIER,12, O_T0,2, 0 };
  static const int w09[] = { O_BULK,3, O_SPAWN,34, O_SYNC,12, O_CALL,5, O_WORK,8, O_TOGETHER,10, O_NEWFRAME,12, O_SHARE,5, O_STEAL,7, O_YIELD,8, O_BARRIER,6, O_DROP,2, 0 };
  static const int w10[] = { O_SPAWN,25, O_SYNC,10, O_WORK,10, O_TOGETHER,25, O_BARRIER,60, O_SHARE,3, O_STEAL,3, 0 };
  static const int w11[] = { O_BULK,1, O_SPAWN,30, O_SYNC,15, O_CALL,6, O_WORK,10, O_NEWFRAME,2, O_TOGETHER,2, O_STEAL,3, O_YIELD,2, 0 };
  static const int w15[] = { O_BULK,5, O_SPAWN,50, O_SYNC,16, O_CALL,12, O_WORK,6, O_NEWFRAME,5, O_TOGETHER,3, O_DROP,8, O_SHARE,4, O_STEAL,4, O_YIELD,3, O_RUNIN,4, O_VARS,5, 0 };
  static const int w18[] = { O_BULK,6, O_SPAWN,36, O_SYNC,14, O_CALL,8, O_WORK,4, O_NEWFRAME,6, O_TOGETHER,4, O_DROP,8, O_DROPALL,2, O_SHARE,4, O_STEAL,4, O_YIELD,3, O_RUNIN,4, O_RUNEXIN,2, O_VARS,24, O_BARRIER,4, 0 };
  static const int w19[] = { O_BULK,4, O_SPAWN,40, O_SYNC,18, O_CALL,6, O_WORK,10, O_NEWFRAME,4, O_TOGETHER,3, O_DROP,6, O_SHARE,4, O_STEAL,5, O_YIELD,3, 0 };
  static const int w20[] = { O_BULK,4, O_SPAWN,36, O_SYNC,12, O_CALL,6, O_WORK,8, O_NEWFRAME,6, O_TOGETHER,5, O_DROP,6, O_DROPALL,2, O_SHARE,4, O_STEAL,5, O_YIELD,4, O_RUNIN,3, O_RUNEXIN,2, O_VARS,4, O_BARRIER,6, O_T0,4, 0 };
  static const int w24[] = { O_BULK,2, O_SPAWN,36, O_SYNC,13, O_DROP,3, O_CALL,6, O_WORK,10, O_STEAL,3, O_SHARE,9, O_INSPECT,26, O_NEWFRAME,3, O_TOGETHER,2, O_YIELD,3, 0 };
  if (!work_hwloc && pr(pf == 25 ? 50 : 10)) C.affk = pr(30) ? -1 : 1+rn(40);
  if (work_hwloc) { C.topo = rn(100000); C.npu = hw_npus(); if (pr(30)) C.hwfail = rn(65536); }
  int gf = pf;                                   /* now and then a program of another family: everything must work together with everything else */
  if (pf != 16 && pf != 21 && rn(8) == 0) { static const int mix[] = { 20,20,20,20,9,9,5,11,12,17,18,7,8,3,6 }; gf = mix[rn(15)]; }
  gen_nw = pick_nw();
  Session *s = &P.sess[0];
  P.nsess = 1; s->nw = gen_nw; s->waitdone = rn(2);
  switch (gf) {
  case 1: case 2: case 4: {
    if (gf == 1) wts(w01); else if (gf == 2) { wts(w02); if (pr(40)) C.delay_p = 0; else if (!C.delay_p || pr(50)) { C.delay_p = 50+rn(600); C.delay_max = logr(30, 4000); C.sb_cap = 2+rn(40); } } else wts(w04);
    if (gen_nw == 1 && pr(70)) s->nw = gen_nw = 2+rn(3);
    gen_small_ar = pr(70);
    l.n = 0; need = 4; int nr = pr(70) ? 1 : 1+rn(4);
    for (int k=0; k<nr; k++) { b = dyn_budget(2, 260/nr); int n = gtree(b, 0, 0); need += cost[n]; put(&l, pr(90) ? X_RUN : X_RUNEX, n, 0); }
    script(s, &l); set_dq(s, need); break; }
  case 3:
    wts(w03); wT0bits = 31; l.n = 0; need = 60; { int nr = 1+rn(5);
    for (int k=0; k<nr; k++) { int x = rn(100); int op = x < 40 ? X_RUN : x < 60 ? X_RUNEX : x < 80 ? X_NEWFRAME : X_TOGETHER; int n = op == X_TOGETHER ? ggroup(dyn_budget(1,20)/gen_nw+1, 0) : gtree(dyn_budget(1, 80/nr), 0, 0); need += cost[n]*(op == X_TOGETHER ? gen_nw : 1); put(&l, op, n, 0); if (pr(20)) put(&l, X_T0, 0, rn(6)); } }
    script(s, &l); set_dq(s, need); break;
  case 5: case 6: case 17: case 20: case 11: case 9: {
    gen_small_ar = pr(70);
    wts(gf == 5 ? w05 : gf == 6 ? w06 : gf == 9 ? w09 : gf == 11 ? w11 : gf == 17 ? w09 : w20);
    if (gf == 17 && pr(40)) wts(w05);
    if (gf == 17 || (gf == 20 && pr(30))) { static const int fp[] = { 50, 300, 1500, 4000 }; if (gf == 20 || pr(80)) C.casfail_p = fp[rn(4)]; C.eintr_p = pr(70) ? fp[rn(4)]*2 : 0; C.spur_p = pr(70) ? fp[rn(4)]*2 : 0; }
    int nsc = gf == 5 || gf == 6 ? 2+rn(4) : gf == 9 ? 1+rn(4) : 1+rn(4); if (gf == 6 && pr(20)) nsc = 6; need = 30;
    if (gf == 20 && pr(30)) { P.nsess = 2; }
    for (int ss=0; ss<P.nsess; ss++) {
      s = &P.sess[ss]; s->nw = gen_nw = pick_nw(); s->waitdone = rn(2); need = 30;
      int susp_here = gf == 11 || pr(gf == 9 ? 15 : 30);
      for (int t=0; t<nsc; t++) {
        l.n = 0; int nops = 1+rn(gf == 9 ? 3 : 5); int susp = 0, extra = 0;
        for (int k=0; k<nops; k++) {
          int x = rn(100), op;
          if (t > 0 && susp_here && pr(25)) { put(&l, susp ? X_SUSPEND : X_RESUME, 0, 0); susp = !susp; if (pr(30)) put(&l, X_DELAY, 0, rn(200)); continue; }
          if (t == 0 && susp_here && pr(55)) {
            if (!susp && pr(15)) { put(&l, X_RESUME, 0, 0); extra++; }
            else if (!susp && extra && pr(60)) { put(&l, X_SUSPEND, 0, 0); extra--; }
            else if (!susp && !extra) { put(&l, X_SUSPEND, 0, 0); susp = 1; if (pr(60)) put(&l, X_SLEEPCHECK, 0, 0); }
            else if (pr(60)) { put(&l, X_RESUME, 0, 0); susp = 0; if (pr(40)) { int n = ggroup(1, 5); put(&l, X_TOGETHER, n, 0); need += gen_nw; if (0) put(&l, X_SLEEPCHECK, 0, 0); } }
            else put(&l, X_SLEEPCHECK, 0, 0);
            if (pr(30)) put(&l, X_DELAY, 0, rn(200));
            continue;
          }
          switch (gf) {
            case 5: op = x < 75 ? X_RUN : x < 83 ? X_NEWFRAME : x < 90 ? X_TOGETHER : x < 95 ? X_T0 : X_DELAY; break;
            case 6: op = x < 45 ? X_RUN : x < 88 ? X_RUNEX : x < 92 ? X_NEWFRAME : x < 95 ? X_TOGETHER : X_DELAY; break;
            case 9: op = x < 35 ? X_RUN : x < 60 ? X_NEWFRAME : x < 85 ? X_TOGETHER : x < 92 ? X_RUNEX : X_DELAY; break;
            case 11: op = x < 70 ? X_RUN : x < 76 ? X_RUNEX : x < 82 ? X_NEWFRAME : x < 90 ? X_TOGETHER : X_DELAY; break;
            default: op = x < 50 ? X_RUN : x < 65 ? X_RUNEX : x < 80 ? X_NEWFRAME : x < 95 ? X_TOGETHER : X_DELAY; break;
          }
          if (op == X_DELAY) { put(&l, op, 0, rn(250)); continue; }
          if (op == X_T0) { put(&l, op, 0, rn(6)); need += 2; continue; }
          b = dyn_budget(1, gf == 9 || gf == 20 ? 60 : 25);
          int n = op == X_TOGETHER ? ggroup(b/gen_nw+1, 0) : gtree(b, 0, 0);
          need += cost[n] * (op == X_TOGETHER ? gen_nw : 1);
          put(&l, op, n, 0);
          if (susp && t == 0 && pr(40)) put(&l, X_SLEEPCHECK, 0, 0);
        }
        if (t > 0 && susp) put(&l, X_SUSPEND, 0, 0);
        script(s, &l);
      }
      set_dq(s, need);
    }
    break; }
  case 7: case 8: case 10: {
    wts(gf == 7 ? w07 : gf == 8 ? w08 : w10); gen_small_ar = pr(60);
    if (gen_nw == 1 && pr(70)) s->nw = gen_nw = 2+rn(3);
    l.n = 0; need = 30; int nr = 1+rn(3);
    for (int k=0; k<nr; k++) {
      int x = rn(100); int op = gf == 7 ? (x < 75 ? X_RUN : X_NEWFRAME) : (x < 65 ? X_RUN : X_TOGETHER);
      b = dyn_budget(3, 180/nr);
      int n = op == X_TOGETHER ? ggroup(b/gen_nw+1, 0) : gtree(b, 0, 0);
      need += cost[n] * (op == X_TOGETHER ? gen_nw : 1); put(&l, op, n, 0);
    }
    script(s, &l);
    if (pr(25)) { l.n = 0; int n = gtree(dyn_budget(1, 20), 0, 0); need += cost[n]; put(&l, X_RUN, n, 0); script(s, &l); }
    set_dq(s, need); break; }
  case 12: {
    wts(w11); gen_small_ar = 1; P.nsess = 1+rn(6);
    for (int ss=0; ss<P.nsess; ss++) {
      s = &P.sess[ss]; s->nw = gen_nw = pr(8) ? 0 : pick_nw(); if (!gen_nw) gen_nw = C.npu; s->waitdone = pr(25); need = 8;
      int nsc = pr(35) ? 0 : 1+rn(2);
      for (int t=0; t<nsc; t++) {
        l.n = 0; int nops = rn(3); int susp = 0;
        for (int k=0; k<nops; k++) {
          if (t == 0 && pr(30)) { put(&l, susp ? X_RESUME : X_SUSPEND, 0, 0); susp = !susp; continue; }
          int op = pr(80) ? X_RUN : pr(50) ? X_NEWFRAME : X_TOGETHER; b = dyn_budget(1, 20);
          int n = op == X_TOGETHER ? ggroup(b/gen_nw+1, 0) : gtree(b, 0, 0); need += cost[n]*(op == X_TOGETHER ? gen_nw : 1); put(&l, op, n, 0);
        }
        script(s, &l);
      }
      s->dq = need + rn(30); if (s->nw <= 4 && pr(3)) s->dq = 0;
    }
    break; }
  case 13: case 14: {
    wts(w01); gen_small_ar = pr(80); if (gf == 14 || pr(80)) { if (gen_nw == 1) s->nw = gen_nw = 2+rn(5); }
    int sc = gf == 14 ? rn(6) : pr(40) ? 6 : pr(40) ? 5-rn(2) : 9;
    if (sc == 4) s->nw = gen_nw = 3; if (sc == 5) s->nw = gen_nw = 2;
    if (gf == 13 && pr(50)) { C.stall_p = 10+rn(40); C.stall_max = logr(500, 30000); }
    l.n = 0;
    if (sc == 9) { int n = gtree(dyn_budget(3, 300), 0, 0); put(&l, X_RUN, n, 0); }
    else { int k = 1+rn(2); while (k--) put(&l, X_RUN, scenario(sc), 0); }
    script(s, &l); s->dq = 400 + rn(200); break; }
  case 24: {
    wts(w24); gen_small_ar = pr(40); if (gen_nw == 1 && pr(85)) s->nw = gen_nw = 2+rn(3); if (pr(60)) C.delay_p = 0;
    l.n = 0; need = 60; int nr = 1+rn(3);
    for (int k=0; k<nr; k++) { int n = pr(20) ? scenario(7) : gtree(dyn_budget(2, 200/nr), 0, 0); need += cost[n]; put(&l, pr(85) ? X_RUN : X_NEWFRAME, n, 0); }
    script(s, &l); set_dq(s, need); break; }
  case 23: {
    wts(w11); gen_small_ar = 1; P.nsess = 1+rn(3);
    for (int ss=0; ss<P.nsess; ss++) {
      s = &P.sess[ss]; s->nw = gen_nw = pr(25) ? 0 : pr(50) ? 1+rn(C.npu) : pr(70) ? 1+rn(8) : C.npu+rn(4); if (!gen_nw) gen_nw = C.npu; s->waitdone = rn(2); need = 8;
      l.n = 0; int nr = rn(3); for (int k=0; k<nr; k++) { int op = pr(70) ? X_RUN : X_TOGETHER; int n = op == X_RUN ? gtree(dyn_budget(1, 12), 0, 0) : ggroup(1, 4); need += cost[n]*gen_nw; put(&l, op, n, 0); }
      if (nr) script(s, &l);
      s->dq = need; if (pr(30)) s->verb = 2;
    }
    break; }
  case 25: {
    wts(w11); gen_small_ar = 1; P.nsess = 1+rn(4); C.rlim_k = pr(30) ? 0 : pr(20) ? -1 : logr(16, 60000);
    for (int ss=0; ss<P.nsess; ss++) {
      s = &P.sess[ss]; s->nw = gen_nw = pr(30) ? 0 : pick_nw(); if (!gen_nw) gen_nw = C.npu; s->waitdone = rn(2); need = 8;
      if (pr(50)) s->stk = pr(25) ? 1 : 1+logr(16384, 40000000); if (pr(40)) s->verb = 1+rn(3);
      l.n = 0; int nr = rn(3); for (int k=0; k<nr; k++) { int n = gtree(dyn_budget(1, 10), 0, 0); need += cost[n]; put(&l, X_RUN, n, 0); }
      if (nr) script(s, &l);
      s->dq = need; if (s->nw <= 4 && pr(2)) s->dq = 0;
    }
    break; }
  case 15: {
    wts(w15); gen_small_ar = pr(70);
    l.n = 0; need = 1; int nr = 1+rn(3);
    for (int k=0; k<nr; k++) { int x = rn(100); int op = x < 80 ? X_RUN : x < 90 ? X_NEWFRAME : X_TOGETHER; int n = op == X_TOGETHER ? ggroup(dyn_budget(2, 30)/gen_nw+1, 0) : gtree(dyn_budget(2, 120), 0, 0); need += cost[n]; put(&l, op, n, 0); }
    script(s, &l);
    s->dq = pr(70) ? 1+rn(14) : pr(50) ? 1+rn(40) : need; if (pr(3)) { P.nsess = 2; P.sess[1] = P.sess[0]; P.sess[1].dq = pr(40) ? 0 : 1+rn(20); }
    C.flags |= CF_OVERFLOW; break; }
  case 16: {
    wts(w01); gen_small_ar = 1; P.nsess = 1+rn(2);
    for (int ss=0; ss<P.nsess; ss++) {
      s = &P.sess[ss]; s->nw = gen_nw = pick_nw(); s->waitdone = rn(2);
      l.n = 0; int nr = rn(3); need = 4; for (int k=0; k<nr; k++) { int n = gtree(dyn_budget(1, 10), 0, 0); need += cost[n]; put(&l, X_RUN, n, 0); }
      if (nr) script(s, &l);
      s->dq = need; if (pr(6)) s->huge = 1+rn(200);
    }
    if (pr(55)) C.alloc_k = 1+rn(pr(70) ? P.sess[0].nw+3 : P.sess[0].nw+3+P.sess[P.nsess-1].nw+3); else C.thr_k = 1+rn(P.sess[0].nw + (P.nsess > 1 ? P.sess[1].nw : 0));
    break; }
  case 18: {
    wts(w18); gen_small_ar = pr(70); int nsc = pr(75) ? 1 : 2+rn(2); need = 6;
    for (int t=0; t<nsc; t++) {
      l.n = 0; int nr = 1+rn(2);
      for (int k=0; k<nr; k++) { int x = rn(100); int op = x < 80 ? X_RUN : x < 90 ? X_NEWFRAME : X_TOGETHER; int n = op == X_TOGETHER ? ggroup(dyn_budget(2, 40)/gen_nw+1, 0) : gtree(dyn_budget(2, 120/nsc), 0, 0); need += cost[n]*(op == X_TOGETHER ? gen_nw : 1); put(&l, op, n, 0); }
      script(s, &l);
    }
    s->dq = need + (pr(60) ? rn(8) : pr(50) ? rn(100) : 1000+rn(3000)); break; }
  case 21: {                                    /* example programs: interpreted by bench.c */
    C.p_int = C.p_int/8+2; C.p_unint = C.p_unint/8+1; C.pct_len *= 20; C.chaos *= 4;
    if (C.delay_p > 100) C.delay_p /= 8;
    if (pr(25)) P.nsess = 2;
    for (int ss=0; ss<P.nsess; ss++) {
      s = &P.sess[ss]; s->nw = gen_nw = pick_nw(); s->waitdone = rn(2); s->dq = 2000;
      l.n = 0; int whole = pr(20), nr = whole ? 1 : 1+rn(3);
      for (int k=0; k<nr; k++) { if (!whole && pr(10)) put(&l, X_SUSPEND, 0, 0); put(&l, whole ? X_T0 : pr(70) ? X_RUN : pr(50) ? X_RUNEX : X_NEWFRAME, rn(65536), rn(256)); }
      script(s, &l);
    }
    break; }
  case 19: {
    wts(w19); gen_small_ar = pr(80); P.nsess = 1+rn(2);
    C.clock_mode = work_pie && pr(35) ? 3 : rn(6);
    for (int ss=0; ss<P.nsess; ss++) {
      s = &P.sess[ss]; s->nw = gen_nw = pick_nw(); s->waitdone = rn(2); need = 8;
      l.n = 0; int nops = rn(5); int susp = 0;
      if (pr(25)) put(&l, X_CRESET, 0, 0);
      for (int k=0; k<nops; k++) {
        if (pr(30)) {
          if (pr(75)) { if (!susp) { put(&l, X_SUSPEND, 0, 0); susp = 1; } }
          put(&l, pr(60) ? X_CRESET : X_CREPORT, 0, susp); if (pr(30)) put(&l, X_CREPORT, 0, susp);
          continue;
        }
        int op = pr(85) ? X_RUN : pr(50) ? X_NEWFRAME : X_TOGETHER; b = dyn_budget(1, 60); int n = op == X_TOGETHER ? ggroup(b/gen_nw+1, 0) : gtree(b, 0, 0); need += cost[n]*(op == X_TOGETHER ? gen_nw : 1); put(&l, op, n, 0);
      }
      script(s, &l); s->dq = need + rn(20);
    }
    break; }
  }
  if ((gf == 3 || gf == 5 || gf == 8 || gf == 10 || gf == 12 || gf == 18 || gf == 25) && rn(1500) == 0) {   /* more workers than fit in a byte */
    Cfg k = C; memset(&P, 0, sizeof P); P.nsess = 1; s = &P.sess[0]; s->nw = gen_nw = pr(40) ? 254+rn(6) : 60+rn(240); s->waitdone = 1; C = k; if (pr(70)) C.delay_p = 0;
    int sv = W[O_NEWFRAME], sb = W[O_TOGETHER]; W[O_NEWFRAME] = W[O_TOGETHER] = 0;
    l.n = 0; int nr = 1+rn(3); need = 16;
    for (int j=0; j<nr; j++) { int op = pr(50) ? X_RUN : X_TOGETHER; int n = op == X_RUN ? gtree(40, 0, 1) : node_of(0, gf == 10 ? 3 : 2, O_VARS, 0, 0, O_SPAWN, leaf(), 0, O_BARRIER, 0, 0); need += cost[n]+4; put(&l, op, n, 0); }
    W[O_NEWFRAME] = sv; W[O_TOGETHER] = sb;
    script(s, &l); s->dq = need; C.bound = 20000000; C.chaos = logr(20000, 200000);
  }
  if ((gf == 1 || gf == 4 || gf == 7 || gf == 15 || gf == 18 || gf == 20) && rn(1500) == 0) {   /* a queue deeper than 2^16 */
    memset(&P, 0, sizeof P); P.nsess = 1; s = &P.sess[0]; s->nw = gen_nw = pr(50) ? 1 : 2; s->waitdone = 1; C.delay_p = 0;
    int q = 4096 + (pr(60) ? rn(12) : rn(5000)); int m = 16 | (rn(128) & ~32 & ~(gen_nw == 1 || pr(50) ? 0 : 4));
    l.n = 0; if (pr(40)) put(&l, O_BULK, 1+rn(30), rn(8)); put(&l, O_BULK, q, m); if (pr(40)) { int t = gtree(20, 0, 0); put(&l, O_CALL, t, 0); }
    int n = newnode(); finish_node(n, &l, 2+rn(2), q*16); l.n = 0; put(&l, gf == 7 && pr(50) ? X_NEWFRAME : X_RUN, n, 0); script(s, &l);
    s->dq = q*16 + (pr(50) ? 60 : rn(70000)); C.bound += q*16*150*gen_nw;
  }
  if (gf != 16 && gf != 21 && gf != 19 && rn(gf == 5 || gf == 6 ? xrate()/2+1 : xrate()) == 0) {
    if ((gf == 1 || gf == 2 || (gf >= 5 && gf <= 14) || gf == 17 || gf == 20) && pr(gf == 12 ? 40 : 75)) extreme(gf);
    else { C.chaos = logr(300000, 3000000); C.stall_p = 2+logr(1, 70); C.stall_max = logr(50000, C.chaos); C.bound += C.chaos; }   /* a thread stops for very long */
  }
  if (gf == 20) C.flags |= CF_OVERFLOW;
  for (int ss=0; ss<P.nsess; ss++) if (P.sess[ss].nw > 8 && P.sess[ss].nw < 60 && C.bound < P.sess[ss].nw*1000000) C.bound = P.sess[ss].nw*1000000;
  if (gf == 21) C.bound *= 10;
}

/* ------------------------------------------------------------------ running one execution */
static void child_setup(void) { prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGTERM, SIG_DFL); }
static int run_once(int timeout)
{
  memset(R, 0, offsetof(Res, rec)); 
  fflush(0);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) { child_setup(); sim_run(); _exit(9); }
  int st; (void)timeout;
  waitpid(p, &st, 0);
  if (R->status == 0) { R->status = 3; snprintf(R->cls, sizeof R->cls, "harness"); snprintf(R->msg, sizeof R->msg, "child ended unexpectedly (status %#x)", st); }
  return R->status;
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }

/* ------------------------------------------------------------------ replay files */
#define CFGI(X) X(affk) X(strat) X(p_int) X(p_unint) X(quantum) X(pct_d) X(pct_len) X(pct_spin) X(burst_long) X(race_q) X(stall_p) X(stall_max) X(delay_p) X(delay_max) X(sb_cap) X(casfail_p) X(eintr_p) X(spur_p) X(alloc_k) X(thr_k) X(clock_mode) X(npu) X(rlim_k) X(topo) X(hwfail) X(chaos) X(bound) X(profile) X(flags)
static const char *opname(int op)
{
  static const char *n[] = { "NOP","SPAWN","SYNC","DROP","CALL","NEWFRAME","TOGETHER","RUNIN","RUNEXIN","YIELD","STEAL","SHARE","BARRIER","VARS","WORK","SYNCALL","DROPALL","T0","FREEZE","THAW","RENDEZ","AWAIT","BUSY","MEET","PAIRS","FLAGSET","FLAGWAIT","INSPECT","POLL","CB","BULK","BARS","CROWDWAIT" };
  static const char *x[] = { "xRUN","xRUNEX","xNEWFRAME","xTOGETHER","xSUSPEND","xRESUME","xSLEEPCHECK","xDELAY","xCRESET","xCREPORT","xT0","xCROWD" };
  return op < O_LAST ? n[op] : op >= 64 && op < X_LAST ? x[op-64] : "?";
}
static int opcode(const char *s) { for (int k=0; k<X_LAST; k++) if ((k < O_LAST || k >= 64) && !strcmp(opname(k), s)) return k; fprintf(stderr, "bad op %s\n", s); exit(3); }
static const char *kindname[] = { "switch","delay","casfail","eintr","spurious","allocfail","threadfail","pick","clockjump" };
static char f_prop[16], f_class[32], f_msg[400], f_variant[32]; static u64 f_hash;
static void save(const char *path, const char *prop, const Rec *rec, u32 n)
{
  FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(3); }
  fprintf(f, "# deterministic replay: program, configuration and the schedule/fault decisions that differ from the default\n");
  fprintf(f, "property %s\nvariant %s\nclass %s\nmessage %s\nhash %lx\nseed %lu\n", prop, work_variant, f_class, f_msg, (unsigned long)f_hash, (unsigned long)C.seed);
  fprintf(f, "cfg");
#define X(x) fprintf(f, " " #x "=%d", C.x);
  CFGI(X)
#undef X
  fprintf(f, "\n");
  for (int i=0; i<P.nnodes; i++) { fprintf(f, "node %d kind %d :", i, P.node[i].kind); for (int k=0; k<P.node[i].n; k++) { Op *o = &P.op[P.node[i].first+k]; fprintf(f, " %s,%d,%d", opname(o->op), o->a, o->b); } fprintf(f, "\n"); }
  for (int s=0; s<P.nsess; s++) {
    Session *q = &P.sess[s]; fprintf(f, "session nw %d dq %d waitdone %d stk %d verb %d huge %d\n", q->nw, q->dq, q->waitdone, q->stk, q->verb, q->huge);
    for (int t=0; t<q->nscripts; t++) { fprintf(f, "script :"); for (int k=0; k<q->sc[t].n; k++) { Op *o = &P.op[q->sc[t].first+k]; fprintf(f, " %s,%d,%d", opname(o->op), o->a, o->b); } fprintf(f, "\n"); }
  }
  fprintf(f, "trace %u   # thread, its step, decision, parameter\n", n);
  for (u32 i=0; i<n; i++) fprintf(f, "%d %u %s %u\n", rec[i].tid, rec[i].lstep, kindname[rec[i].kind], rec[i].param);
  fclose(f);
}
static void parse_ops(char *p, u16 *first, u16 *n)
{
  *first = P.nops; *n = 0; char *t;
  for (t = strtok(p, " \n"); t; t = strtok(0, " \n")) { char nmb[32]; int a, b; if (sscanf(t, "%31[^,],%d,%d", nmb, &a, &b) != 3) continue; Op *o = &P.op[P.nops++]; o->op = opcode(nmb); o->a = a; o->b = b; (*n)++; }
}
static void load(const char *path)
{
  FILE *f = fopen(path, "r"); if (!f) { perror(path); exit(3); }
  static char line[200000]; memset(&P, 0, sizeof P); memset(&C, 0, sizeof C);
  static Rec *rr; if (!rr) rr = malloc(sizeof(Rec)*MAXREC);
  replay_rec = rr; replay_n = 0;
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#') continue;
    if (!strncmp(line, "property ", 9)) sscanf(line+9, "%15s", f_prop);
    else if (!strncmp(line, "variant ", 8)) sscanf(line+8, "%31s", f_variant);
    else if (!strncmp(line, "class ", 6)) sscanf(line+6, "%31s", f_class);
    else if (!strncmp(line, "message ", 8)) { snprintf(f_msg, sizeof f_msg, "%s", line+8); f_msg[strcspn(f_msg, "\n")] = 0; }
    else if (!strncmp(line, "hash ", 5)) f_hash = strtoull(line+5, 0, 16);
    else if (!strncmp(line, "seed ", 5)) C.seed = strtoull(line+5, 0, 10);
    else if (!strncmp(line, "cfg", 3)) { char *t; for (t = strtok(line+3, " \n"); t; t = strtok(0, " \n")) { char *e = strchr(t, '='); if (!e) continue; *e = 0; int v = atoi(e+1); 
#define X(x) if (!strcmp(t, #x)) C.x = v;
      CFGI(X)
#undef X
    } }
    else if (!strncmp(line, "node ", 5)) { int i, k; sscanf(line+5, "%d kind %d", &i, &k); char *c = strchr(line, ':'); P.node[i].kind = k; parse_ops(c+1, &P.node[i].first, &P.node[i].n); if (i >= P.nnodes) P.nnodes = i+1; }
    else if (!strncmp(line, "session ", 8)) { Session *q = &P.sess[P.nsess++]; sscanf(line+8, "nw %d dq %d waitdone %d stk %d verb %d huge %d", &q->nw, &q->dq, &q->waitdone, &q->stk, &q->verb, &q->huge); }
    else if (!strncmp(line, "script ", 7)) { Session *q = &P.sess[P.nsess-1]; Script *c = &q->sc[q->nscripts++]; parse_ops(strchr(line, ':')+1, &c->first, &c->n); }
    else if (!strncmp(line, "trace ", 6)) {
      while (fgets(line, sizeof line, f)) { int t; unsigned ls, pm; char kn[32]; if (sscanf(line, "%d %u %31s %u", &t, &ls, kn, &pm) == 4 && replay_n < MAXREC) { Rec *r = &replay_rec[replay_n++]; r->tid = t; r->lstep = ls; r->param = pm; r->kind = 0; for (int k=0; k<D_NKINDS; k++) if (!strcmp(kn, kindname[k])) r->kind = k; } }
    }
  }
  fclose(f);
  C.replay = 1;
}

/* ------------------------------------------------------------------ shrinking */
static int same_class(const char *cls) { return R->status == 2 && !strcmp(R->cls, cls); }
static Rec *cand; static u32 ncand;
static int try_recs(const Rec *r, u32 n, const char *cls)
{
  memcpy(replay_rec, r, n*sizeof(Rec)); replay_n = n; C.replay = 1;
  run_once(0);
  return same_class(cls);
}
static u32 ddmin(Rec *r, u32 n, const char *cls, double deadline)
{
  u32 chunk = n/2 ? n/2 : 1;
  Rec *t = malloc((n+1)*sizeof(Rec));
  if (n && try_recs(r, 0, cls)) { free(t); return 0; }
  while (n) {
    int any = 0;
    for (u32 i=0; i<n && now() < deadline; ) {
      u32 k = chunk < n-i ? chunk : n-i;
      memcpy(t, r, i*sizeof(Rec)); memcpy(t+i, r+i+k, (n-i-k)*sizeof(Rec));
      if (try_recs(t, n-k, cls)) { memcpy(r, t, (n-k)*sizeof(Rec)); n -= k; any = 1; } else i += k;
    }
    if (now() >= deadline) break;
    if (chunk == 1) { if (!any) break; } else chunk = (chunk+1)/2;
    if (chunk > n && n) chunk = n;
  }
  free(t); return n;
}
/* lace_suspend only by those who may: at most one more than resumed by the first thread, none beyond its own resumes by another */
static int balanced(void)
{
  for (int s=0; s<P.nsess; s++) for (int t=0; t<P.sess[s].nscripts; t++) { Script *c = &P.sess[s].sc[t]; int b = 0; for (int k=0; k<c->n; k++) { int op = P.op[c->first+k].op; b += (op == X_SUSPEND) - (op == X_RESUME); if (b > (t == 0)) return 0; } if (t && b) return 0; }
  return 1;
}
/* find the same class on the current (smaller) program by searching schedules */
static int search(const char *cls, int tries, const Cfg *orig, Rec **out, u32 *n)
{
  if (!balanced()) return 0;
  /* the recorded schedule first */
  if (ncand && try_recs(cand, ncand, cls)) { *n = ncand; memcpy(*out, cand, ncand*sizeof(Rec)); return 1; }
  for (int k=0; k<tries; k++) {
    C = *orig; C.replay = 0; C.seed = k == 0 ? orig->seed : mixh(orig->seed, k);
    run_once(0);
    if (same_class(cls) && R->nrec < MAXREC) { *n = R->nrec; memcpy(*out, R->rec, R->nrec*sizeof(Rec)); return 1; }
  }
  return 0;
}
static int op_nop_all(int s, int t) { Session *q = &P.sess[s]; for (int k=0; k<q->sc[t].n; k++) if (P.op[q->sc[t].first+k].op) return 0; return 1; }
static void delop(u16 first, u16 *n, int k) { memmove(&P.op[first+k], &P.op[first+k+1], (*n-1-k)*sizeof(Op)); (*n)--; }
static void shrink(const char *in, const char *outp, double tlimit)
{
  load(in);
  char cls[32]; strcpy(cls, f_class);
  double t0 = now(), dl1 = t0 + tlimit*0.55, dl2 = t0 + tlimit;
  Rec *best = malloc(sizeof(Rec)*MAXREC), *tmp = malloc(sizeof(Rec)*MAXREC); u32 nb = replay_n;
  memcpy(best, replay_rec, nb*sizeof(Rec));
  Cfg orig = C; static Prog sv; static Cfg svc;
  if (!try_recs(best, nb, cls)) { fprintf(stderr, "shrink: does not reproduce (%s)\n", R->cls); exit(2); }
  int changed = 1; Cfg curc = orig;
  const int tries = 25;
  cand = malloc(sizeof(Rec)*MAXREC);
#define ATTEMPT(stmt) do { if (now() > dl1) break; sv = P; svc = curc; stmt; u32 nn; memcpy(cand, best, nb*sizeof(Rec)); ncand = nb; C = curc; if (search(cls, tries, &curc, &tmp, &nn)) { curc.seed = C.seed; nb = nn; memcpy(best, tmp, nn*sizeof(Rec)); changed = 1; } else { P = sv; curc = svc; } } while (0)
  while (changed && now() < dl1) {
    changed = 0;
    while (P.nsess > 1 && now() < dl1) { int b4 = changed; changed = 0; ATTEMPT(P.nsess--); if (!changed) { changed = b4; break; } }
    if (P.nsess > 1) { int b4 = changed; changed = 0; ATTEMPT({ memmove(P.sess, P.sess+1, (P.nsess-1)*sizeof(Session)); P.nsess--; }); changed |= b4; }
    for (int s=0; s<P.nsess; s++) {
      while (P.sess[s].nw > 1 && now() < dl1) { int b4 = changed; changed = 0; ATTEMPT(P.sess[s].nw--); if (!changed) { changed = b4; break; } }
      for (int t=P.sess[s].nscripts-1; t>=0; t--) { if (t >= P.sess[s].nscripts) continue; ATTEMPT({ Session *q = &P.sess[s]; memmove(&q->sc[t], &q->sc[t+1], (q->nscripts-1-t)*sizeof(Script)); q->nscripts--; }); }
      for (int t=0; t<P.sess[s].nscripts; t++) for (int k=P.sess[s].sc[t].n-1; k>=0; k--) {   /* pairs */
        Script *q = &P.sess[s].sc[t]; if (k >= q->n) continue; int op = P.op[q->first+k].op, other = op == X_SUSPEND ? X_RESUME : op == X_RESUME ? X_SUSPEND : 0, j = k+1;
        if (other) while (j < q->n && P.op[q->first+j].op != other) j++;
        if (other && j < q->n) ATTEMPT({ delop(q->first, &q->n, j); delop(q->first, &q->n, k); });
      }
      for (int t=0; t<P.sess[s].nscripts; t++) for (int k=P.sess[s].sc[t].n-1; k>=0; k--) if (P.op[P.sess[s].sc[t].first+k].op == X_DELAY && P.op[P.sess[s].sc[t].first+k].a > 1) ATTEMPT(P.op[P.sess[s].sc[t].first+k].a /= 2); else if (P.op[P.sess[s].sc[t].first+k].op) ATTEMPT(delop(P.sess[s].sc[t].first, &P.sess[s].sc[t].n, k));
    }
    /* whole nodes, then single ops, of reachable nodes */
    for (int i=P.nnodes-1; i>=0 && now() < dl1; i--) { int any = 0; for (int k=0; k<P.node[i].n; k++) any += P.op[P.node[i].first+k].op != 0; if (any > 1) ATTEMPT(P.node[i].n = 0); }
    for (int i=P.nnodes-1; i>=0 && now() < dl1; i--) for (int k=P.node[i].n-1; k>=0; k--) { Op *o = &P.op[P.node[i].first+k]; if (o->op && o->b && (o->op == O_SPAWN || o->op == O_WORK || o->op == O_STEAL)) ATTEMPT(o->b = 0); for (int q=0; q<17 && o->op == O_BULK && o->a > 1; q++) { int b4 = changed; changed = 0; ATTEMPT(o->a /= 2); if (!changed) { changed = b4; break; } } ATTEMPT(delop(P.node[i].first, &P.node[i].n, k)); }
    if (curc.delay_p) ATTEMPT(curc.delay_p = 0);
    if (curc.stall_p) ATTEMPT(curc.stall_p = 0);
    if (curc.casfail_p) ATTEMPT(curc.casfail_p = 0);
    if (curc.eintr_p) ATTEMPT(curc.eintr_p = 0);
    if (curc.spur_p) ATTEMPT(curc.spur_p = 0);
    if (curc.clock_mode) ATTEMPT(curc.clock_mode = 0);
  }
  C = curc; 
  /* drop unreachable nodes' ops */
  { static u8 reach[MAXNODES]; memset(reach, 0, sizeof reach); int ch = 1;
    for (int s=0; s<P.nsess; s++) for (int t=0; t<P.sess[s].nscripts; t++) for (int k=0; k<P.sess[s].sc[t].n; k++) { Op *o = &P.op[P.sess[s].sc[t].first+k]; if (o->op >= X_RUN && (o->op <= X_TOGETHER || o->op == X_CROWD) && o->a < P.nnodes) reach[o->a] = 1; }
    while (ch) { ch = 0; for (int i=0; i<P.nnodes; i++) if (reach[i]) for (int k=0; k<P.node[i].n; k++) { Op *o = &P.op[P.node[i].first+k]; if (o->op && o->a < P.nnodes && !reach[o->a] && (o->op == O_SPAWN || o->op == O_CALL || o->op == O_NEWFRAME || o->op == O_TOGETHER || o->op == O_RUNIN || o->op == O_CB || o->op == O_RUNEXIN || o->op == O_RENDEZ || (o->op == O_T0 && (o->b & 2)))) reach[o->a] = ch = 1; } }
    for (int i=0; i<P.nnodes; i++) if (!reach[i]) P.node[i].n = 0; }
  (void)op_nop_all;
  nb = ddmin(best, nb, cls, dl2);
  if (!try_recs(best, nb, cls)) { fprintf(stderr, "shrink: lost the failure\n"); exit(2); }
  /* simplify parameters of delays and switches is not attempted; store the final run */
  strcpy(f_class, R->cls); snprintf(f_msg, sizeof f_msg, "%s", R->msg); f_hash = R->hash;
  Rec *fin = malloc((nb+1)*sizeof(Rec)); memcpy(fin, best, nb*sizeof(Rec));
  save(outp, f_prop, fin, nb);
  printf("shrunk: %u decisions, class %s, %lu steps\n", nb, R->cls, (unsigned long)R->steps);
}

/* ------------------------------------------------------------------ exploration */
static u64 *seen; static u64 nseen, seencap;
static int see(u64 h) { if (!h) h = 1; if (nseen*2 >= seencap) { u64 oc = seencap; u64 *o = seen; seencap = oc ? oc*2 : 1<<14; seen = calloc(seencap, 8); nseen = 0; for (u64 i=0; i<oc; i++) if (o[i]) see(o[i]); free(o); } u64 i = h & (seencap-1); while (seen[i]) { if (seen[i] == h) return 0; i = (i+1)&(seencap-1); } seen[i] = h; nseen++; return 1; }
static volatile int stop_flag; static void on_stop(int x) { (void)x; stop_flag = 1; }
static struct { char c[32], m[210]; u64 n, first; } hist[40]; static int nhist;
int main(int argc, char **argv)
{
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { if (personality(ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); } }
  R = mmap(0, sizeof(Res), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  replay_rec = malloc(sizeof(Rec)*MAXREC);
  sim_global_init();
  const char *mode = argc > 1 ? argv[1] : "help", *prop = "C01", *out = 0, *viol = 0, *hashes = 0; u64 seed0 = 1, start = 0, stepk = 1, maxruns = ~0ULL; double tl = 10; int dbl = 0, keep = 0; const char *pos[4]; int npos = 0;
  const char *ignore[64]; int nign = 0; const char *known[32]; int nknown = 0; u64 kseen[32] = {0};
  for (int i=2; i<argc; i++) {
    if (!strcmp(argv[i], "--prop")) prop = argv[++i]; else if (!strcmp(argv[i], "--seed")) seed0 = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--start")) start = strtoull(argv[++i], 0, 10); else if (!strcmp(argv[i], "--step")) stepk = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--max")) maxruns = strtoull(argv[++i], 0, 10); else if (!strcmp(argv[i], "--time")) tl = atof(argv[++i]);
    else if (!strcmp(argv[i], "--out")) out = argv[++i]; else if (!strcmp(argv[i], "--hashes")) hashes = argv[++i]; else if (!strcmp(argv[i], "--viol")) viol = argv[++i]; else if (!strcmp(argv[i], "--twice")) dbl = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--keep-going")) keep = 1; else if (!strcmp(argv[i], "--known") && nknown < 32) known[nknown++] = argv[++i]; else if (!strcmp(argv[i], "--ignore") && nign < 64) ignore[nign++] = argv[++i];
    else if (!strcmp(argv[i], "-v")) sim_verbose = 1; else if (npos < 4) pos[npos++] = argv[i];
  }
  if (!strcmp(mode, "replay")) {
    load(pos[0]); 
    if (strcmp(f_variant, work_variant)) { fprintf(stderr, "replay file is for variant %s, this is %s\n", f_variant, work_variant); return 3; }
    run_once(0);
    printf("status %d class %s hash %lx steps %lu message %s\n", R->status, R->status == 2 ? R->cls : "-", (unsigned long)R->hash, (unsigned long)R->steps, R->msg);
    if (sim_verbose) printf("--- stdout\n%s--- stderr\n%s", R->out, R->err);
    return R->status == 2 ? 1 : R->status == 3 ? 3 : 0;
  }
  if (!strcmp(mode, "shrink")) { shrink(pos[0], pos[1], tl); return 0; }
  if (!strcmp(mode, "one")) {  /* run one seed of a profile, verbosely */
    u64 sd = run_seed(seed0, start, prop); gen(sd, prop); run_once(0);
    printf("status %d class %s msg %s steps %lu hash %lx nrec %u stolen %lu\n", R->status, R->cls, R->msg, (unsigned long)R->steps, (unsigned long)R->hash, R->nrec, (unsigned long)R->stolen);
    if (sim_verbose) printf("--- stdout\n%s--- stderr\n%s", R->out, R->err);
    if (viol) { strcpy(f_class, R->cls); strcpy(f_msg, R->msg); f_hash = R->hash; save(viol, prop, R->rec, R->nrec); }
    return R->status == 2;
  }
  if (strcmp(mode, "explore")) { fprintf(stderr, "usage: explore|replay|shrink|one\n"); return 3; }
  signal(SIGTERM, on_stop); u64 *nt = 0; u64 ntn = 0, ntc = 0;
  double t0 = now(); u64 runs = 0, nviol = 0, nerr = 0, nexit = 0, nondet = 0, doubled = 0, steps = 0, simns = 0, maxsteps = 0, fairruns = 0, nontriv = 0; static Res S; u64 ed[1024]; memset(ed, 0, sizeof ed);
  u64 hx = 0; char samples[6000]; int so = 0; samples[0] = 0; char firsterr[500] = ""; char vcls[600] = "";
  static const char *sn[] = { "random", "pct", "burst", "race-directed", "round-robin", "window" }; u64 strat[6] = {0}; u64 threads = 0;
  u64 iend = start;
  for (u64 i=start; runs<maxruns; i+=stepk) {
    iend = i;
    if (stop_flag || now()-t0 > tl) break;
    u64 sd = run_seed(seed0, i, prop);
    gen(sd, prop); static Cfg c0; c0 = C;
    run_once(0); runs++;
    strat[C.strat]++;
    steps += R->steps; simns += R->simns; if (R->steps > maxsteps) maxsteps = R->steps; fairruns += R->fair_steps > 0; hx ^= mixh(i, R->hash); threads += R->nthreads;
#define ADD(x) S.x += R->x;
    ADD(nsw) ADD(drains) ADD(stalls) ADD(stolen) ADD(dropped) ADD(drops_stolen) ADD(frames) ADD(togethers) ADD(runs) ADD(runexs) ADD(exits) ADD(tasks) ADD(t0) ADD(sleeps) ADD(barriers) ADD(contended) ADD(heads) ADD(nested) ADD(resumes) ADD(sessions) ADD(freezes) ADD(meets) ADD(full)
    if (R->maxlive > S.maxlive) S.maxlive = R->maxlive;
    for (int k=0; k<D_NKINDS; k++) S.fired[k] += R->fired[k];
    for (int k=0; k<1024; k++) ed[k] |= R->edges[k];
    int fresh = see(R->ihash);
    if (fresh && R->nsw > 2 && R->nthreads > 1) { nontriv++; if (ntn == ntc) nt = realloc(nt, (ntc = ntc ? ntc*2 : 4096)*8); nt[ntn++] = R->ihash; }
    if (R->status == 4) nexit++;
    if (runs <= 3) { so += snprintf(samples+so, sizeof samples-so, "%s{\"index\":%lu,\"seed\":%lu,\"workers\":%d,\"queue\":%d,\"nodes\":%d,\"threads\":%u,\"strategy\":\"%s\",\"delay_p\":%d,\"stall_p\":%d,\"steps\":%lu,\"switches\":%lu,\"tasks\":%lu,\"stolen\":%lu,\"interleaving\":\"%016lx\",\"status\":%d}", so ? "," : "", (unsigned long)i, (unsigned long)sd, P.sess[0].nw, P.sess[0].dq, P.nnodes, R->nthreads, sn[C.strat], C.delay_p, C.stall_p, (unsigned long)R->steps, (unsigned long)R->nsw, (unsigned long)R->tasks, (unsigned long)R->stolen, (unsigned long)R->ihash, R->status); }
    if (R->status == 3) { nerr++; if (!firsterr[0]) snprintf(firsterr, sizeof firsterr, "index %lu: %.300s", (unsigned long)i, R->msg); }
    if (R->status == 2) {
      int ign = 0; for (int k=0; k<nign; k++) if (!strcmp(ignore[k], R->cls)) ign = 1;
      for (int k=0; k<nknown; k++) { size_t l = strlen(R->cls); if (!strncmp(known[k], R->cls, l) && known[k][l] == ':' && strstr(R->msg, known[k]+l+1)) { ign = 1; kseen[k]++; break; } }   /* listed finding: class:text of the message */
      if (!ign) {
        nviol++;
        if (keep) { int k; for (k=0; k<nhist; k++) if (!strcmp(hist[k].c, R->cls)) break; if (k < 40) { if (k == nhist) { nhist++; strcpy(hist[k].c, R->cls); snprintf(hist[k].m, sizeof hist[k].m, "%.200s", R->msg); hist[k].first = i; } hist[k].n++; } }
        if (nviol == 1) {
          strcpy(f_class, R->cls); strcpy(f_msg, R->msg); f_hash = R->hash; snprintf(vcls, sizeof vcls, "%s", R->cls);
          u64 h = R->hash; u32 n = R->nrec; Rec *rec = malloc((n+1)*sizeof(Rec)); memcpy(rec, R->rec, n*sizeof(Rec));
          if (viol) save(viol, prop, rec, n);
          fprintf(stderr, "violation index %lu class %s: %s\n", (unsigned long)i, f_class, f_msg);
          /* the same seed twice, then its recorded decisions, must give the same execution */
          run_once(0); if (R->hash != h) { nondet++; fprintf(stderr, "same seed differs: %lx %lx\n", (unsigned long)h, (unsigned long)R->hash); }
          memcpy(replay_rec, rec, n*sizeof(Rec)); replay_n = n; C.replay = 1; run_once(0); if (R->hash != h) { nondet++; fprintf(stderr, "replay of the recorded decisions differs: %lx %lx class %s\n", (unsigned long)h, (unsigned long)R->hash, R->cls); }
          free(rec);
        }
        if (!keep) break;
      }
    } else if (dbl && runs % dbl == 0) {
      u64 h = R->hash; doubled++; u32 n = R->nrec; Rec *rec = malloc((n+1)*sizeof(Rec)); memcpy(rec, R->rec, n*sizeof(Rec));
      run_once(0); if (R->hash != h) { nondet++; fprintf(stderr, "index %lu: same seed differs\n", (unsigned long)i); }
      memcpy(replay_rec, rec, n*sizeof(Rec)); replay_n = n; C.replay = 1; run_once(0); if (R->hash != h) { nondet++; fprintf(stderr, "index %lu: replay of %u decisions differs\n", (unsigned long)i, n); }
      free(rec); C = c0;
    }
  }
  for (int k=0; k<nhist; k++) fprintf(stderr, "%6lu x %s (first %lu): %s\n", (unsigned long)hist[k].n, hist[k].c, (unsigned long)hist[k].first, hist[k].m);
  u64 edges = 0; for (int k=0; k<1024; k++) edges += __builtin_popcountll(ed[k]);
  FILE *f = out ? fopen(out, "w") : stdout; if (!f) { perror(out); return 3; }
  fprintf(f, "{\"variant\":\"%s\",\"start\":%lu,\"next\":%lu,\"property\":\"%s\",\"runs\":%lu,\"wall\":%.3f,\"violations\":%lu,\"class\":\"%s\",\"errors\":%lu,\"first_error\":\"%s\",\"nondeterministic\":%lu,\"run_twice\":%lu,\"expected_exits\":%lu,", work_variant, (unsigned long)start, (unsigned long)iend, prop, (unsigned long)runs, now()-t0, (unsigned long)nviol, vcls, (unsigned long)nerr, firsterr, (unsigned long)nondet, (unsigned long)doubled, (unsigned long)nexit);
  fprintf(f, "\"steps\":%lu,\"max_steps\":%lu,\"sim_ns\":%lu,\"switches\":%lu,\"threads\":%lu,\"runs_reaching_fair_phase\":%lu,\"distinct_interleavings\":%lu,\"distinct_nontrivial\":%lu,\"communication_edges\":%lu,\"xorhash\":\"%lx\",", (unsigned long)steps, (unsigned long)maxsteps, (unsigned long)simns, (unsigned long)S.nsw, (unsigned long)threads, (unsigned long)fairruns, (unsigned long)nseen, (unsigned long)nontriv, (unsigned long)edges, (unsigned long)hx);
  fprintf(f, "\"edgemap\":\""); for (int k=0; k<1024; k++) fprintf(f, "%016lx", (unsigned long)ed[k]); fprintf(f, "\",");
  fprintf(f, "\"faults\":{\"store_delay\":%lu,\"stall\":%lu,\"weak_cas_failure\":%lu,\"eintr\":%lu,\"spurious_wakeup\":%lu,\"allocation_failure\":%lu,\"thread_creation_failure\":%lu,\"clock_jump\":%lu,\"frozen_worker\":%lu},", (unsigned long)S.fired[D_DELAY], (unsigned long)S.stalls, (unsigned long)S.fired[D_CASFAIL], (unsigned long)S.fired[D_EINTR], (unsigned long)S.fired[D_SPUR], (unsigned long)S.fired[D_ALLOC], (unsigned long)S.fired[D_THR], (unsigned long)S.fired[D_CLOCK], (unsigned long)S.freezes);
  fprintf(f, "\"known_seen\":["); for (int k=0; k<nknown; k++) fprintf(f, "%s%lu", k ? "," : "", (unsigned long)kseen[k]); fprintf(f, "],");
  fprintf(f, "\"probes\":{");
#define PB(x) fprintf(f, "\"" #x "\":%lu,", (unsigned long)S.x);
  PB(tasks) PB(t0) PB(stolen) PB(dropped) PB(drops_stolen) PB(frames) PB(togethers) PB(nested) PB(runs) PB(runexs) PB(sleeps) PB(resumes) PB(barriers) PB(sessions) PB(meets) PB(heads) PB(full) PB(exits) PB(contended) PB(drains)
  fprintf(f, "\"maxlive\":%lu},\"strategies\":{", (unsigned long)S.maxlive);
  for (int k=0; k<6; k++) fprintf(f, "%s\"%s\":%lu", k ? "," : "", sn[k], (unsigned long)strat[k]);
  fprintf(f, "},\"samples\":[%s]}\n", samples);
  if (out) fclose(f);
  if (hashes) { f = fopen(hashes, "wb"); if (f) { fwrite(nt, 8, ntn, f); fclose(f); } }
  (void)props;
  return 0;
}

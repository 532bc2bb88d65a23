/* The simulated machine seen through hwloc (builds with LACE_USE_HWLOC only): topology from C.topo, faults from C.hwfail. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include "sim.h"
#include "hwloc/hwloc.h"
extern void *sim_malloc(size_t n);
#define MAXC 32
#define BMAX 20000
struct hwloc_bitmap_s { u64 m; int live; };
struct hwloc_topology { int live, loaded; };
static struct hwloc_bitmap_s bm[BMAX]; static int nbm, bm_live;
static struct hwloc_topology tp[2000]; static int ntp, tp_live;
static struct { int npus, ncores, nnodes; u64 cmask[MAXC]; int cnode[MAXC]; u64 nmask[8]; int punode[64], pucore[64]; } M;
static struct hwloc_obj core[MAXC], pu[64], node[8]; static struct hwloc_bitmap_s cs[MAXC], ns[MAXC], pcs[64], pns[64], ncs[8], nns[8], mcs, mns; static struct hwloc_obj root; static struct hwloc_obj *kids[MAXC], *pkids[64];
static struct { int calls, ok; u64 mask; int mcalls; } th[MAXT];
static u64 z; static int rn(int n) { z = mixh(z, 17); return (int)((z>>33) % n); }
static void machine(void)
{
  static int have; static int of; if (have && of == C.topo) return; have = 1; of = C.topo; memset(&M, 0, sizeof M); z = (u64)C.topo*7919 + 3;
  M.nnodes = 1 + (rn(3) == 0) + (rn(5) == 0); int cpn = 1 + rn(4), smt = 1 + rn(2) + (rn(8) == 0), hyb = rn(3) == 0, style = rn(3);
  M.ncores = M.nnodes*cpn; if (M.ncores*smt > 24) smt = 2;
  int size[MAXC], next = 0;
  for (int c=0; c<M.ncores; c++) size[c] = hyb && rn(2) ? 1 : smt;
  for (int c=0; c<M.ncores; c++) M.cnode[c] = c / cpn;
  if (style == 0) { for (int c=0; c<M.ncores; c++) for (int k=0; k<size[c]; k++) M.cmask[c] |= 1ULL << next++; }
  else { for (int k=0; k<smt; k++) for (int c=0; c<M.ncores; c++) if (k < size[c]) { M.cmask[c] |= 1ULL << next; next += 1 + (style == 2 && rn(4) == 0); } }   /* style 2: some processors are offline */
  for (int c=0; c<M.ncores; c++) for (int p=0; p<64; p++) if (M.cmask[c] >> p & 1) { M.nmask[M.cnode[c]] |= 1ULL<<p; M.punode[p] = M.cnode[c]; M.pucore[p] = c; M.npus++; }
  int q = 0;
  for (int c=0; c<M.ncores; c++) { core[c].type = HWLOC_OBJ_CORE; core[c].logical_index = core[c].os_index = c; cs[c].m = M.cmask[c]; cs[c].live = ns[c].live = 2; ns[c].m = 1ULL << M.cnode[c]; core[c].cpuset = &cs[c]; core[c].nodeset = &ns[c];
    for (int p=0; p<64; p++) if (M.cmask[c] >> p & 1) { pu[q].type = HWLOC_OBJ_PU; pu[q].os_index = p; pu[q].logical_index = q; pu[q].parent = &core[c]; pcs[q].m = 1ULL<<p; pns[q].m = 1ULL << M.cnode[c]; pcs[q].live = pns[q].live = 2; pu[q].cpuset = &pcs[q]; pu[q].nodeset = &pns[q]; q++; } }
  for (int n=0; n<M.nnodes; n++) { node[n].type = HWLOC_OBJ_NUMANODE; node[n].logical_index = node[n].os_index = n; ncs[n].m = M.nmask[n]; nns[n].m = 1ULL<<n; ncs[n].live = nns[n].live = 2; node[n].cpuset = &ncs[n]; node[n].nodeset = &nns[n]; }
  memset(&root, 0, sizeof root); mcs.m = mns.m = 0; mcs.live = mns.live = 2; root.cpuset = &mcs; root.nodeset = &mns; root.arity = M.ncores; root.children = kids; root.memory_arity = M.nnodes; root.memory_first_child = &node[0]; q = 0;
  for (int c=0; c<M.ncores; c++) { mcs.m |= M.cmask[c]; kids[c] = &core[c]; core[c].parent = &root; core[c].depth = 1; core[c].arity = __builtin_popcountll(M.cmask[c]); core[c].children = &pkids[q]; core[c].next_sibling = core[c].next_cousin = c+1 < M.ncores ? &core[c+1] : 0; core[c].first_child = &pu[q];
    for (unsigned k=0; k<core[c].arity; k++, q++) { pkids[q] = &pu[q]; pu[q].depth = 2; pu[q].arity = 0; pu[q].next_sibling = k+1 < core[c].arity ? &pu[q+1] : 0; pu[q].next_cousin = q+1 < M.npus ? &pu[q+1] : 0; } }
  root.first_child = &core[0]; for (int n=0; n<M.nnodes; n++) { mns.m |= 1ULL<<n; node[n].parent = &root; node[n].depth = HWLOC_TYPE_DEPTH_NUMANODE; node[n].next_sibling = node[n].next_cousin = n+1 < M.nnodes ? &node[n+1] : 0; }
  for (int c=0; c<M.ncores; c++) { core[c].complete_cpuset = core[c].cpuset; core[c].complete_nodeset = core[c].nodeset; } for (int p=0; p<M.npus; p++) { pu[p].complete_cpuset = pu[p].cpuset; pu[p].complete_nodeset = pu[p].nodeset; } for (int n=0; n<M.nnodes; n++) { node[n].complete_cpuset = node[n].cpuset; node[n].complete_nodeset = node[n].nodeset; } root.complete_cpuset = root.cpuset; root.complete_nodeset = root.nodeset;
}
int hw_npus(void) { machine(); return M.npus; }
static void tuse(hwloc_topology_t t, int loaded) { sim_yield_point(); if (!t || t < tp || t >= tp+2000 || !t->live) h_fail("hwloc", "use of a topology that does not exist"); if (loaded && !t->loaded) h_fail("hwloc", "use of a topology that was not loaded"); }
static hwloc_bitmap_t bnew(u64 m) { sim_yield_point(); if (nbm == BMAX) h_fail("leak", "%d hwloc bitmaps allocated", nbm); bm[nbm].m = m; bm[nbm].live = 1; bm_live++; return &bm[nbm++]; }
static u64 val(hwloc_const_bitmap_t b) { if (!b || !b->live) h_fail("hwloc", "use of a bitmap that was freed"); return b->m; }
static u64 *mut(hwloc_bitmap_t b) { val(b); if (b->live == 2) h_fail("hwloc", "the topology's own bitmap is changed"); return &b->m; }
int hwloc_topology_init(hwloc_topology_t *t) { sim_yield_point(); machine(); if (ntp == 2000) h_fail("leak", "2000 topologies"); tp[ntp].live = 1; tp_live++; *t = &tp[ntp++]; return 0; }
int hwloc_topology_load(hwloc_topology_t t) { tuse(t, 0); t->loaded = 1; return 0; }
void hwloc_topology_destroy(hwloc_topology_t t) { tuse(t, 0); t->live = 0; tp_live--; }
int hwloc_get_nbobjs_by_type(hwloc_topology_t t, hwloc_obj_type_t y) { tuse(t, 1); return y == HWLOC_OBJ_CORE ? M.ncores : y == HWLOC_OBJ_PU ? M.npus : y == HWLOC_OBJ_NUMANODE ? M.nnodes : y == HWLOC_OBJ_MACHINE; }
hwloc_obj_t hwloc_get_obj_by_type(hwloc_topology_t t, hwloc_obj_type_t y, unsigned i) { int n = hwloc_get_nbobjs_by_type(t, y); if ((int)i >= n || (int)i < 0) return 0; return y == HWLOC_OBJ_CORE ? &core[i] : y == HWLOC_OBJ_PU ? &pu[i] : y == HWLOC_OBJ_NUMANODE ? &node[i] : y == HWLOC_OBJ_MACHINE ? &root : 0; }
hwloc_bitmap_t hwloc_bitmap_alloc(void) { return bnew(0); }
hwloc_bitmap_t hwloc_bitmap_dup(hwloc_const_bitmap_t b) { return bnew(val(b)); }
void hwloc_bitmap_free(hwloc_bitmap_t b) { if (!b) return; val(b); if (b->live == 2) h_fail("bad-free", "free of the topology's own bitmap"); b->live = 0; bm_live--; }
int hwloc_bitmap_next(hwloc_const_bitmap_t b, int p) { u64 m = val(b); for (int k=p+1; k<64; k++) if (m >> k & 1) return k; return -1; }
int hwloc_bitmap_first(hwloc_const_bitmap_t b) { return hwloc_bitmap_next(b, -1); }
int hwloc_bitmap_weight(hwloc_const_bitmap_t b) { return __builtin_popcountll(val(b)); }
void hwloc_bitmap_only(hwloc_bitmap_t b, unsigned i) { *mut(b) = i < 64 ? 1ULL<<i : 0; }
void hwloc_bitmap_singlify(hwloc_bitmap_t b) { u64 *m = mut(b); *m &= -*m; }
int hwloc_bitmap_isset(hwloc_const_bitmap_t b, unsigned i) { return i < 64 && (val(b) >> i & 1); }
void hwloc_bitmap_set(hwloc_bitmap_t b, unsigned i) { if (i < 64) *mut(b) |= 1ULL<<i; }
void hwloc_bitmap_zero(hwloc_bitmap_t b) { *mut(b) = 0; }
int hwloc_bitmap_isincluded(hwloc_const_bitmap_t a, hwloc_const_bitmap_t b) { return !(val(a) & ~val(b)); }
int hwloc_bitmap_iszero(hwloc_const_bitmap_t b) { return !val(b); }
int hwloc_bitmap_list_asprintf(char **s, hwloc_const_bitmap_t b) { char *p = sim_malloc(24); *s = p; if (!p) return -1; return sprintf(p, "%#lx", (unsigned long)val(b)); }
static int failing(int bit) { return C.hwfail >> bit & 1 && C.hwfail >> (8 + sim_self()%8) & 1; }
static int bind_thread(hwloc_topology_t t, int s, hwloc_const_bitmap_t b, int fl)
{
  tuse(t, 1); u64 m = val(b); th[s].calls++;
  u64 all = 0; for (int c=0; c<M.ncores; c++) all |= M.cmask[c];
  if (!m || m & ~all) h_fail("pin", "thread %d is bound to %#lx, processors are %#lx", s, (unsigned long)m, (unsigned long)all);
  if (!(fl & HWLOC_CPUBIND_THREAD)) h_fail("pin", "the whole process is bound instead of one thread");
  if (failing(0)) { R->fired[D_ALLOC]++; errno = ENOSYS; return -1; }
  th[s].ok++; th[s].mask = m; return 0;
}
int hwloc_set_cpubind(hwloc_topology_t t, hwloc_const_bitmap_t b, int fl) { return bind_thread(t, sim_self(), b, fl); }
int hwloc_get_cpubind(hwloc_topology_t t, hwloc_bitmap_t b, int fl) { (void)fl; tuse(t, 1); u64 all = 0; for (int c=0; c<M.ncores; c++) all |= M.cmask[c]; *mut(b) = th[sim_self()].ok ? th[sim_self()].mask : all; return 0; }
void hwloc_cpuset_to_nodeset(hwloc_topology_t t, hwloc_const_bitmap_t b, hwloc_nodeset_t n) { tuse(t, 1); u64 m = val(b), r = 0; for (int p=0; p<64; p++) if (m >> p & 1) r |= 1ULL << M.punode[p]; *mut(n) = r; }
static u64 bound_nodes; 
int hwloc_set_area_membind(hwloc_topology_t t, const void *a, size_t n, hwloc_const_bitmap_t b, hwloc_membind_policy_t pol, int fl)
{
  tuse(t, 1); int s = sim_self(); u64 m = val(b); (void)fl; th[s].mcalls++;
  if (pol != HWLOC_MEMBIND_BIND) h_fail("pin", "worker memory is bound with policy %d", pol);
  if (!sim_owns_block(s, a, n)) h_fail("pin", "thread %d binds %zu bytes at %p, which is not the memory it allocated", s, n, a);
  if (th[s].ok) { u64 want = 0; for (int p=0; p<64; p++) if (th[s].mask >> p & 1) want |= 1ULL << M.punode[p]; if (m != want) h_fail("pin", "memory of thread %d on node set %#lx, the thread runs on node set %#lx", s, (unsigned long)m, (unsigned long)want); }
  bound_nodes = m;
  if (failing(1)) { R->fired[D_ALLOC]++; errno = EXDEV; return -1; }
  return 0;
}
int hwloc_set_area_membind_nodeset(hwloc_topology_t t, const void *a, size_t n, hwloc_const_bitmap_t b, hwloc_membind_policy_t pol, int fl) { return hwloc_set_area_membind(t, a, n, b, pol, fl); }
int hwloc_get_area_membind_nodeset(hwloc_topology_t t, const void *a, size_t n, hwloc_bitmap_t b, hwloc_membind_policy_t *pol, int fl) { (void)a; (void)n; (void)fl; tuse(t, 1); if (failing(2)) { *pol = HWLOC_MEMBIND_DEFAULT; *mut(b) = 3; R->fired[D_ALLOC]++; return -1; } *pol = HWLOC_MEMBIND_BIND; *mut(b) = failing(3) ? 7 : bound_nodes; return 0; }
int hwloc_get_area_memlocation(hwloc_topology_t t, const void *a, size_t n, hwloc_bitmap_t b, int fl) { (void)a; (void)n; (void)fl; tuse(t, 1); *mut(b) = bound_nodes; return 0; }

unsigned hwloc_get_api_version(void) { return 0x00020900; }
int hwloc_topology_set_flags(hwloc_topology_t t, unsigned long f) { (void)f; tuse(t, 0); return 0; }
int hwloc_topology_get_depth(hwloc_topology_t t) { tuse(t, 1); return 3; }
int hwloc_get_type_depth(hwloc_topology_t t, hwloc_obj_type_t y) { tuse(t, 1); return y == HWLOC_OBJ_MACHINE ? 0 : y == HWLOC_OBJ_CORE ? 1 : y == HWLOC_OBJ_PU ? 2 : y == HWLOC_OBJ_NUMANODE ? HWLOC_TYPE_DEPTH_NUMANODE : HWLOC_TYPE_DEPTH_UNKNOWN; }
hwloc_obj_type_t hwloc_get_depth_type(hwloc_topology_t t, int d) { tuse(t, 1); return d == 0 ? HWLOC_OBJ_MACHINE : d == 1 ? HWLOC_OBJ_CORE : d == 2 ? HWLOC_OBJ_PU : d == HWLOC_TYPE_DEPTH_NUMANODE ? HWLOC_OBJ_NUMANODE : (hwloc_obj_type_t)-1; }
static int bad_depth(int d) { return d != HWLOC_TYPE_DEPTH_NUMANODE && (d < 0 || d > 2); }
unsigned hwloc_get_nbobjs_by_depth(hwloc_topology_t t, int d) { return bad_depth(d) ? 0 : hwloc_get_nbobjs_by_type(t, hwloc_get_depth_type(t, d)); }
hwloc_obj_t hwloc_get_obj_by_depth(hwloc_topology_t t, int d, unsigned i) { return bad_depth(d) ? 0 : hwloc_get_obj_by_type(t, hwloc_get_depth_type(t, d), i); }
hwloc_obj_t hwloc_get_root_obj(hwloc_topology_t t) { tuse(t, 1); return &root; }
hwloc_obj_t hwloc_get_next_obj_by_type(hwloc_topology_t t, hwloc_obj_type_t y, hwloc_obj_t o) { return hwloc_get_obj_by_type(t, y, o ? o->logical_index + 1 : 0); }
hwloc_obj_t hwloc_get_pu_obj_by_os_index(hwloc_topology_t t, unsigned i) { tuse(t, 1); for (int k=0; k<M.npus; k++) if (pu[k].os_index == i) return &pu[k]; return 0; }
hwloc_obj_t hwloc_get_numanode_obj_by_os_index(hwloc_topology_t t, unsigned i) { tuse(t, 1); return (int)i < M.nnodes ? &node[i] : 0; }
hwloc_obj_t hwloc_get_ancestor_obj_by_type(hwloc_topology_t t, hwloc_obj_type_t y, hwloc_obj_t o) { tuse(t, 1); for (o = o->parent; o && o->type != y; o = o->parent); return o; }
hwloc_obj_t hwloc_get_obj_inside_cpuset_by_type(hwloc_topology_t t, hwloc_const_bitmap_t b, hwloc_obj_type_t y, unsigned i) { u64 m = val(b); for (unsigned k=0; ; k++) { hwloc_obj_t o = hwloc_get_obj_by_type(t, y, k); if (!o) return 0; if (!(o->cpuset->m & ~m) && i-- == 0) return o; } }
int hwloc_get_nbobjs_inside_cpuset_by_type(hwloc_topology_t t, hwloc_const_bitmap_t b, hwloc_obj_type_t y) { int n = 0; while (hwloc_get_obj_inside_cpuset_by_type(t, b, y, n)) n++; return n; }
hwloc_const_bitmap_t hwloc_topology_get_topology_cpuset(hwloc_topology_t t) { tuse(t, 1); return &mcs; }
hwloc_const_bitmap_t hwloc_topology_get_allowed_cpuset(hwloc_topology_t t) { tuse(t, 1); return &mcs; }
hwloc_const_bitmap_t hwloc_topology_get_complete_cpuset(hwloc_topology_t t) { tuse(t, 1); return &mcs; }
hwloc_const_bitmap_t hwloc_topology_get_topology_nodeset(hwloc_topology_t t) { tuse(t, 1); return &mns; }
hwloc_bitmap_t hwloc_bitmap_alloc_full(void) { return bnew(~0ULL); }
int hwloc_bitmap_copy(hwloc_bitmap_t a, hwloc_const_bitmap_t b) { u64 m = val(b); *mut(a) = m; return 0; }
int hwloc_bitmap_last(hwloc_const_bitmap_t b) { u64 m = val(b); return m ? 63 - __builtin_clzll(m) : -1; }
void hwloc_bitmap_fill(hwloc_bitmap_t b) { *mut(b) = ~0ULL; }
int hwloc_bitmap_set_range(hwloc_bitmap_t b, unsigned i, int j) { for (; i < 64 && (j == -1 || (int)i <= j); i++) *mut(b) |= 1ULL<<i; return 0; }
void hwloc_bitmap_clr(hwloc_bitmap_t b, unsigned i) { if (i < 64) *mut(b) &= ~(1ULL<<i); }
void hwloc_bitmap_and(hwloc_bitmap_t r, hwloc_const_bitmap_t a, hwloc_const_bitmap_t b) { *mut(r) = val(a) & val(b); }
void hwloc_bitmap_or(hwloc_bitmap_t r, hwloc_const_bitmap_t a, hwloc_const_bitmap_t b) { *mut(r) = val(a) | val(b); }
void hwloc_bitmap_andnot(hwloc_bitmap_t r, hwloc_const_bitmap_t a, hwloc_const_bitmap_t b) { *mut(r) = val(a) & ~val(b); }
void hwloc_bitmap_xor(hwloc_bitmap_t r, hwloc_const_bitmap_t a, hwloc_const_bitmap_t b) { *mut(r) = val(a) ^ val(b); }
int hwloc_bitmap_isequal(hwloc_const_bitmap_t a, hwloc_const_bitmap_t b) { return val(a) == val(b); }
int hwloc_bitmap_intersects(hwloc_const_bitmap_t a, hwloc_const_bitmap_t b) { return (val(a) & val(b)) != 0; }
int hwloc_bitmap_isfull(hwloc_const_bitmap_t a) { return val(a) == ~0ULL; }
unsigned long hwloc_bitmap_to_ulong(hwloc_const_bitmap_t a) { return val(a); }
int hwloc_bitmap_asprintf(char **s, hwloc_const_bitmap_t b) { return hwloc_bitmap_list_asprintf(s, b); }
int hwloc_bitmap_snprintf(char *s, size_t n, hwloc_const_bitmap_t b) { return snprintf(s, n, "%#lx", (unsigned long)val(b)); }
int hwloc_bitmap_list_snprintf(char *s, size_t n, hwloc_const_bitmap_t b) { return hwloc_bitmap_snprintf(s, n, b); }
void hwloc_cpuset_from_nodeset(hwloc_topology_t t, hwloc_cpuset_t c, hwloc_const_bitmap_t b) { tuse(t, 1); u64 m = val(b), r = 0; for (int n=0; n<M.nnodes; n++) if (m >> n & 1) r |= M.nmask[n]; *mut(c) = r; }
int hwloc_set_thread_cpubind(hwloc_topology_t t, unsigned long who, hwloc_const_bitmap_t b, int fl) { if (who < 1 || who > (unsigned long)sim_nthreads()) h_fail("hwloc", "binds a thread that does not exist"); return bind_thread(t, who-1, b, fl | HWLOC_CPUBIND_THREAD); }
int hwloc_get_last_cpu_location(hwloc_topology_t t, hwloc_bitmap_t b, int fl) { (void)fl; tuse(t, 1); u64 m = th[sim_self()].ok ? th[sim_self()].mask : mcs.m; *mut(b) = m & -m; return 0; }
int hwloc_get_area_membind(hwloc_topology_t t, const void *a, size_t n, hwloc_bitmap_t b, hwloc_membind_policy_t *pol, int fl) { return hwloc_get_area_membind_nodeset(t, a, n, b, pol, fl); }

/* ---- oracles */
void hw_session_begin(void) { memset(th, 0, sizeof th); }
void hw_working(int t)        /* a worker thread starts its first task */
{
  if (!th[t].calls) h_fail("pin", "worker thread %d works before it was bound", t);
  if (th[t].ok && __builtin_popcountll(th[t].mask) != 1) h_fail("pin", "worker thread %d is bound to %#lx, not to one logical processor", t, (unsigned long)th[t].mask);
  if (!th[t].mcalls) h_fail("pin", "the memory of worker thread %d was not bound", t);
}
void hw_pu(int core)          /* LACE_WORKER_PU inside a task */
{
  int t = sim_self();
  if (th[t].ok && th[t].mask && core != M.pucore[__builtin_ctzll(th[t].mask)]) h_fail("pin", "LACE_WORKER_PU is %d, the worker is bound to core %d", core, M.pucore[__builtin_ctzll(th[t].mask)]);
}
void hw_session_end(int first, int nw)
{
  u64 used = 0; u64 cores = 0; int w = 0;
  for (int t=first; t<sim_nthreads(); t++) if (sim_role(t) == 1) {
    w++; if (!th[t].calls) h_fail("pin", "worker thread %d was never bound", t);
    if (!th[t].ok) continue;
    if (__builtin_popcountll(th[t].mask) != 1) h_fail("pin", "worker thread %d is bound to %#lx, not to one logical processor", t, (unsigned long)th[t].mask);
    if (nw <= M.npus && used & th[t].mask) h_fail("pin", "two of %d workers share logical processor %d of %d", nw, __builtin_ctzll(th[t].mask), M.npus);
    u64 c = 1ULL << M.pucore[__builtin_ctzll(th[t].mask)];
    if (nw <= M.ncores && cores & c) h_fail("pin", "two of %d workers share one of %d cores", nw, M.ncores);
    used |= th[t].mask; cores |= c;
  }
  if (bm_live) h_fail("leak", "%d hwloc bitmaps were not freed", bm_live);
  if (tp_live > 1) h_fail("leak", "%d hwloc topologies are still allocated after lace_stop", tp_live);
}

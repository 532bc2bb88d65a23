from mkseed import mk
import sys
SH='src/lace.sh'; LC='src/lace.c'; L14='src/lace14.c'
only=sys.argv[1:]
_mk=mk
def mk(id,*a,**k):
    if only and id not in only: return
    _mk(id,*a,**k)
    if 'LACE_COUNT_TASKS' in k.get('cflags',''):       # the build's lace_config.h sets the options to 0: put another one in front
        d='/verif/seeded/%s/' % id; open(d+'lace_config.h','w').write('#define LACE_PIE_TIMES 0\n#define LACE_COUNT_TASKS 1\n#define LACE_COUNT_STEALS 1\n#define LACE_COUNT_SPLITS 0\n')
        t=open(d+'demo.sh').read(); open(d+'demo.sh','w').write(t.replace('-I src','-I "$D" -I src'))
def both(a,b,n=1): return [(LC,a,b,n),(L14,a,b,n)]
def both2(*prs): return [(f,a,b,1) for f in (LC,L14) for a,b in prs]
DOG='''
#include <lace.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#include <stdatomic.h>
static atomic_int beat;
static void *dog(void *a) { int last = -1, same = 0; for (;;) { usleep(100000); int b = beat; if (b == last) { if (++same > 80) { printf("no progress for 8 s\\n"); _Exit(1); } } else same = 0; last = b; } }
static void watch(void) { pthread_t t; pthread_create(&t, 0, dog, 0); }
'''

mk('c24-completed-ge','C24','polling TASK_IS_COMPLETED while the task is stolen and still running',
   'TASK_IS_COMPLETED is true for every stolen task, also one whose thief is still running it.',
   [(SH,'memory_order_acquire) == 2)','memory_order_acquire) >= 2)',1)], DOG+"""
static atomic_int started, go;
TASK_0(int, slow) { started = 1; while (!go) ; return 4711; }
TASK_0(int, root)
{
    Task *t = __lace_dq_head;
    SPAWN(slow); LACE_MAKE_ALL_SHARED();
    while (!started) ;
    int r = TASK_IS_COMPLETED(t) != 0;
    go = 1;
    SYNC(slow);
    return r;
}
int main(void) { watch(); lace_start(2, 0); for (int k=0; k<20; k++) { started = go = 0; if (RUN(root)) { printf("a running task is reported as completed\\n"); _Exit(1); } beat++; } lace_stop(); return 0; }
""", regen=True)
mk('c18-drop-slow-head','C18','DROP of a task that lies in the shared part of the queue but was not stolen, followed by something that looks for the head of the queue (LACE_VARS, RUN or NEWFRAME inside a task)',
   'A task dropped on the slow path stays marked in the queue, so lace_get_head finds a head that is too high.',
   [(SH,'    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);\n','',1)], DOG+"""
VOID_TASK_0(nothing) { }
VOID_TASK_0(root)
{
    Task *h = __lace_dq_head;
    for (int i=0; i<4; i++) SPAWN(nothing);
    LACE_MAKE_ALL_SHARED();
    for (int i=0; i<4; i++) DROP();
    Task *g = lace_get_head(__lace_worker);
    if (g != h) { printf("the head is %ld tasks too high\\n", (long)(g-h)); _Exit(1); }
    beat++;
}
int main(void) { watch(); lace_start(1, 0); for (int k=0; k<50; k++) RUN(root); lace_stop(); return 0; }
""", regen=True)
mk('c04-drop-boundary','C04','DROP of the last shared task of the queue while a thief takes it',
   'DROP treats the last shared task as private, although a thief may be running it, so it returns while the task still runs.',
   [(SH,'if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);','if ((w->allstolen) || (w->split > __dq_head+1 && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);',1),
    (SH,'        if (likely(w->split <= __dq_head)) {\n            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);\n            return;','        if (likely(w->split <= __dq_head+1 && !w->allstolen)) {\n            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);\n            return;',1)], DOG+"""
static atomic_int running, started;
VOID_TASK_0(slow) { started = 1; running = 1; usleep(2000); running = 0; }
VOID_TASK_0(root)
{
    started = 0;
    SPAWN(slow); LACE_MAKE_ALL_SHARED();
    for (int i=0; i<1000000 && !started; i++) ;
    DROP();
    if (running) { printf("DROP returned while the task runs\\n"); _Exit(1); }
}
int main(void) { watch(); lace_start(3, 0); for (int k=0; k<200; k++) { RUN(root); beat++; } lace_stop(); return 0; }
""", regen=True)
mk('c13-leap-no-yield','C13','a NEWFRAME or TOGETHER requested by another worker while a worker waits in SYNC for a task whose thief has already entered the frame',
   'A worker that waits for a stolen task only looks for frame requests now and then through its random steals; with LACE_LEAP_RANDOM the wait is long, and when the thief has nothing to steal it never takes part.',
   [(SH,'                YIELD_NEWFRAME();\n                if ((LACE_LEAP_RANDOM) && (--attempts == 0)) { lace_steal_random(); attempts = 32; }','                if ((LACE_LEAP_RANDOM) && (--attempts == 0) && __lace_worker->frame == 0) { lace_steal_random(); attempts = 32; }',1)], DOG+"""
VOID_TASK_1(leaf, int, n) { for (volatile int i=0; i<n; i++) ; }
VOID_TASK_1(inner, int, d) { if (d == 0) { leaf_CALL(__lace_worker, __lace_dq_head, 2000); return; } SPAWN(inner, d-1); CALL(inner, d-1); SYNC(inner); }
VOID_TASK_1(fr, int, d) { if (d == 0) { NEWFRAME(inner, 2); return; } SPAWN(fr, d-1); CALL(fr, d-1); SYNC(fr); }
VOID_TASK_0(root) { NEWFRAME(fr, 3); }
int main(void) { watch(); lace_start(4, 0); for (int k=0; k<3000; k++) { RUN(root); beat++; } lace_stop(); return 0; }
""", regen=True, noise=True, timeout=200)
HW=r"""
#ifndef HWLOC_H
#define HWLOC_H
typedef void *hwloc_topology_t; typedef unsigned long *hwloc_bitmap_t, *hwloc_cpuset_t, *hwloc_nodeset_t;
typedef struct hwloc_obj { hwloc_cpuset_t cpuset; hwloc_nodeset_t nodeset; } *hwloc_obj_t;
enum { HWLOC_OBJ_CORE, HWLOC_OBJ_PU, HWLOC_OBJ_NODE };
enum { HWLOC_CPUBIND_PROCESS=1, HWLOC_CPUBIND_THREAD=2 };
enum { HWLOC_MEMBIND_BIND=2, HWLOC_MEMBIND_STRICT=4, HWLOC_MEMBIND_MIGRATE=8, HWLOC_MEMBIND_BYNODESET=32 }; typedef int hwloc_membind_policy_t;
int hwloc_topology_init(hwloc_topology_t *); int hwloc_topology_load(hwloc_topology_t); void hwloc_topology_destroy(hwloc_topology_t);
int hwloc_get_nbobjs_by_type(hwloc_topology_t, int); hwloc_obj_t hwloc_get_obj_by_type(hwloc_topology_t, int, unsigned);
hwloc_bitmap_t hwloc_bitmap_alloc(void); hwloc_bitmap_t hwloc_bitmap_dup(hwloc_bitmap_t); void hwloc_bitmap_free(hwloc_bitmap_t);
int hwloc_bitmap_next(hwloc_bitmap_t, int); int hwloc_bitmap_weight(hwloc_bitmap_t); void hwloc_bitmap_only(hwloc_bitmap_t, unsigned); int hwloc_bitmap_isincluded(hwloc_bitmap_t, hwloc_bitmap_t); int hwloc_bitmap_list_asprintf(char **, hwloc_bitmap_t);
int hwloc_set_cpubind(hwloc_topology_t, hwloc_bitmap_t, int); int hwloc_get_cpubind(hwloc_topology_t, hwloc_bitmap_t, int); void hwloc_cpuset_to_nodeset(hwloc_topology_t, hwloc_bitmap_t, hwloc_bitmap_t);
int hwloc_set_area_membind(hwloc_topology_t, const void *, size_t, hwloc_bitmap_t, int, int); int hwloc_set_area_membind_nodeset(hwloc_topology_t, const void *, size_t, hwloc_bitmap_t, int, int);
int hwloc_get_area_membind_nodeset(hwloc_topology_t, const void *, size_t, hwloc_bitmap_t, hwloc_membind_policy_t *, int);
#endif
"""
HWC=r"""
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <string.h>
#include <stdatomic.h>
#include <lace.h>
#include "hwloc.h"
/* a machine with 2 nodes of 2 cores with 2 processors each */
static unsigned long cs[4], ns[4]; static struct hwloc_obj core[4]; static atomic_int n; static int flags[64], pol[64]; static unsigned long cpu[64], mem[64]; static size_t size[64]; static __thread int me = -1;
int hwloc_topology_init(hwloc_topology_t *t) { *t = 0; for (int c=0; c<4; c++) { cs[c] = 0x11ul << c; ns[c] = 1ul << c/2; core[c].cpuset = &cs[c]; core[c].nodeset = &ns[c]; } return 0; }
int hwloc_topology_load(hwloc_topology_t t) { return 0; } void hwloc_topology_destroy(hwloc_topology_t t) { }
int hwloc_get_nbobjs_by_type(hwloc_topology_t t, int y) { return y == HWLOC_OBJ_CORE ? 4 : y == HWLOC_OBJ_PU ? 8 : 2; }
hwloc_obj_t hwloc_get_obj_by_type(hwloc_topology_t t, int y, unsigned i) { return y == HWLOC_OBJ_CORE && i < 4 ? &core[i] : 0; }
hwloc_bitmap_t hwloc_bitmap_alloc(void) { return calloc(1, 8); } hwloc_bitmap_t hwloc_bitmap_dup(hwloc_bitmap_t b) { hwloc_bitmap_t r = malloc(8); *r = *b; return r; } void hwloc_bitmap_free(hwloc_bitmap_t b) { free(b); }
int hwloc_bitmap_next(hwloc_bitmap_t b, int p) { for (p++; p<64; p++) if (*b >> p & 1) return p; return -1; } int hwloc_bitmap_weight(hwloc_bitmap_t b) { return __builtin_popcountl(*b); }
void hwloc_bitmap_only(hwloc_bitmap_t b, unsigned i) { *b = 1ul << i; } int hwloc_bitmap_isincluded(hwloc_bitmap_t a, hwloc_bitmap_t b) { return !(*a & ~*b); } int hwloc_bitmap_list_asprintf(char **s, hwloc_bitmap_t b) { return asprintf(s, "%lx", *b); }
int hwloc_set_cpubind(hwloc_topology_t t, hwloc_bitmap_t b, int fl) { if (me < 0) me = n++; flags[me] = fl; cpu[me] = *b; return 0; }
int hwloc_get_cpubind(hwloc_topology_t t, hwloc_bitmap_t b, int fl) { *b = cpu[me]; return 0; } void hwloc_cpuset_to_nodeset(hwloc_topology_t t, hwloc_bitmap_t c, hwloc_bitmap_t b) { *b = (*c & 0x33 ? 1 : 0) | (*c & 0xcc ? 2 : 0); }
int hwloc_set_area_membind(hwloc_topology_t t, const void *a, size_t z, hwloc_bitmap_t b, int p, int f) { mem[me] = *b; size[me] = z; pol[me] = p; return 0; } int hwloc_set_area_membind_nodeset(hwloc_topology_t t, const void *a, size_t z, hwloc_bitmap_t b, int p, int f) { return hwloc_set_area_membind(t, a, z, b, p, f); }
int hwloc_get_area_membind_nodeset(hwloc_topology_t t, const void *a, size_t z, hwloc_bitmap_t b, hwloc_membind_policy_t *p, int f) { *b = mem[me]; *p = HWLOC_MEMBIND_BIND; return 0; }
VOID_TASK_0(nothing) { lace_barrier(); }
int main(void)
{
    for (int w=1; w<=8; w++) {
        n = 0; lace_start(w, 100); TOGETHER(nothing); lace_stop();
        unsigned long used = 0;
        for (int i=0; i<n; i++) {
            if (flags[i] != HWLOC_CPUBIND_THREAD) { printf("flags %d for binding a thread\\n", flags[i]); return 1; }
            if (__builtin_popcountl(cpu[i]) != 1 || used & cpu[i] || cpu[i] > 128) { printf("%d workers: bound to %lx, in use %lx\\n", w, cpu[i], used); return 1; }
            used |= cpu[i];
            unsigned long want = cpu[i] & 0x33 ? 1 : 2;
            if (mem[i] != want || size[i] < 6400) { printf("memory on %lx, thread on %lx\\n", mem[i], want); return 1; }
        }
        if (n != w) { printf("%d of %d threads bound\\n", n, w); return 1; }
    }
    return 0;
}
"""
def hw(id, *a, **k):
    if only and id not in only: return
    _mk(id, *a, HWC, cflags='-O2 -DLACE_USE_HWLOC=1 -D_GNU_SOURCE -I "$D"', **k)
    open('/verif/seeded/%s/hwloc.h' % id, 'w').write('#include <stddef.h>\n' + HW)
hw('c23-bind-process','C23','a build with LACE_USE_HWLOC on a system where binding a process and binding a thread differ',
   'Each worker binds the whole process instead of its own thread, so the last worker decides where all of them run.',
   both('hwloc_set_cpubind(topo, bmp, HWLOC_CPUBIND_THREAD)','hwloc_set_cpubind(topo, bmp, HWLOC_CPUBIND_PROCESS)'))
mk('c20-post-early','C20','RUN whose caller returns at once when it is woken',
   'The worker that ran an external task wakes the caller before it marks the task as completed, so it writes into the stack frame of a function that has returned.',
   both("""        atomic_store_explicit(&stolen_task->task->thief, THIEF_COMPLETED, memory_order_relaxed);
        // atomic_thread_fence(memory_order_relaxed);
        sem_post(&stolen_task->sem);
""","""        sem_post(&stolen_task->sem);
        // atomic_thread_fence(memory_order_relaxed);
        atomic_store_explicit(&stolen_task->task->thief, THIEF_COMPLETED, memory_order_relaxed);
"""), DOG+"""
VOID_TASK_0(nothing) { }
static __attribute__((noinline)) void look(int k)
{
    volatile unsigned long a[200];
    for (int i=0; i<200; i++) a[i] = 0x5555555555555555;
    for (volatile int i=0; i<300; i++) ;
    for (int i=0; i<200; i++) if (a[i] != 0x5555555555555555) { printf("round %d: local variable changed to %lx\\n", k, a[i]); _Exit(1); }
}
int main(void)
{
    watch(); lace_start(3, 0); lace_resume();
    for (int k=0; k<60000; k++) { RUN(nothing); look(k); beat++; }
    lace_suspend(); lace_stop(); return 0;
}
""", noise=True, timeout=250)
mk('c25-no-cap','C25','a program that runs with an unlimited stack (ulimit -s unlimited)',
   'The default stack size of a worker is no longer limited to 16 MB; with an unlimited stack the size is refused and lace_start ends up with other stacks or no threads at all.',
   both('	if (size > 16*1024*1024) size = 16*1024*1024;\n#else','#else'), """
#define _GNU_SOURCE
#include <lace.h>
#include <stdio.h>
#include <pthread.h>
#include <sys/resource.h>
static size_t size;
VOID_TASK_0(look) { pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstacksize(&a, &size); pthread_attr_destroy(&a); }
int main(void)
{
    struct rlimit l; getrlimit(RLIMIT_STACK, &l); l.rlim_cur = 64<<20; if (setrlimit(RLIMIT_STACK, &l) != 0) return 0;
    lace_start(1, 0); RUN(look); lace_stop();
    printf("stack of %zu bytes\\n", size);
    return size > (20<<20) || size < (10<<20);
}
""")
mk('c19-reset-one','C19','lace_count_reset followed by a report, with more than one worker',
   'lace_count_reset leaves the counters of the last worker as they are.',
   both("""    for (i=0;i<n_workers;i++) {
        for (j=0;j<CTR_MAX;j++) {
            workers_p[i]->ctr[j] = 0;""","""    for (i=0;i+1<n_workers || i==0;i++) {
        for (j=0;j<CTR_MAX;j++) {
            workers_p[i]->ctr[j] = 0;"""), """
#include <lace.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
TASK_1(int, fib, int, n) { if (n < 2) return n; SPAWN(fib, n-1); int a = CALL(fib, n-2); return a + SYNC(fib); }
VOID_TASK_0(all) { SPAWN(fib, 2); SYNC(fib); }
static long sum(void)
{
    char *b = 0; size_t n = 0; FILE *f = open_memstream(&b, &n); lace_count_report_file(f); fclose(f);
    char *p = strstr(b, "Tasks (sum): "); long r = p ? atol(p+13) : -1; free(b); return r;
}
int main(void)
{
    lace_start(3, 0); TOGETHER(all); lace_suspend();
    long a = sum(); lace_count_reset(); long b = sum();
    lace_resume(); lace_stop();
    if (a < 6 || b != 0) { printf("%ld tasks before and %ld after the reset\\n", a, b); return 1; }
    return 0;
}
""", cflags='-O2 -DLACE_COUNT_TASKS=1')

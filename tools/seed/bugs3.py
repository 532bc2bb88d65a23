from mkseed import mk
import sys
SH='src/lace.sh'; LC='src/lace.c'; L14='src/lace14.c'
only=sys.argv[1:]
_mk=mk
def mk(id,*a,**k):
    if only and id not in only: return
    _mk(id,*a,**k)
    if 'LACE_COUNT_TASKS' in k.get('cflags',''):       # the build's lace_config.h sets the options to 0: put another one in front
        d='/verif/seeded/%s/' % id; open(d+'lace_config.h','w').write('#define LACE_PIE_TIMES 0\n#define LACE_COUNT_TASKS 1\n#define LACE_COUNT_STEALS 1\n#define LACE_COUNT_SPLITS 0\n')
        t=open(d+'demo.sh').read(); open(d+'demo.sh','w').write(t.replace('-I src','-I "$D" -I src'))
def both(a,b,n=1): return [(LC,a,b,n),(L14,a,b,n)]
def both2(*prs): return [(f,a,b,1) for f in (LC,L14) for a,b in prs]
DOG='''
#include <lace.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#include <stdatomic.h>
static atomic_int beat;
static void *dog(void *a) { int last = -1, same = 0; for (;;) { usleep(100000); int b = beat; if (b == last) { if (++same > 80) { printf("no progress for 8 s\\n"); _Exit(1); } } else same = 0; last = b; } }
static void watch(void) { pthread_t t; pthread_create(&t, 0, dog, 0); }
'''
mk('c07-tail-early','C07','a thief that steals from a worker in the moment between the worker reading its tail and closing its queue for a NEWFRAME or TOGETHER',
   'When a worker enters a frame it remembers the tail of its queue before it stops thieves, so a task stolen in between is offered (and runs) again after the frame.',
   both2(('''        old.ts.tail = wt->ts.ts.tail;

''','\n'),('''        old_as = wt->allstolen;
''','''        old_as = wt->allstolen;
        old.ts.tail = wt->ts.ts.tail;
''')), DOG+'''
#define N 12
static atomic_int ran[N*64];
VOID_TASK_1(leaf, int, k) { ran[k]++; }
VOID_TASK_0(nothing) { }
VOID_TASK_1(node, int, b)
{
    for (int i=0; i<N; i++) SPAWN(leaf, b*N+i);
    LACE_MAKE_ALL_SHARED();
    NEWFRAME(nothing);
    for (int i=0; i<N; i++) SYNC(leaf);
}
int main(void)
{
    watch(); lace_start(8, 0);
    for (int k=0; k<60000; k++) {
        RUN(node, 0); beat++;
        for (int i=0; i<N; i++) { int r = ran[i]; ran[i] = 0; if (r != 1) { printf("round %d: task %d ran %d times\\n", k, i, r); _Exit(1); } }
    }
    lace_stop(); return 0;
}
''', noise=True, timeout=280)
mk('c08-head-split','C08','TOGETHER or NEWFRAME called in a task that has spawned, not yet synced tasks beyond the shared part of its queue',
   'TOGETHER from inside a task starts its copy at the split point of the queue instead of the head: tasks the copy spawns overwrite private tasks that are not yet synced.',
   both('lace_wrap_together_CALL(self, lace_get_head(self), t);','lace_wrap_together_CALL(self, self->split, t);'), DOG+'''
static int ran[8];
TASK_1(int, leaf, int, k) { ran[k]++; return k*3+1; }
TASK_1(int, other, int, k) { return k; }
VOID_TASK_0(copy) { SPAWN(other, 1000); SPAWN(other, 2000); SYNC(other); SYNC(other); }
VOID_TASK_0(root)
{
    for (int i=0; i<8; i++) SPAWN(leaf, i);
    TOGETHER(copy);
    for (int i=7; i>=0; i--) { int r = SYNC(leaf); if (r != i*3+1) { printf("task %d has result %d\\n", i, r); _Exit(1); } }
}
int main(void) { watch(); lace_start(2, 0); for (int k=0; k<50; k++) { RUN(root); beat++; } lace_stop(); return 0; }
''')
mk('c09-retry-twice','C09','three or more workers that request a NEWFRAME at the same time',
   'A worker that lost the race for the frame slot retries only once more; the third requester runs its frame although another one is being set up.',
   both2(('''        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;
        lace_yield(__lace_worker, __lace_dq_head);
''','''        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;
        lace_yield(__lace_worker, __lace_dq_head);
        if (++tries == 2) break;
'''),('''    s->d.args.arg_1 = &done;

''','''    s->d.args.arg_1 = &done;
    int tries = 0;

''')), DOG+'''
static atomic_int n;
VOID_TASK_0(nothing) { n++; }
VOID_TASK_1(node, int, d) { if (d == 0) { NEWFRAME(nothing); return; } SPAWN(node, d-1); CALL(node, d-1); SYNC(node); }
int main(void)
{
    watch(); lace_start(6, 0);
    for (int k=0; k<3000; k++) { n = 0; RUN(node, 4); if (n != 16) { printf("%d of 16 frames\\n", n); _Exit(1); } beat++; }
    lace_stop(); return 0;
}
''', noise=True, timeout=250)
mk('c10-reset-late','C10','barriers back to back where a waiting worker leaves the first and enters the next before the last arrival of the first has reset the counter',
   'The last worker to arrive releases the others before it resets the arrival counter, so an early arrival at the next barrier is forgotten and everybody waits for ever.',
   both2(('''        atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);
        atomic_store_explicit(&lace_bar.leaving''','''        atomic_store_explicit(&lace_bar.leaving'''),('''        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);
''','''        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);
        atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);
''')), DOG+'''
VOID_TASK_0(many) { for (int k=0; k<2000; k++) { lace_barrier(); if (LACE_WORKER_ID == 0) beat++; } }
int main(void) { watch(); lace_start(4, 0); for (int k=0; k<40; k++) TOGETHER(many); lace_stop(); return 0; }
''', noise=True, timeout=250)
mk('c13-leap-once','C13','a worker waiting in SYNC whose thief has nothing to steal, while a third worker offers work only after a while and waits for it to be taken',
   'A worker that waits in SYNC tries a random victim once and then only its thief, so work elsewhere is no longer picked up and tasks that wait for each other never end.',
   [(SH,'{ lace_steal_random(); attempts = 32; }','lace_steal_random();',1)], DOG+'''
static atomic_int xstarted, zstarted, ystarted;
VOID_TASK_0(y) { ystarted = 1; }
VOID_TASK_0(z) { zstarted = 1; while (!xstarted) ; usleep(200000); SPAWN(y); LACE_MAKE_ALL_SHARED(); while (!ystarted) ; SYNC(y); }
VOID_TASK_0(x) { xstarted = 1; while (!ystarted) ; }
VOID_TASK_0(root)
{
    SPAWN(z); SPAWN(x); LACE_MAKE_ALL_SHARED();
    while (!xstarted || !zstarted) ;
    SYNC(x); SYNC(z);
}
int main(void) { watch(); lace_start(3, 0); for (int k=0; k<5; k++) { xstarted = zstarted = ystarted = 0; RUN(root); beat++; } lace_stop(); return 0; }
''', regen=True)
mk('c14-mask-victim','C14','four workers or more of which one shares tasks and looks for others to take them by STEAL_RANDOM',
   'Random numbers are reduced with a bit mask instead of the modulus; unless the number of other workers is a power of two, some victims are never chosen by STEAL_RANDOM.',
   both('    return next % max;','    return next & (max-1);'), DOG+'''
static atomic_int taken, owner = -1;
VOID_TASK_0(t) { taken++; }
VOID_TASK_0(copy)
{
    int w = LACE_WORKER_ID, n = lace_workers();
    for (int k=0; k<n; k++) {
        lace_barrier();
        if (w == 0) { taken = 0; owner = k; }
        lace_barrier();
        if (w == k) { SPAWN(t); LACE_MAKE_ALL_SHARED(); while (taken == 0) ; SYNC(t); }
        else if (w == (k+2)%n) { while (taken == 0) STEAL_RANDOM(); }
        lace_barrier();
        if (w == 0) beat++;
    }
}
int main(void) { watch(); lace_start(4, 0); for (int k=0; k<20; k++) TOGETHER(copy); lace_stop(); return 0; }
''', cflags='-O2')
mk('c19-sum-twice','C19','a second report of the counters',
   'The sums printed by a report still contain those of the previous report.',
   both('    for (j=0;j<CTR_MAX;j++) ctr_all[j] = 0;\n',''), '''
#include <lace.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
TASK_1(int, fib, int, n) { if (n < 2) return n; SPAWN(fib, n-1); int a = CALL(fib, n-2); return a + SYNC(fib); }
static long sum(void)
{
    char *b = 0; size_t n = 0; FILE *f = open_memstream(&b, &n); lace_count_report_file(f); fclose(f);
    char *p = strstr(b, "Tasks (sum): "); long r = p ? atol(p+13) : -1; free(b); return r;
}
int main(void)
{
    lace_start(2, 0); RUN(fib, 15); lace_suspend();
    long a = sum(), b = sum();
    lace_resume(); lace_stop();
    if (a != 986 || b != a) { printf("%ld and %ld tasks reported, expected 986\\n", a, b); return 1; }
    return 0;
}
''', cflags='-O2 -DLACE_COUNT_TASKS=1')
mk('c25-rlim-max','C25','a program whose soft stack limit differs from its hard limit',
   'Worker threads get stacks of the hard instead of the current (soft) stack limit.',
   both('	size_t size = lim.rlim_cur;','	size_t size = lim.rlim_max;'), '''
#define _GNU_SOURCE
#include <lace.h>
#include <stdio.h>
#include <pthread.h>
#include <sys/resource.h>
static size_t size;
VOID_TASK_0(look) { pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstacksize(&a, &size); pthread_attr_destroy(&a); }
int main(void)
{
    struct rlimit l; getrlimit(RLIMIT_STACK, &l); l.rlim_cur = 2<<20; setrlimit(RLIMIT_STACK, &l);
    lace_start(1, 0); RUN(look); lace_stop();
    printf("stack of %zu bytes\\n", size);
    return size > (3<<20) || size < (1<<20);
}
''')
mk('c25-ignore-zero','C25','lace_set_stacksize(0) after an earlier session with an explicit stack size',
   'Going back to the default stack size has no effect: the size of the earlier session stays.',
   both('    stacksize = new_stacksize;','    if (new_stacksize != 0) stacksize = new_stacksize;'), '''
#define _GNU_SOURCE
#include <lace.h>
#include <stdio.h>
int main(void)
{
    lace_set_stacksize(1<<20); lace_start(1, 0); lace_stop();
    lace_set_stacksize(0);
    size_t s = lace_get_stacksize();
    lace_start(1, 0); lace_stop();
    if (s != 0) { printf("lace_get_stacksize() is %zu\\n", s); return 1; }
    return 0;
}
''')
mk('c05-load-store','C05','two workers that look for an external task at the same moment',
   'A worker takes the external task with a load followed by a store instead of an exchange, so two workers can run the same task.',
   both('    ExtTask *stolen_task = atomic_exchange(&external_task, NULL);\n    if (stolen_task != 0) {','    ExtTask *stolen_task = atomic_load(&external_task);\n    if (stolen_task != 0) {\n        atomic_store(&external_task, NULL);'), DOG+'''
static atomic_int n;
VOID_TASK_0(hello) { n++; }
int main(void)
{
    watch(); lace_start(6, 0);
    for (int k=0; k<60000; k++) { n = 0; RUN(hello); int r = n; if (r != 1) { printf("round %d: task ran %d times\\n", k, r); _Exit(1); } beat++; }
    usleep(20000); lace_stop(); return 0;
}
''', noise=True, timeout=250)
mk('c16-mmap-null','C16','a build with LACE_USE_MMAP in which mmap fails',
   'A failed mmap is not recognised (it returns MAP_FAILED, not NULL): the worker crashes instead of reporting the error.',
   both('    if (workers_memory[worker] == MAP_FAILED) {','    if (workers_memory[worker] == NULL) {'), '''
#define _GNU_SOURCE
#include <lace.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <stdatomic.h>
static int fail_at; static atomic_int count;
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *p, size_t n, int a, int b, int c, off_t d) { if (++count == fail_at) return MAP_FAILED; return __real_mmap(p, n, a, b, c, d); }
VOID_TASK_0(hello) { }
int main(void)
{
    for (fail_at=1; fail_at<=2; fail_at++) {
        int fd[2]; pipe(fd); fflush(0); count = 0;
        pid_t p = fork();
        if (p == 0) { dup2(fd[1], 2); alarm(20); lace_start(2, 100); for (int k=0; k<100; k++) { RUN(hello); usleep(10000); } _exit(0); }
        close(fd[1]); char b[500]; int n, k = 0; while ((n = read(fd[0], b+k, 499-k)) > 0) k += n; b[k] = 0; close(fd[0]);
        int st; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) == 0 || !strstr(b, "rror")) { printf("failing mmap %d: not reported (status %#x)\\n", fail_at, st); return 1; }
    }
    return 0;
}
''', cflags='-O2 -DLACE_USE_MMAP=1', ldflags='-Wl,--wrap=mmap')
mk('c18-worker-byte','C18','more than 256 workers',
   'The worker identity is kept in one byte, so workers 0 and 256 have the same one.',
   [(SH,'    uint16_t worker;            // what is my worker id?','    uint8_t worker;             // what is my worker id?',1)], '''
#include <lace.h>
#include <stdio.h>
#include <stdatomic.h>
static atomic_int seen[300];
VOID_TASK_0(me) { seen[LACE_WORKER_ID]++; }
int main(void)
{
    lace_start(300, 100); TOGETHER(me); lace_stop();
    for (int i=0; i<300; i++) if (seen[i] != 1) { printf("%d workers have identity %d\\n", seen[i], i); return 1; }
    return 0;
}
''', regen=True, timeout=250)
mk('c07-second-barrier','C07','a worker that is still looking for work in a frame when the frame has ended for the others',
   'Workers no longer wait for each other at the end of a frame: those that are late still act on the ended frame (and on the stack of its task) while others continue with the interrupted tasks.',
   both('''    // wait until all workers are back (else they may steal from previous frame)
    lace_barrier();

''',''), DOG+'''
static atomic_int inside, bad;
VOID_TASK_1(leaf, int, d) { for (volatile int i=0; i<50; i++) ; }
VOID_TASK_1(fr, int, d) { for (int i=0; i<6; i++) SPAWN(leaf, i); for (int i=0; i<6; i++) SYNC(leaf); }
VOID_TASK_1(node, int, d) { if (d == 0) { NEWFRAME(fr, 1); beat++; return; } SPAWN(node, d-1); CALL(node, d-1); SYNC(node); }
int main(void) { watch(); lace_start(6, 0); for (int k=0; k<3000; k++) { RUN(node, 4); beat++; } lace_stop(); return 0; }
''', noise=True, timeout=250)

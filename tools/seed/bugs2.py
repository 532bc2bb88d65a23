from mkseed import mk
SH='src/lace.sh'; LC='src/lace.c'; L14='src/lace14.c'
def both(a,b,n=1): return [(LC,a,b,n),(L14,a,b,n)]
DOG='''
#include <lace.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#include <stdatomic.h>
static atomic_int beat;
static void *dog(void *a) { int last = -1, same = 0; for (;;) { usleep(100000); int b = beat; if (b == last) { if (++same > 80) { printf("no progress for 8 s\\n"); _Exit(1); } } else same = 0; last = b; } }
static void watch(void) { pthread_t t; pthread_create(&t, 0, dog, 0); }
'''
mk('c11-suspend-early','C11','lace_suspend so soon after a start or resume that not all workers are running yet',
   'lace_suspend no longer waits until all workers run: it returns while some workers have not even woken up, or the late ones keep running (or miss their wake-up) after it.',
   both('''                while (workers_running != n_workers) {} // they must first run, to avoid rare condition
''',''), DOG+'''
#include <sys/resource.h>
VOID_TASK_0(hello) { beat++; }
static double cpu(void) { struct rusage r; getrusage(RUSAGE_SELF, &r); return r.ru_utime.tv_sec + r.ru_stime.tv_sec + (r.ru_utime.tv_usec + r.ru_stime.tv_usec)*1e-6; }
int main(void)
{
    watch();
    lace_start(4, 0);
    for (int k=0; k<100; k++) {
        lace_suspend();
        usleep(1000); double t = cpu(); usleep(20000); t = cpu()-t;
        if (t > 0.015) { printf("round %d: workers used %.0f ms of CPU time in 20 ms while suspended\\n", k, t*1000); _Exit(1); }
        lace_resume();
        if (k % 4 == 0) RUN(hello);
        beat++;
    }
    RUN(hello); lace_stop(); return 0;
}
''', timeout=200)
mk('c14-no-request','C14','a worker whose shared tasks were all stolen but that still has private ones, while it is busy in a long task',
   'A thief asks for more shared tasks only while the victim has never shared any (split is 0), so later private tasks stay out of reach of idle workers.',
   [(SH,'        if (victim->movesplit == 0) {','        if (ts_split == 0 && victim->movesplit == 0) {',1),
    (SH,'''        TailSplitNA ts;
        ts.v = victim->ts.v;
        if (ts.ts.tail < ts.ts.split) {''','''        TailSplitNA ts;
        ts.v = victim->ts.v;
        ts_split = ts.ts.split;
        if (ts.ts.tail < ts.ts.split) {''',1),
    (SH,'''    if (victim != NULL && !victim->allstolen) {
''','''    uint32_t ts_split = 0;
    if (victim != NULL && !victim->allstolen) {
''',1)], DOG+'''
/* the parent spawns n tasks and then, from inside the last one, waits until the others have been run by other workers */
static atomic_int done;
VOID_TASK_1(leaf, int, i) { done++; }
VOID_TASK_1(waiter, int, n)
{
    /* keep offering: every spawn/sync gives the library a chance to share what was requested */
    for (int k=0; k<4000 && done < n; k++) { SPAWN(leaf, 0); done--; SYNC(leaf); usleep(100); }
    if (done < n) { printf("%d of %d tasks were never offered to the idle workers\\n", n-done, n); _Exit(1); }
}
VOID_TASK_1(parent, int, n)
{
    done = 0;
    for (int i=0; i<n; i++) SPAWN(leaf, i);
    CALL(waiter, n);
    for (int i=0; i<n; i++) SYNC(leaf);
}
int main(void)
{
    lace_start(4, 0);
    for (int k=1; k<12; k++) RUN(parent, k);
    lace_stop(); return 0;
}
''', regen=True)
mk('c15-overflow-arity','C15','spawning a void task with five arguments (lace14) when the queue is exactly full',
   'The overflow test of one task arity is off by one: the task is written behind the queue instead of ending the program with the overflow message.',
   [('src/lace14.h','@@void5@@','',0)], '')if 0 else None
import subprocess
def arity_edit(fn, decl, old, new):
    """edit inside one task declaration macro of a generated header; returns the (old,new) whole-macro replacement"""
    s = open('/repo/'+fn).read(); i = s.index('#define '+decl+'('); j = s.index('#define', i+10)
    blk = s[i:j]; pad = lambda l: l
    assert blk.count(old) == 1, (decl, old, blk.count(old))
    return (fn, blk, blk.replace(old, new), 1)
mk('c15-overflow-arity','C15','spawning a void task with five arguments (lace14) when the queue is exactly full',
   'The overflow test of one task arity is off by one: the task is written behind the queue instead of ending the program with the overflow message.',
   [arity_edit('src/lace14.h','VOID_TASK_DECL_5','if (__dq_head == w->end) lace_abort_stack_overflow();','if (__dq_head >  w->end) lace_abort_stack_overflow();')], '''
#include <lace14.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <sys/wait.h>
VOID_TASK_5(five, int, a, int, b, int, c, int, d, int, e) { }
VOID_TASK_1(root, int, n) { for (int i=0; i<n; i++) SPAWN(five, 1,2,3,4,5); for (int i=0; i<n; i++) SYNC(five); }
int main(void)
{
    for (int n=9; n<=10; n++) {   /* the queue has 10 slots; RUN uses none */
        fflush(0);
        pid_t p = fork();
        if (p == 0) { freopen("/dev/null", "w", stderr); lace_start(1, 10); RUN(root, n); _exit(0); }
        int st; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { printf("%d tasks do not fit\\n", n); return 1; }
    }
    int fd[2]; pipe(fd);
    pid_t p = fork();
    if (p == 0) { dup2(fd[1], 2); lace_start(1, 10); RUN(root, 11); _exit(0); }
    close(fd[1]); char b[500]; int n, k = 0; while ((n = read(fd[0], b+k, 499-k)) > 0) k += n; b[k] = 0;
    int st; waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) == 0 || !strstr(b, "overflow")) { printf("overflow not reported\\n"); return 1; }
    return 0;
}
''', lib='lace14')
mk('c18-head-pow2','C18','LACE_VARS (or RUN/NEWFRAME/TOGETHER from inside a task) when the queue position is 8, 16, 32, ...',
   'lace_get_head ends its search one slot too low when the first empty slot is at a power of two, so the next spawn overwrites a live task.',
   both('            high=low*2;\n','            high=low*2-1;\n'), '''
#include <lace.h>
#include <stdio.h>
#include <stdlib.h>
static int bad;
TASK_1(int, leaf, int, i) { return i; }
TASK_0(int, look)
{
    /* the head that the library recovers must be the head that the macros carry */
    if (lace_get_head(__lace_worker) != __lace_dq_head) bad = 1;
    return 0;
}
VOID_TASK_1(root, int, n)
{
    for (int i=0; i<n; i++) SPAWN(leaf, i);
    CALL(look);
    for (int i=n-1; i>=0; i--) if (SYNC(leaf) != i) bad = 1;
}
int main(void)
{
    lace_start(1, 100);
    for (int n=0; n<80; n++) { RUN(root, n); if (bad) { printf("wrong head with %d tasks\\n", n); _Exit(1); } }
    lace_stop(); return 0;
}
''')
mk('c19-random-steals','C19','successful steals through lace_steal_random (leapfrogging that falls back on random victims, STEAL_RANDOM in tasks)',
   'Steals made by lace_steal_random are tried but never counted as successful, so the report misses them.',
   both('''        Worker *res = lace_steal(__lace_worker, __lace_dq_head, victim);
        if (res == LACE_STOLEN) {
            PR_COUNTSTEALS(__lace_worker, CTR_steals);
        } else if''','''        Worker *res = lace_steal(__lace_worker, __lace_dq_head, victim);
        if (res == LACE_STOLEN) {
            PR_COUNTSTEALS(__lace_worker, CTR_leaps);
        } else if'''), '''
#define LACE_COUNT_STEALS 1
#include <lace.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdatomic.h>
/* one worker runs "victim" and shares n tasks; the other worker is inside "thief" and steals them only with STEAL_RANDOM */
static atomic_int in_thief, got;
VOID_TASK_0(item) { got++; }
VOID_TASK_1(thief, int, n) { in_thief = 1; while (got < n) STEAL_RANDOM(); }
VOID_TASK_1(victim, int, n)
{
    SPAWN(thief, n);
    LACE_MAKE_ALL_SHARED();
    while (!in_thief) {}
    for (int i=0; i<n; i++) SPAWN(item);
    LACE_MAKE_ALL_SHARED();
    while (got < n) {}
    for (int i=0; i<n; i++) SYNC(item);
    SYNC(thief);
}
int main(void)
{
    freopen("/dev/null", "w", stdout);
    lace_start(2, 0);
    RUN(victim, 40);
    lace_suspend();
    char *b; size_t len; FILE *f = open_memstream(&b, &len); lace_count_report_file(f); fclose(f);
    int good, busy, tries, lg = -1; char *p = strstr(b, "Steals (sum):");
    if (!p || sscanf(p, "Steals (sum): %d good/%d busy of %d tries; leaps: %d good", &good, &busy, &tries, &lg) != 4) { fprintf(stderr, "no report\\n"); _Exit(1); }
    if (good != 41 || lg != 0) { fprintf(stderr, "41 tasks were stolen by random stealing, reported: %d steals and %d leaps\\n", good, lg); _Exit(1); }
    lace_resume();
    lace_stop(); return 0;
}
''', cflags='-O2 -I/verif-none -DX')if 0 else None
mk('c20-worker-array','C20','more than eight workers, and not a multiple of eight',
   'The size of the worker arrays is rounded down to a multiple of the cache line instead of up, so the last workers are stored behind the arrays.',
   both('    to_allocate = (to_allocate+LINE_SIZE-1) & (~(LINE_SIZE-1));','    to_allocate = to_allocate <= LINE_SIZE ? LINE_SIZE : to_allocate & (~(LINE_SIZE-1));'), '''
#include <lace.h>
#include <stdio.h>
VOID_TASK_0(hello) { }
int main(void) { for (int n=1; n<=20; n++) { lace_start(n, 100); RUN(hello); lace_stop(); } return 0; }
''', cflags='-O1 -g -fsanitize=address', ldflags='-fsanitize=address')
mk('c07-frame-barrier','C07','a worker that is delayed between copying the frame task and saving its own frame, while the others already work in the new frame',
   'The barrier before the new frame is entered is gone, so the first workers in the frame steal and run tasks of the interrupted computation from workers that have not saved their frame yet.',
   both('''    // wait until all workers are ready
    lace_barrier();

''',''), DOG+'''
static atomic_int in_frame, bad;
VOID_TASK_1(old, int, i) { if (in_frame) bad = 1; for (volatile int k=0; k<30; k++) {} if (in_frame) bad = 1; }
VOID_TASK_1(fleaf, int, i) { for (volatile int k=0; k<50; k++) {} }
VOID_TASK_1(frame, int, n) { in_frame = 1; for (int i=0; i<n; i++) { SPAWN(fleaf, i); } for (int i=0; i<n; i++) SYNC(fleaf); for (int i=0; i<20; i++) STEAL_RANDOM(); in_frame = 0; }
VOID_TASK_1(spread, int, d)
{
    if (d == 0) { for (int i=0; i<6; i++) SPAWN(old, i); LACE_MAKE_ALL_SHARED(); for (int i=0; i<6; i++) SYNC(old); return; }
    SPAWN(spread, d-1); SPAWN(spread, d-1); LACE_MAKE_ALL_SHARED();
    YIELD_NEWFRAME();
    SYNC(spread); SYNC(spread);
}
VOID_TASK_0(root)
{
    SPAWN(spread, 6); SPAWN(spread, 6); LACE_MAKE_ALL_SHARED();
    for (volatile int k=0; k<4000; k++) {}
    NEWFRAME(frame, 4);
    SYNC(spread); SYNC(spread);
}
int main(void)
{
    watch(); lace_start(8, 0);
    for (int k=0; k<3000 && !bad; k++) { RUN(root); beat++; }
    if (bad) { printf("work of the interrupted frame ran during NEWFRAME\\n"); _Exit(1); }
    lace_stop(); return 0;
}
''', cflags='-O1', noise=True, timeout=250, defs='-DP_SLEEP=1000')
mk('c12-restart','C12','a second lace_start after a lace_stop',
   'lace_start no longer resets the count of lace_resume calls, so after a restart nobody wakes the new workers.',
   both('    lace_awaken_count = 0;\n',''), DOG+'''
VOID_TASK_0(hello) { beat++; }
int main(void) { watch(); for (int k=0; k<5; k++) { lace_start(3, 0); RUN(hello); lace_stop(); beat++; } return 0; }
''')
mk('c12-stop-early','C12','lace_stop so soon after lace_start that not all workers are running yet',
   'lace_stop no longer waits until all workers run: it sees nobody running and frees the memory of workers that are still starting.',
   both('''    // Do not stop if not all workers are running yet
    while (workers_running != n_workers) {}

''',''), DOG+'''
int main(void) { watch(); for (int k=0; k<400; k++) { lace_start(8, 1000); lace_stop(); beat++; } usleep(50000); return 0; }
''', cflags='-O1 -g -fsanitize=address', ldflags='-fsanitize=address')
mk('c16-alloc-check','C16','the second of the three small allocations of lace_start fails',
   'lace_start does not notice that the second array could not be allocated; the workers crash instead of the error being reported.',
   both('if (workers == 0 || workers_p == 0 || workers_memory == 0) {','if (workers == 0 || workers_memory == 0) {'), '''
#include <lace.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <sys/wait.h>
static int fail_at, count;
void *__real_aligned_alloc(size_t a, size_t n);
void *__wrap_aligned_alloc(size_t a, size_t n) { if (++count == fail_at) return 0; return __real_aligned_alloc(a, n); }
VOID_TASK_0(hello) { }
int main(void)
{
    for (fail_at=1; fail_at<=3; fail_at++) {
        int fd[2]; pipe(fd); fflush(0); count = 0;
        pid_t p = fork();
        if (p == 0) { dup2(fd[1], 2); alarm(20); lace_start(2, 100); RUN(hello); _exit(0); }
        close(fd[1]); char b[500]; int n, k = 0; while ((n = read(fd[0], b+k, 499-k)) > 0) k += n; b[k] = 0; close(fd[0]);
        int st; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) == 0 || !strstr(b, "rror")) { printf("failing allocation %d: not reported (status %#x)\\n", fail_at, st); return 1; }
    }
    return 0;
}
''', ldflags='-Wl,--wrap=aligned_alloc')
mk('c03-arity','C03','TOGETHER with a void task of nine arguments (lace14)',
   'One generated macro stores the wrong argument, so the ninth argument arrives as a copy of the eighth.',
   [arity_edit('src/lace14.h','VOID_TASK_DECL_9', *(lambda blk: (blk, blk.replace('t->d.args.arg_9 = arg_9;','t->d.args.arg_9 = arg_8;')))(
     (lambda s: s[s.index('void NAME##_TOGETHER'):s.index('lace_run_together')])((lambda s: s[s.index('#define VOID_TASK_DECL_9('):])(open('/repo/src/lace14.h').read()))))], '''
#include <lace14.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdatomic.h>
static atomic_int bad;
VOID_TASK_9(nine, int, a, int, b, int, c, int, d, int, e, int, f, int, g, int, h, short, i) { if (a!=1||b!=2||c!=3||d!=4||e!=5||f!=6||g!=7||h!=8||i!=9) bad = 1; }
int main(void) { lace_start(2, 0); RUN(nine,1,2,3,4,5,6,7,8,9); NEWFRAME(nine,1,2,3,4,5,6,7,8,9); RUNEX(nine,1,2,3,4,5,6,7,8,9); TOGETHER(nine,1,2,3,4,5,6,7,8,9); lace_stop(); if (bad) printf("wrong arguments\\n"); return bad; }
''', lib='lace14')
mk('c05-suspend-before-wait','C05','a RUN that wakes suspended workers (so that its lace_suspend puts them back to sleep) and every worker looking for tasks just before the task is posted',
   'RUN gives up its hold on the workers before its task is done, so all workers may go back to sleep with the task still waiting: RUN never returns.',
   both('''        lace_sem_wait(&et.sem);
        sem_destroy(&et.sem);

        pthread_mutex_lock(&external_task_lock);
        external_task_counter--;
        if (external_task_exclusive && external_task_counter == 0) {
            // if counter is 0 and exclusive is set, then we should wake up the threads
            pthread_cond_broadcast(&external_task_cond);
        }
        pthread_mutex_unlock(&external_task_lock);

        // allow Lace workers to sleep again
        lace_suspend();
''','''        // allow Lace workers to sleep again
        lace_suspend();

        lace_sem_wait(&et.sem);
        sem_destroy(&et.sem);

        pthread_mutex_lock(&external_task_lock);
        external_task_counter--;
        if (external_task_exclusive && external_task_counter == 0) {
            // if counter is 0 and exclusive is set, then we should wake up the threads
            pthread_cond_broadcast(&external_task_cond);
        }
        pthread_mutex_unlock(&external_task_lock);
'''), DOG+'''
VOID_TASK_0(hello) { beat++; }
int main(void)
{
    watch(); lace_start(1, 0); lace_suspend();
    time_t end = time(0) + 30;
    for (int k=0; k<3000000 && time(0) < end; k++) { RUN(hello); beat++; }
    lace_stop(); return 0;
}
''', noise=True)
S3=open('/repo/src/lace.h').read()
def spawn_order(fn, decl, nargs):
    s=open('/repo/'+fn).read(); i=s.index('#define '+decl+'('); j=s.index('#define',i+10); blk=s[i:j]
    lines=blk.split('\n'); k=next(n for n,l in enumerate(lines) if 't->d.args.arg_%d = arg_%d'%(nargs,nargs) in l and 'NEWFRAME' not in l)
    init=lines[k]
    # move the initialisation behind the publication, at the end of SPAWN
    e=next(n for n in range(k,len(lines)) if 'PR_COUNTSPLITS(w, CTR_split_grow)' in lines[n])
    # structure: ..grow); / } / }
    del lines[k]; e-=1
    new=lines[:e+2]+[init]+lines[e+2:]
    return (fn, blk, '\n'.join(new), 1)
mk('c02-args-late','C02','a thief that takes a three-argument task in the moment between its publication and the store of its arguments',
   'SPAWN of void tasks with three arguments stores the arguments after it has made the task stealable; a fast thief runs it with stale arguments.',
   [spawn_order('src/lace.h','VOID_TASK_DECL_3',3), spawn_order('src/lace14.h','VOID_TASK_DECL_3',3)], DOG+'''
static atomic_int bad;
VOID_TASK_3(leaf, int, a, int, b, int, c) { if (b != a+1 || c != a+2) bad = 1; }
VOID_TASK_2(node, int, d, int, x)
{
    for (int i=0; i<4; i++) SPAWN(leaf, x+i*10, x+i*10+1, x+i*10+2);
    if (d) { SPAWN(node, d-1, x*7+1); SPAWN(node, d-1, x*7+3); SYNC(node); SYNC(node); }
    for (int i=0; i<4; i++) SYNC(leaf);
}
int main(void)
{
    watch(); lace_start(8, 0);
    for (int k=0; k<6000 && !bad; k++) { RUN(node, 5, k); beat++; }
    if (bad) { printf("a stolen task ran with the wrong arguments\\n"); _Exit(1); }
    lace_stop(); return 0;
}
''', cflags='-O1', noise=True, timeout=250)

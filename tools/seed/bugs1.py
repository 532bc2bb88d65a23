from mkseed import mk
SH='src/lace.sh'; LC='src/lace.c'; L14='src/lace14.c'
def both(a,b,n=1): return [(LC,a,b,n),(L14,a,b,n)]

FIB='''
#include <lace.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdatomic.h>
static atomic_int ran[1<<22]; static atomic_int next_id; static atomic_int bad;
TASK_2(int, tree, int, id, int, d)
{
    if (atomic_fetch_add(&ran[id], 1) != 0) bad = 1;
    if (d == 0) return 1;
    int a = atomic_fetch_add(&next_id, 3);
    SPAWN(tree, a, d-1); SPAWN(tree, a+1, d-1); SPAWN(tree, a+2, d-1);
    int r = SYNC(tree); r += SYNC(tree); r += SYNC(tree);
    return r+1;
}
int main(void)
{
    lace_start(8, 0);
    int want = 1; for (int i=0; i<D; i++) want = want*3+1;
    for (int k=0; k<REP && !bad; k++) {
        for (int i=0; i<want+2; i++) ran[i] = 0;
        next_id = 1;
        int r = RUN(tree, 0, D);
        if (r != want) bad = 1;
        for (int i=0; i<want; i++) if (ran[i] != 1) bad = 1;
        if (bad) printf("run %d: %d tasks, expected %d\\n", k, r, want);
    }
    if (bad) _Exit(1);
    lace_stop();
    return 0;
}
'''
WIDE='''
#include <lace.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdatomic.h>
static atomic_int ran[64]; static atomic_int bad;
VOID_TASK_1(leaf, int, id) { if (atomic_fetch_add(&ran[id], 1) != 0) bad = 1; for (volatile int i=0; i<id%5*20; i++) {} }
VOID_TASK_1(wide, int, n)
{
    for (int i=0; i<n; i++) SPAWN(leaf, i);
    LACE_MAKE_ALL_SHARED();
    for (int i=0; i<n; i++) SYNC(leaf);
}
int main(void)
{
    lace_start(8, 0);
    for (int k=0; k<REP && !bad; k++) {
        int n = 8 + k % 40;
        for (int i=0; i<n; i++) ran[i] = 0;
        RUN(wide, n);
        for (int i=0; i<n; i++) if (ran[i] != 1) bad = 1;
    }
    if (bad) { printf("a task ran twice\\n"); _Exit(1); }
    lace_stop();
    return 0;
}
'''
mk('c01-shrink-recover','C01','several thieves that advance tail past the new split point between the two reads of tail by the owner',
   'When the thieves got ahead of the new split point, the owner computes the second split point from the first one instead of from tail and keeps tasks that are already stolen.',
   [(SH,'''                newsplit = (tail + split) / 2;
                atomic_store''','''                newsplit = (newsplit + split) / 2;
                atomic_store''',1)], WIDE, cflags='-O1 -DREP=40000', regen=True, noise=True, defs='-DP_YIELD=100 -DP_SLEEP=300', timeout=280)

mk('c04-drop-no-wait','C04','a dropped task that was stolen when it was the last shared one, so that lace_shrink_shared discovers it during the DROP',
   'DROP ignores that lace_shrink_shared found the task stolen and does not wait for the thief; the slot is reused while the dropped task still runs.',
   [(SH,'''    if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
    else''','''    if (w->split > __dq_head) lace_shrink_shared(w);
    else if (w->allstolen) lace_leapfrog(w, __dq_head);
    else''',1)], '''
#include <lace.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdatomic.h>
static atomic_int started, ended;
VOID_TASK_1(child, int, us) { started = 1; usleep(us); ended = 1; }
TASK_1(int, parent, int, us)
{
    started = ended = 0;
    SPAWN(child, us);
    for (int i=0; i<200000 && !started; i++) { atomic_thread_fence(memory_order_seq_cst); if (i % 100 == 99) usleep(10); }
    int s = started;
    DROP();
    return s && !ended;   /* stolen and started, but not ended after DROP */
}
int main(void)
{
    lace_start(2, 0);
    for (int k=0; k<60; k++) if (RUN(parent, 3000)) { printf("DROP returned before the stolen task ended (round %d)\\n", k); _Exit(1); }
    lace_stop(); return 0;
}
'''.replace('#include <lace.h>','#include <lace.h>\n#include <unistd.h>'), regen=True)

EXC='''
#include <lace.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
#include <stdatomic.h>
static atomic_int in_run, in_ex, bad, progress, rounds;
VOID_TASK_1(plain, int, us) { in_run++; if (in_ex) bad = 1; usleep(us); if (in_ex) bad = 1; in_run--; }
VOID_TASK_1(excl, int, us) { if (in_run || in_ex++) bad = 2; usleep(us); if (in_run || in_ex != 1) bad = 2; in_ex--; }
static void *tp(void *a) { unsigned s = (unsigned)(size_t)a; while (rounds-- > 0) { s = s*1103515245+12345; if (s & 256) usleep((s>>16)%80); RUN(plain, (s>>18)%60); progress++; } return 0; }
static void *te(void *a) { unsigned s = (unsigned)(size_t)a; while (rounds-- > 0) { s = s*1103515245+12345; usleep((s>>16)%120); RUNEX(excl, (s>>18)%60); progress++; } return 0; }
int main(void)
{
    lace_start(4, 0);
    pthread_t t[8]; rounds = ROUNDS;
    for (int i=0; i<NP; i++) pthread_create(&t[i], 0, tp, (void*)(size_t)(i*7919+1));
    for (int i=0; i<NE; i++) pthread_create(&t[NP+i], 0, te, (void*)(size_t)(i*104729+5));
    int last = -1, same = 0;
    while (rounds > 0 && !bad) { usleep(100000); if (progress == last) { if (++same > 100) { printf("no progress: a waiting thread was never woken\\n"); _Exit(1); } } else same = 0; last = progress; }
    if (bad) { printf("RUNEX task overlapped with another task\\n"); _Exit(1); }
    for (int i=0; i<NP+NE; i++) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 20; if (pthread_timedjoin_np(t[i], 0, &ts)) { printf("a thread hangs in RUN or RUNEX\\n"); _Exit(1); } }
    if (bad) { printf("RUNEX task overlapped with another task\\n"); _Exit(1); }
    lace_stop(); return 0;
}
'''.replace('#include <lace.h>','#define _GNU_SOURCE\n#include <lace.h>\n#include <time.h>')
mk('c06-signal','C06','RUNEX waiting for running tasks to end while further RUN callers wait for the exclusive one: the single wake-up must reach a RUN caller',
   'The last RUN to finish wakes only one waiter; when that is another RUN caller, which goes back to waiting, the RUNEX caller is never woken and everything external hangs.',
   both('''            // if counter is 0 and exclusive is set, then we should wake up the threads
            pthread_cond_broadcast(''','''            // if counter is 0 and exclusive is set, then we should wake up the thread
            pthread_cond_signal('''), EXC, cflags='-O2 -DNP=5 -DNE=2 -DROUNDS=60000')
mk('c17-if','C17','a wake-up of a RUN caller while external_task_exclusive is still (or again) set: a spurious one, or the broadcast meant for the RUNEX caller',
   'RUN checks the exclusive flag only once after waking up, so it runs its task while a RUNEX task runs.',
   both('''        while (external_task_exclusive) {
            // if "exclusive" is set, then we wait until we can continue
            pthread_cond_wait(&external_task_cond, &external_task_lock);
        }
        external_task_counter++;''','''        if (external_task_exclusive) {
            // if "exclusive" is set, then we wait until we can continue
            pthread_cond_wait(&external_task_cond, &external_task_lock);
        }
        external_task_counter++;'''), EXC, cflags='-O2 -DNP=5 -DNE=2 -DROUNDS=60000')
mk('c06-count-early','C06','a RUN caller that arrives after a RUNEX caller has claimed exclusivity but before the running tasks have ended',
   'RUN counts itself before it waits for the exclusive task; the RUNEX caller waits for that count to drop to zero: deadlock.',
   both('''        while (external_task_exclusive) {
            // if "exclusive" is set, then we wait until we can continue
            pthread_cond_wait(&external_task_cond, &external_task_lock);
        }
        external_task_counter++;''','''        external_task_counter++;
        while (external_task_exclusive) {
            // if "exclusive" is set, then we wait until we can continue
            pthread_cond_wait(&external_task_cond, &external_task_lock);
        }'''), EXC, cflags='-O2 -DNP=5 -DNE=2 -DROUNDS=60000')

BAR='''
#define _GNU_SOURCE
#include <lace.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
#include <stdatomic.h>
static atomic_int gen[8], bad, beat;
VOID_TASK_1(body, int, n)
{
    int me = LACE_WORKER_ID;
    for (int k=0; k<n; k++) {
        gen[me]++;
        lace_barrier();
        for (unsigned i=0; i<lace_workers(); i++) if (gen[i] < gen[me]) bad = 1;
        beat++;
        lace_barrier();
    }
}
static void *dog(void *a) { int last = -1, same = 0; for (;;) { usleep(100000); if (beat == last) { if (++same > 80) { printf("no progress: a worker is stuck\\n"); _Exit(1); } } else same = 0; last = beat; if (bad) { printf("barrier passed early\\n"); _Exit(1); } } }
int main(void)
{
    pthread_t t; pthread_create(&t, 0, dog, 0);
    for (int k=0; k<REP; k++) {
        lace_start(NW, 0);
        for (int i=0; i<8; i++) gen[i] = 0;
        TOGETHER(body, N); beat++;
        lace_stop(); beat++;
    }
    if (bad) _Exit(1);
    return 0;
}
'''
mk('c10-wait-late','C10','a worker that is delayed between entering the barrier and reading which phase it waits for, until all others have arrived',
   'The barrier reads the phase after it has counted itself in; if the last worker flips the phase in between, this worker waits for the next flip and the barrier never opens.',
   both('''    int wait = lace_bar.wait;
    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_relaxed))) {
''','''    int count = 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_relaxed));
    int wait = lace_bar.wait;
    if ((int)n_workers == count) {
'''), BAR, cflags='-O1 -DREP=30 -DN=300 -DNW=4', noise=True)
mk('c12-leaving-late','C12','a released worker that leaves the barrier before the last one has stored the number of leaving workers, just before lace_stop',
   'The number of leaving workers is set after the phase is flipped, so decrements are lost and lace_stop waits for ever (or a later barrier is torn down while in use).',
   both('''        atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);
        // flip wait
        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_relaxed);
''','''        // flip wait
        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_relaxed);
        atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);
'''), BAR, cflags='-O1 -DREP=300 -DN=12 -DNW=4', noise=True)
mk('c10-count-late','C10','a released worker that enters the next barrier before the last one has reset the count',
   'The arrival count is reset after the phase is flipped, so arrivals at the next barrier are lost.',
   both('''        atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);
        atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);
        // flip wait
        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_relaxed);
''','''        atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);
        // flip wait
        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_relaxed);
        atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);
'''), BAR, cflags='-O1 -DREP=30 -DN=300 -DNW=4', noise=True)

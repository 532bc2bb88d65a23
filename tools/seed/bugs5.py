from mkseed import mk
import sys
LC='src/lace.c'; L14='src/lace14.c'
only=sys.argv[1:]
_mk=mk
def mk(id,*a,**k):
    if only and id not in only: return
    _mk(id,*a,**k)
def both2(*prs): return [(f,a,b,1) for f in (LC,L14) for a,b in prs]
HEAD='''
#include <lace.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#include <stdatomic.h>
static atomic_int beat;
static void *dog(void *a) { int last = -1, same = 0; for (;;) { usleep(100000); int b = beat; if (b == last) { if (++same > 100) { printf("no progress for 10 s\\n"); _Exit(1); } } else same = 0; last = b; } }
static void watch(void) { pthread_t t; pthread_create(&t, 0, dog, 0); }
'''
mk('c11-awaken-byte','C11','more than 127 unmatched lace_resume calls (nested, or that many callers at once)',
   'The count of lace_resume calls wraps at 128, after which suspend and resume wait for a count that never comes.',
   both2(('static atomic_int lace_awaken_count','static _Atomic(signed char) lace_awaken_count'))+
   [(f,'int state = atomic_load_explicit(&lace_awaken','signed char state = atomic_load_explicit(&lace_awaken',2) for f in (LC,L14)], HEAD+"""
VOID_TASK_0(t) { beat++; }
int main(void)
{
    watch();
    lace_start(2, 0);
    for (int k=0; k<300; k++) { lace_resume(); beat++; }
    RUN(t);
    for (int k=0; k<300; k++) { lace_suspend(); beat++; }
    RUN(t);
    lace_suspend(); beat++;
    RUN(t);
    lace_resume();
    lace_stop();
    return 0;
}
""")
mk('c06-counter-byte','C06','exactly 256 external tasks submitted and not finished when RUNEX arrives',
   'The number of external tasks in flight is kept in 8 bits: with 256 of them RUNEX believes there are none and runs alongside.',
   both2(('static int external_task_counter = 0;','static unsigned char external_task_counter = 0;')), HEAD+"""
static atomic_int go, in, overlap;
VOID_TASK_0(t) { in++; while (!go) usleep(1000); usleep(3000); in--; }
VOID_TASK_0(ex) { for (int i=0; i<20; i++) { if (in) overlap = 1; usleep(1000); } }
static void *run(void *a) { RUN(t); return 0; }
static void *runex(void *a) { RUNEX(ex); return 0; }
int main(void)
{
    pthread_t th[257]; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1<<18);
    lace_start(3, 0);
    for (int i=0; i<256; i++) if (pthread_create(&th[i], &at, run, 0)) _Exit(0);
    sleep(2);
    pthread_create(&th[256], &at, runex, 0);
    usleep(500000);
    go = 1;
    for (int i=0; i<257; i++) pthread_join(th[i], 0);
    lace_stop();
    if (overlap) printf("a task of RUN was running during RUNEX\\n");
    return overlap;
}
""")
mk('c14-gives-up','C14','a worker that found nothing to steal 20000 times in a row, and work that only appears later',
   'An idle worker gives up stealing after 20000 failed attempts in a row, so later work is never taken from its owner.',
   [(f,'        if (n > 1) {\n            // Select victim','        static __thread int vain;\n        if (n > 1 && vain < 20000) {\n            vain++;\n            // Select victim',1) for f in (LC,L14)]+
   [(f,'                PR_COUNTSTEALS(__lace_worker, CTR_steals);\n            } else if (res == LACE_BUSY) {\n                PR_COUNTSTEALS(__lace_worker, CTR_steal_busy);\n            }\n        }\n\n        YIELD','                vain = 0;\n                PR_COUNTSTEALS(__lace_worker, CTR_steals);\n            } else if (res == LACE_BUSY) {\n                PR_COUNTSTEALS(__lace_worker, CTR_steal_busy);\n            }\n        }\n\n        YIELD',1) for f in (LC,L14)], HEAD+"""
static atomic_int taken;
VOID_TASK_0(leaf) { taken = 1; }
VOID_TASK_0(parent)
{
    usleep(1500000);                                   /* the others find nothing for a while */
    SPAWN(leaf);
    for (int k=0; k<10000 && !taken; k++) { usleep(1000); SPAWN(leaf); DROP(); }
    if (!taken) { printf("no idle worker took the task\\n"); _Exit(1); }
    SYNC(leaf);
}
int main(void)
{
    lace_start(4, 0);
    RUN(parent);
    lace_stop();
    return 0;
}
""")

#!/usr/bin/env python3
"""tools/refactor/refactor.py NAME DEST   writes a behaviour-preserving rewrite of /repo's sources to DEST (a scratch tree).
Development aid: the checks have to stay quiet on every one of these (run through refcheck.sh)."""
import os, re, shutil, subprocess, sys
R = {}
def ref(f): R[f.__name__] = f; return f
class T:
    def __init__(s, d): s.d = d; s.t = {}
    def get(s, f):
        if f not in s.t: s.t[f] = open(s.d + '/src/' + f).read()
        return s.t[f]
    def sub(s, f, a, b, n=1):
        t = s.get(f)
        if t.count(a) < 1 or (n and t.count(a) != n): raise SystemExit('%s: %d matches of %r' % (f, t.count(a), a[:80]))
        s.t[f] = t.replace(a, b)
    def cut(s, f, a, z, new, inc=False):
        t = s.get(f); i = t.index(a); j = t.index(z, i)
        if inc: j += len(z)
        s.t[f] = t[:i] + new + t[j:]

@ref
def barrier(t):
    t.cut('lace.c', 'typedef struct {\n    atomic_int __attribute__((aligned(LINE_SIZE))) count;', '/**\n * Wait on the given semaphore', '''typedef struct {
    _Alignas(LINE_SIZE) atomic_uint arrived;
    _Alignas(LINE_SIZE) atomic_uint generation;
    _Alignas(LINE_SIZE) atomic_uint inside;
} barrier_t;

barrier_t lace_bar;

static int
lace_barrier_last(void)
{
    return atomic_fetch_add(&lace_bar.arrived, 1) + 1 == n_workers;
}

void
lace_barrier()
{
    atomic_fetch_add(&lace_bar.inside, 1);
    unsigned int gen = atomic_load(&lace_bar.generation);
    if (lace_barrier_last()) {
        atomic_store(&lace_bar.arrived, 0);
        atomic_store(&lace_bar.generation, gen+1);
    } else {
        for (;;) {
            if (atomic_load(&lace_bar.generation) != gen) break;
        }
    }
    atomic_fetch_sub(&lace_bar.inside, 1);
}

static void
lace_barrier_init()
{
    atomic_store(&lace_bar.arrived, 0);
    atomic_store(&lace_bar.generation, 0);
    atomic_store(&lace_bar.inside, 0);
}

static void
lace_barrier_destroy()
{
    while (atomic_load(&lace_bar.inside)) {}
}

''')

@ref
def external(t):
    t.cut('lace.c', 'void\nlace_run_task(Task *task)\n', '/**\n * (Only outside of frames', '''static void
external_enter(int exclusive)
{
    pthread_mutex_lock(&external_task_lock);
    while (external_task_exclusive) pthread_cond_wait(&external_task_cond, &external_task_lock);
    if (exclusive) {
        external_task_exclusive = 1;
        while (external_task_counter > 0) pthread_cond_wait(&external_task_cond, &external_task_lock);
    } else {
        external_task_counter++;
    }
    pthread_mutex_unlock(&external_task_lock);
}

static void
external_leave(int exclusive)
{
    pthread_mutex_lock(&external_task_lock);
    if (exclusive) external_task_exclusive = 0;
    else external_task_counter--;
    pthread_cond_broadcast(&external_task_cond);
    pthread_mutex_unlock(&external_task_lock);
}

static void
external_offer(Task *task)
{
    ExtTask et;
    et.task = task;
    atomic_store_explicit(&et.task->thief, 0, memory_order_relaxed);
    sem_init(&et.sem, 0, 0);
    for (;;) {
        ExtTask *exp = NULL;
        if (atomic_compare_exchange_strong(&external_task, &exp, &et)) break;
    }
    lace_sem_wait(&et.sem);
    sem_destroy(&et.sem);
}

static void
run_any(Task *task, int exclusive)
{
    WorkerP* self = lace_get_worker();
    if (self != 0) {
        task->f(self, lace_get_head(self), task);
        return;
    }
    lace_resume();
    external_enter(exclusive);
    external_offer(task);
    external_leave(exclusive);
    lace_suspend();
}

void
lace_run_task(Task *task)
{
    run_any(task, 0);
}

void
lace_run_task_exclusive(Task *task)
{
    run_any(task, 1);
}

''')

@ref
def gethead(t):
    t.cut('lace.c', '    Task *dq = self->dq;\n\n    /* First check', '/**\n * Get the number of workers', '''    Task *lo = self->dq, *hi = self->end;
    size_t step = 1;
    /* gallop */
    while (lo < hi) {
        Task *p = (size_t)(hi - lo) > step ? lo + step - 1 : hi - 1;
        if (p->thief == 0) { hi = p; break; }
        lo = p + 1;
        step *= 2;
    }
    /* bisect */
    while (lo != hi) {
        Task *m = lo + (hi - lo) / 2;
        if (m->thief != 0) lo = m + 1;
        else hi = m;
    }
    return lo;
}

''')

@ref
def stealloop(t):
    t.cut('lace.c', '    // Determine who I am\n', '        YIELD_NEWFRAME();\n\n        if (unlikely(__lace_worker->frame == 0', '''    const unsigned int id = __lace_worker->worker, n = n_workers;
#if LACE_PIE_TIMES
    __lace_worker->time = gethrtime();
#endif
    uint32_t seed = id * 7919 + 13;
    unsigned int v = id, left = 0;

    for (;;) {
        if (*quit) break;
        if (n > 1) {
            if (left == 0) {
                left = 1 + rng(&seed, 24);
                v = rng(&seed, n);
            } else {
                left--;
                v = (v + 1) % n;
            }
            if (v == id) v = (v + 1) % n;
            PR_COUNTSTEALS(__lace_worker, CTR_steal_tries);
            Worker *res = lace_steal(__lace_worker, __lace_dq_head, workers[v]);
            if (res == LACE_BUSY) PR_COUNTSTEALS(__lace_worker, CTR_steal_busy);
            else if (res == LACE_STOLEN) PR_COUNTSTEALS(__lace_worker, CTR_steals);
        }

''')

@ref
def startstop(t):
    """joinable threads, posix_memalign, other order"""
    t.sub('lace.c', '    // Nobody joins the worker threads, so let them release their resources when they exit\n    pthread_attr_setdetachstate(&worker_attr, PTHREAD_CREATE_DETACHED);\n\n', '')
    t.sub('lace.c', '        pthread_t res;\n        if (pthread_create(&res, &worker_attr,', '        if (pthread_create(&worker_threads[i], &worker_attr,')
    t.sub('lace.c', '    workers = aligned_alloc(LINE_SIZE, to_allocate);\n    workers_p = aligned_alloc(LINE_SIZE, to_allocate);\n    workers_memory = aligned_alloc(LINE_SIZE, to_allocate);\n',
     '''    if (posix_memalign((void**)&workers_memory, LINE_SIZE, to_allocate) != 0) workers_memory = 0;
    if (posix_memalign((void**)&workers, LINE_SIZE, to_allocate) != 0) workers = 0;
    workers_p = calloc(n_workers, sizeof(WorkerP*));
    worker_threads = malloc(n_workers * sizeof(pthread_t));
    if (worker_threads == 0) workers = 0;
''')
    t.sub('lace.c', 'static worker_data **workers_memory = NULL;', 'static worker_data **workers_memory = NULL;\nstatic pthread_t *worker_threads;')
    t.sub('lace.c', '    while (workers_running != 0) {}\n\n#if LACE_COUNT_EVENTS', '    for (unsigned int i=0; i<n_workers; i++) pthread_join(worker_threads[i], NULL);\n\n#if LACE_COUNT_EVENTS')
    t.sub('lace.c', '    free(workers);\n    free(workers_p);\n    free(workers_memory);\n', '    free(worker_threads);\n    free(workers_memory);\n    free(workers_p);\n    free(workers);\n')
    t.sub('lace.c', '        workers_memory[worker] = aligned_alloc' if 0 else '    workers_memory[worker] = aligned_alloc(LINE_SIZE, workers_memory_size);', '    if (posix_memalign((void**)&workers_memory[worker], LINE_SIZE, workers_memory_size) != 0) workers_memory[worker] = 0;')

@ref
def suspendcond(t):
    """condition variable instead of a semaphore for sleeping workers"""
    t.sub('lace.c', 'static sem_t suspend_semaphore;', '''static pthread_mutex_t sleep_lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t sleep_cond = PTHREAD_COND_INITIALIZER;
static unsigned int sleep_tokens = 0;
static void lace_sleep(void)
{
    pthread_mutex_lock(&sleep_lock);
    while (sleep_tokens == 0) pthread_cond_wait(&sleep_cond, &sleep_lock);
    sleep_tokens--;
    pthread_mutex_unlock(&sleep_lock);
}
static void lace_wake(unsigned int n)
{
    pthread_mutex_lock(&sleep_lock);
    sleep_tokens += n;
    pthread_cond_broadcast(&sleep_cond);
    pthread_mutex_unlock(&sleep_lock);
}''')
    t.sub('lace.c', 'for (unsigned int i=0; i<n_workers; i++) sem_post(&suspend_semaphore);', 'lace_wake(n_workers);')
    t.sub('lace.c', 'lace_sem_wait(&suspend_semaphore);', 'lace_sleep();', 2)
    t.sub('lace.c', '    memset(&suspend_semaphore, 0, sizeof(sem_t));\n    sem_init(&suspend_semaphore, 0, 0);\n', '    sleep_tokens = 0;\n')
    t.sub('lace.c', '    sem_destroy(&suspend_semaphore);\n', '')

@ref
def spawnhelper(t):
    t.sub('lace.sh', "static __attribute__((noinline))\nvoid lace_drop_slow", '''static inline __attribute__((unused))
void lace_publish(WorkerP *w, Task *__dq_head)
{
    Worker *wt = w->_public;
    const uint32_t head = __dq_head - w->dq;
    if (unlikely(w->allstolen)) {
        TailSplitNA ts;
        if (wt->movesplit) wt->movesplit = 0;
        ts.ts.tail = head;
        ts.ts.split = head + 1;
        wt->ts.v = ts.v;
        wt->allstolen = 0;
        w->allstolen = 0;
        w->split = __dq_head + 1;
        return;
    }
    if (likely(!wt->movesplit)) return;
    const uint32_t split = w->split - w->dq;
    const uint32_t newsplit = split + (head + 2 - split) / 2;
    wt->ts.ts.split = newsplit;
    w->split = w->dq + newsplit;
    wt->movesplit = 0;
    PR_COUNTSPLITS(w, CTR_split_grow);
}

static __attribute__((noinline))
void lace_drop_slow''')
    t.cut('lace.sh', '    Worker *wt = w->_public;\n    if (unlikely(w->allstolen)) {', '}\n\nstatic inline __attribute__((unused))\n$RTYPE NAME##_NEWFRAME', '    lace_publish(w, __dq_head);\n')
    t.sub('lace.sh', '    TailSplitNA ts;\n    uint32_t head, split, newsplit;\n\n    if (__dq_head == w->end)', '    if (__dq_head == w->end)')

@ref
def stealearly(t):
    t.cut('lace.sh', '    if (victim != NULL && !victim->allstolen) {\n', 'static int\nlace_shrink_shared', '''    Worker *res = LACE_NOWORK;
    if (victim == NULL || victim->allstolen) goto out;

    TailSplitNA old, new_;
    old.v = atomic_load(&victim->ts.v);
    if (!(old.ts.tail < old.ts.split)) {
        if (!victim->movesplit) {
            victim->movesplit = 1;
            PR_COUNTSPLITS(self, CTR_split_req);
        }
        goto out;
    }
    new_.v = old.v;
    new_.ts.tail = old.ts.tail + 1;
    if (!atomic_compare_exchange_strong(&victim->ts.v, &old.v, new_.v)) {
        res = LACE_BUSY;
        goto out;
    }
    {
        Task *t = victim->dq + old.ts.tail;
        atomic_store_explicit(&t->thief, self->_public, memory_order_release);
        lace_time_event(self, 1);
        t->f(self, __dq_head, t);
        lace_time_event(self, 2);
        atomic_store_explicit(&t->thief, THIEF_COMPLETED, memory_order_release);
        lace_time_event(self, 8);
        return LACE_STOLEN;
    }
out:
    lace_time_event(self, 7);
    return res;
}

''')

@ref
def shrinkloop(t):
    t.cut('lace.sh', '    Worker *wt = w->_public;\n    TailSplitNA ts; /* Use non-atomic', 'static inline void\nlace_leapfrog', '''    Worker *wt = w->_public;
    TailSplitNA ts;
    ts.v = atomic_load_explicit(&wt->ts.v, memory_order_relaxed);
    const uint32_t split = ts.ts.split;
    int empty = ts.ts.tail == split;
    if (!empty) {
        uint32_t newsplit = ts.ts.tail + (split - ts.ts.tail) / 2;
        atomic_store_explicit(&wt->ts.ts.split, newsplit, memory_order_seq_cst);
        atomic_thread_fence(memory_order_seq_cst);
        const uint32_t tail = wt->ts.ts.tail;
        empty = tail == split;
        if (!empty) {
            if (tail > newsplit) {
                newsplit = tail + (split - tail) / 2;
                atomic_store_explicit(&wt->ts.ts.split, newsplit, memory_order_relaxed);
            }
            w->split = w->dq + newsplit;
            PR_COUNTSPLITS(w, CTR_split_shrink);
        }
    }
    if (empty) {
        w->allstolen = 1;
        wt->allstolen = 1;
    }
    return empty;
}

''')

@ref
def frames(t):
    req = '''    /* now try to be the one who sets it! */
    while (1) {
        Task *expected = 0;
        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &%s)) break;
        lace_yield(__lace_worker, __lace_dq_head);
    }

    // wait until other workers have made a local copy
    lace_barrier();

'''
    for x in ('_t2', '_s'): t.sub('lace.c', req % x, '    lace_request_frame(__lace_worker, __lace_dq_head, &%s);\n\n' % x)
    t.sub('lace.c', '    // reset the newframe struct\n    atomic_store_explicit(&lace_newframe.t, NULL, memory_order_relaxed);\n\n', '')
    t.sub('lace.c', '    // reset the newframe struct, then wrap and run ours\n    atomic_store_explicit(&lace_newframe.t, NULL, memory_order_relaxed);\n\n', '')
    t.sub('lace.c', '/**\n * Root task for the TOGETHER method.', '''static void
lace_request_frame(WorkerP *self, Task *head, Task *t)
{
    for (;;) {
        Task *cur = atomic_load(&lace_newframe.t);
        if (cur == NULL && atomic_compare_exchange_weak(&lace_newframe.t, &cur, t)) break;
        if (cur != NULL) lace_yield(self, head);
    }
    lace_barrier();
    atomic_store(&lace_newframe.t, NULL);
}

/**
 * Root task for the TOGETHER method.''')
    t.sub('lace.c', '    // signal out completion\n    *finished -= 1;\n\n    // while threads aren\'t done, steal randomly\n    while (*finished != 0) STEAL_RANDOM();\n', '''    if (atomic_fetch_sub(finished, 1) != 1) {
        do {
            STEAL_RANDOM();
        } while (atomic_load(finished) > 0);
    }
''')

@ref
def stats(t):
    t.cut('lace.c', '    for (j=0;j<CTR_MAX;j++) ctr_all[j] = 0;\n', '#if LACE_COUNT_TASKS\n    for (i=0', '''    for (j=0;j<CTR_MAX;j++) {
        uint64_t total = 0;
        for (i=0;i<n_workers;i++) total += workers_p[i]->ctr[j];
        ctr_all[j] = total;
    }

''')
    t.cut('lace.c', '    for (i=0;i<n_workers;i++) {\n        fprintf(file, "Tasks (%d)', '    fprintf(file, "Tasks (sum)', '''    i = 0;
    while (i < n_workers) {
        WorkerP *wp = workers_p[i];
        fprintf(file, "Tasks (%u): %lu\\n", i, (unsigned long)wp->ctr[CTR_tasks]);
        i++;
    }
''')

@ref
def pin(t):
    t.cut('lace.c', '    // Select our core (hwloc object) and the PU on that core', '    lace_get_worker()->pu = core;', '''    // Walk over the cores round by round
    hwloc_obj_t pu = NULL;
    unsigned int core = 0, seen = 0;
    int idx;
    const unsigned int mine = worker % count;
    for (idx = 0; pu == NULL; idx++) {
        for (unsigned int c = 0; c < n_cores && pu == NULL; c++) {
            hwloc_obj_t o = hwloc_get_obj_by_type(topo, HWLOC_OBJ_CORE, c);
            if (hwloc_bitmap_weight(o->cpuset) <= idx) continue;
            if (seen++ == mine) { pu = o; core = c; }
        }
    }
    idx--;
''')

@ref
def queue(t):
    """external tasks in a linked queue under a mutex"""
    t.sub('lace.c', 'static _Atomic(ExtTask*) external_task = NULL;', '''static ExtTask *ext_first = NULL, *ext_last = NULL;
static atomic_int ext_pending = 0;
static pthread_mutex_t ext_lock = PTHREAD_MUTEX_INITIALIZER;
static void ext_put(ExtTask *e)
{
    e->next = NULL;
    pthread_mutex_lock(&ext_lock);
    if (ext_last) ext_last->next = e; else ext_first = e;
    ext_last = e;
    ext_pending++;
    pthread_mutex_unlock(&ext_lock);
}
static ExtTask *ext_get(void)
{
    pthread_mutex_lock(&ext_lock);
    ExtTask *e = ext_first;
    if (e) { ext_first = e->next; if (!ext_first) ext_last = NULL; ext_pending--; }
    pthread_mutex_unlock(&ext_lock);
    return e;
}''')
    t.sub('lace.c', '    Task *task;\n    sem_t sem;\n} ExtTask;', '    Task *task;\n    sem_t sem;\n    struct _ExtTask *next;\n} ExtTask;')
    t.sub('lace.c', '        // wait until the slot is empty; a failed exchange overwrites exp, so reset it every time\n        ExtTask *exp;\n        do {\n            exp = 0;\n        } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);\n', '        ext_put(&et);\n', 2)
    t.sub('lace.c', 'ExtTask *stolen_task = atomic_exchange(&external_task, NULL);', 'ExtTask *stolen_task = ext_get();')
    t.sub('lace.c', 'atomic_load_explicit(&external_task, memory_order_acquire) != 0', 'atomic_load_explicit(&ext_pending, memory_order_acquire) != 0', 2)

@ref
def extcond(t):
    """RUN waits on a condition variable instead of a semaphore"""
    t.sub('lace.c', '    Task *task;\n    sem_t sem;\n} ExtTask;', '    Task *task;\n    int done;\n    pthread_mutex_t m;\n    pthread_cond_t c;\n} ExtTask;')
    t.sub('lace.c', '        sem_init(&et.sem, 0, 0);\n', '        et.done = 0;\n        pthread_mutex_init(&et.m, NULL);\n        pthread_cond_init(&et.c, NULL);\n', 2)
    t.sub('lace.c', '        lace_sem_wait(&et.sem);\n        sem_destroy(&et.sem);\n', '        pthread_mutex_lock(&et.m);\n        while (!et.done) pthread_cond_wait(&et.c, &et.m);\n        pthread_mutex_unlock(&et.m);\n        pthread_cond_destroy(&et.c);\n        pthread_mutex_destroy(&et.m);\n', 2)
    t.sub('lace.c', '        sem_post(&stolen_task->sem);\n', '        pthread_mutex_lock(&stolen_task->m);\n        stolen_task->done = 1;\n        pthread_cond_signal(&stolen_task->c);\n        pthread_mutex_unlock(&stolen_task->m);\n')

@ref
def yieldspin(t):
    """spin loops give up the processor"""
    t.sub('lace.c', 'while (wait == lace_bar.wait) {} // wait', 'while (wait == lace_bar.wait) sched_yield();')
    s = t.get('lace.c'); s = re.sub(r'while \((workers_\w+ != \w+)\) \{\}', r'while (\1) sched_yield();', s); t.t['lace.c'] = s.replace('#include <pthread.h>', '#include <pthread.h>\n#include <sched.h>', 1) if '#include <pthread.h>' in s else s.replace('#include <lace.h>', '#include <lace.h>\n#include <sched.h>', 1)

@ref
def mem(t):
    """one zeroed block per worker from calloc-like helper, loops instead of memset, worker data filled in other order"""
    t.sub('lace.c', '    memset(workers_memory[worker], 0, workers_memory_size);\n', '    for (char *p = (char*)workers_memory[worker], *e = p + workers_memory_size; p != e; p++) *p = 0;\n')
    t.sub('lace.c', '    memset(workers, 0, n_workers*sizeof(Worker*));', '    for (unsigned int i=0; i<n_workers; i++) workers[i] = NULL;')
    t.cut('lace.c', '    // Set pointers\n', '    // Initialize public worker data', '''    // Set pointers
    worker_data *data = workers_memory[worker];
    Worker *wt = &data->worker_public;
    WorkerP *w = &data->worker_private;
    w->dq = data->deque;
    workers_p[worker] = w;
#ifdef __linux__
    current_worker = w;
#else
    pthread_setspecific(current_worker_key, w);
#endif

''')
    t.sub('lace.c', '    w->rng = (((uint64_t)rand())<<32 | rand());\n', '    w->rng = (((uint64_t)rand())<<32 | rand());\n    workers[worker] = wt; // now others may steal\n')

@ref
def leap(t):
    t.cut('lace.sh', '        int attempts = 32;\n', '        /* POST-LEAP', '''        unsigned int tries = 0;
        for (; thief != THIEF_COMPLETED; thief = t->thief) {
            PR_COUNTSTEALS(__lace_worker, CTR_leap_tries);
            Worker *res = lace_steal(__lace_worker, __lace_dq_head, thief);
            if (res == LACE_STOLEN) {
                PR_COUNTSTEALS(__lace_worker, CTR_leaps);
                continue;
            }
            if (res == LACE_BUSY) {
                PR_COUNTSTEALS(__lace_worker, CTR_leap_busy);
                continue;
            }
            YIELD_NEWFRAME();
            if (LACE_LEAP_RANDOM && ++tries % 16 == 0) lace_steal_random();
        }

''')

@ref
def fields(t):
    """other struct layouts"""
    t.sub('lace.sh', '#define TASK_COMMON_FIELDS(type)                               \\\n    void (*f)(struct _WorkerP *, struct _Task *, struct type *);  \\\n    _Atomic(struct _Worker*) thief;',
          '#define TASK_COMMON_FIELDS(type)                               \\\n    _Atomic(struct _Worker*) thief;  \\\n    void (*f)(struct _WorkerP *, struct _Task *, struct type *);')
    t.sub('lace.sh', 'typedef struct _Worker {\n    Task *dq;\n    TailSplit ts;\n    uint8_t allstolen;\n\n    char pad1[PAD(P_SZ+sizeof(TailSplit)+1, LINE_SIZE)];\n\n    uint8_t movesplit;\n} Worker;',
          'typedef struct _Worker {\n    uint8_t movesplit;\n\n    char pad1[LINE_SIZE-1];\n\n    TailSplit ts;\n    Task *dq;\n    uint32_t allstolen;\n} Worker;')
    t.sub('lace.sh', '    uint16_t worker;            // what is my worker id?\n    uint8_t allstolen;          // my allstolen\n    unsigned int frame;         // how many frames (NEWFRAME, TOGETHER) am I in?\n',
          '    int worker;                 // what is my worker id?\n    int frame;                  // how many frames (NEWFRAME, TOGETHER) am I in?\n    int allstolen;              // my allstolen\n')

@ref
def rename(t):
    """other names for everything that is private to lace.c"""
    for a, b in (('workers_running', 'running_count'), ('workers_ready', 'ready_count'), ('must_suspend', 'suspend_requested'), ('suspend_semaphore', 'sleep_sem'), ('lace_awaken_count', 'awake_users'),
                 ('external_task_lock', 'ext_mutex'), ('external_task_cond', 'ext_cond'), ('external_task_counter', 'ext_active'), ('external_task_exclusive', 'ext_exclusive'), ('lace_bar', 'the_barrier'),
                 ('workers_memory_size', 'mem_per_worker'), ('workers_memory', 'mem_blocks'), ('workers_p', 'privates'), ('worker_dqsize', 'queue_length'), ('lace_quits', 'time_to_quit'), ('n_workers', 'worker_total'), ('ctr_all', 'sums')):
        s = t.get('lace.c'); t.t['lace.c'] = re.sub(r'(?<![\w>.])%s\b' % a, b, s)

@ref
def syncslow(t):
    t.cut('lace.sh', '    if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) {\n        lace_leapfrog(w, __dq_head);\n        t =', '    t = (TD_##NAME *)__dq_head;\n    atomic_store_explicit(&t->thief, THIEF_EMPTY', """    t = (TD_##NAME *)__dq_head;
    int stolen = w->allstolen;
    if (!stolen && w->split > __dq_head) stolen = lace_shrink_shared(w);
    if (stolen) {
        lace_leapfrog(w, __dq_head);
        return $RETURN_RES;
    }

    Worker *pub = w->_public;
    if (pub->movesplit) {
        const size_t more = (size_t)(__dq_head - w->split + 1) >> 1;
        w->split += more;
        pub->ts.ts.split += more;
        pub->movesplit = 0;
        PR_COUNTSPLITS(w, CTR_split_grow);
    }

""")
    t.sub('lace.sh', """    if (likely(0 == w->_public->movesplit)) {
        if (likely(w->split <= __dq_head)) {
            TD_##NAME *t = (TD_##NAME *)__dq_head;
            atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);
            ${SS_RETURN}NAME##_CALL(w, __dq_head $TASK_GET_FROM_t);
            ${SS_RETURN2}
        }
    }

    ${SS_RETURN}NAME##_SYNC_SLOW(w, __dq_head);
""", """    TD_##NAME *t = (TD_##NAME *)__dq_head;
    if (unlikely(w->split > __dq_head || w->_public->movesplit != 0)) {
        ${SS_RETURN}NAME##_SYNC_SLOW(w, __dq_head);
        ${SS_RETURN2}
    }
    atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);
    ${SS_RETURN}NAME##_CALL(w, __dq_head $TASK_GET_FROM_t);
""")

@ref
def rngs(t):
    """other random victims"""
    t.cut('lace.c', '    uint32_t next = *seed;\n\n    next *=', '}', """    uint32_t x = *seed + 0x9e3779b9u;
    *seed = x;
    x ^= x >> 16;
    x *= 0x85ebca6bu;
    x ^= x >> 13;
    x *= 0xc2b2ae35u;
    x ^= x >> 16;
    return x % (uint32_t)max;
""")
    t.sub('lace.c', 'i = rng(&seed, 40); // compute random i 0..40', 'i = 3 + rng(&seed, 11);')

@ref
def growall(t):
    """shares everything when asked"""
    t.sub('lace.sh', 'newsplit = (split + head + 2)/2;', 'newsplit = head + 1; (void)split;')
    t.sub('lace.sh', '        diff = (diff + 1) / 2;\n', '')

@ref
def guard(t):
    """slack behind the queue, memory larger than asked for"""
    t.sub('lace.c', '    workers_memory_size = sizeof(worker_data) + sizeof(Task) * dqsize;', '    workers_memory_size = (sizeof(worker_data) + sizeof(Task) * (dqsize + 2) + 4095) & ~(size_t)4095;')

@ref
def timeev(t):
    t.sub('lace.c', '        sem_post(&stolen_task->sem);\n        lace_time_event(self, 8);', '        lace_time_event(self, 8);\n        sem_post(&stolen_task->sem);')
    t.sub('lace.sh', '                atomic_store_explicit(&t->thief, THIEF_COMPLETED, memory_order_release);\n                lace_time_event(self, 8);', '                lace_time_event(self, 8);\n                atomic_store_explicit(&t->thief, THIEF_COMPLETED, memory_order_release);')

@ref
def resume(t):
    """suspend and resume under a mutex instead of a state machine"""
    t.cut('lace.c', 'void\nlace_suspend()\n', '/**\n * Simple random', """static pthread_mutex_t awake_lock = PTHREAD_MUTEX_INITIALIZER;

static void
wait_for_running(unsigned int count)
{
    while (workers_running != count) sched_yield();
}

static void
put_to_sleep(void)
{
    wait_for_running(n_workers);
    must_suspend = 1;
    wait_for_running(0);
    must_suspend = 0;
}

static void
wake_all(void)
{
    for (unsigned int i=n_workers; i!=0; i--) sem_post(&suspend_semaphore);
}

void
lace_suspend()
{
    pthread_mutex_lock(&awake_lock);
    if (lace_awaken_count == 1) put_to_sleep();
    lace_awaken_count -= 1;
    pthread_mutex_unlock(&awake_lock);
}

void
lace_resume()
{
    pthread_mutex_lock(&awake_lock);
    if (lace_awaken_count == 0) wake_all();
    lace_awaken_count += 1;
    pthread_mutex_unlock(&awake_lock);
}

""")
    t.sub('lace.c', '#include <sys/time.h>' if '#include <sys/time.h>' in t.get('lace.c') else '#include <stdio.h>', ('#include <sys/time.h>' if '#include <sys/time.h>' in t.get('lace.c') else '#include <stdio.h>') + '\n#include <sched.h>')

@ref
def framestruct(t):
    t.cut('lace.c', '    TailSplitNA old;\n    Task *old_split;', '/**\n * This method is called when', """    Worker *wt = __lace_worker->_public;
    const TailSplitNA old = { .v = wt->ts.v };
    const uint8_t was_all = wt->allstolen;
    Task * const old_split = __lace_worker->split;
    const uint32_t pos = __lace_dq_head - __lace_worker->dq;

    wt->allstolen = 1;
    wt->ts.v = ((TailSplitNA){ .ts = { pos, pos } }).v;
    __lace_worker->allstolen = 1;
    __lace_worker->split = __lace_worker->dq + pos;
    __lace_worker->frame += 1;

    lace_barrier();
    root->f(__lace_worker, __lace_dq_head, root);
    lace_barrier();

    __lace_worker->frame -= 1;
    __lace_worker->allstolen = was_all;
    __lace_worker->split = old_split;
    wt->ts.v = old.v;
    wt->allstolen = was_all;
}

""")

@ref
def reports(t):
    """one buffer, one write"""
    t.sub('lace.c', '    fprintf(file, "Tasks (sum): %zu\\n", ctr_all[CTR_tasks]);\n    fprintf(file, "\\n");\n', '    char *line = NULL;\n    if (asprintf(&line, "Tasks (sum): %zu\\n\\n", ctr_all[CTR_tasks]) >= 0) {\n        fputs(line, file);\n        free(line);\n    }\n')
    t.sub('lace.c', '    for (j=0;j<CTR_MAX;j++) ctr_all[j] = 0;\n    for (i=0;i<n_workers;i++) {\n        uint64_t *wctr = workers_p[i]->ctr;\n        for (j=0;j<CTR_MAX;j++) {\n            ctr_all[j] += wctr[j];\n        }\n    }\n',
          '    for (j=0;j<CTR_MAX;j++) {\n        uint64_t total = 0;\n        for (i=n_workers;i-- > 0;) total += workers_p[i]->ctr[j];\n        ctr_all[j] = total;\n    }\n')

def main():
    name, dest = sys.argv[1:3]
    shutil.copytree('/repo', dest, ignore=shutil.ignore_patterns('.git', 'build*'), dirs_exist_ok=True)
    t = T(dest); R[name](t)
    for f, s in t.t.items(): open(dest + '/src/' + f, 'w').write(s)
    subprocess.check_call(['bash', 'gen.sh'], cwd=dest + '/src')
if len(sys.argv) < 3: print(' '.join(R))
else: main()

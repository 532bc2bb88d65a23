#!/usr/bin/env python3
"""tools/seed/ideas.py [SECONDS [NAME...]]   quick bug ideas, each written from a property's text: (property, file, old, new)...
Each is applied to a scratch copy and judged by the check of its own property only.  Development aid."""
import os, re, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, V + '/tools'); sys.argv0 = sys.argv
C, S = 'lace.c', 'lace.sh'
B = {}
def b(name, *ed): B[name] = (name[1:3], ed)
b('i01-fence-late', (S, 'memory_order_relaxed); /* emit normal write */\n        atomic_thread_fence(memory_order_seq_cst);\n        tail = wt->ts.ts.tail;', 'memory_order_relaxed); /* emit normal write */\n        tail = wt->ts.ts.tail;\n        atomic_thread_fence(memory_order_seq_cst);'))
b('i01-postleap', (S, '            wt->allstolen = 1;\n            __lace_worker->allstolen = 1;\n        }\n    }\n\n    /*comp', '            (void)wt;\n            __lace_worker->allstolen = 1;\n        }\n    }\n\n    /*comp'))
b('i01-grow', (S, 'diff = (diff + 1) / 2;', 'diff = (diff + 2) / 2;'))
b('i01-frame-fence', (C, '        wt->ts.ts.split = 0;\n        atomic_thread_fence(memory_order_seq_cst);\n', '        atomic_store_explicit(&wt->ts.ts.split, 0, memory_order_relaxed);\n'))
b('i02-completed', (S, '&t->thief, THIEF_COMPLETED, memory_order_release);\n                lace_time', '&t->thief, THIEF_COMPLETED, memory_order_relaxed);\n                lace_time'))
b('i03-runex', (S, '''$RTYPE NAME##_RUNEX($FUN_ARGS_NC)
{
    Task _t;
    TD_##NAME *t = (TD_##NAME *)&_t;
    t->f = &NAME##_WRAP;
    atomic_store_explicit(&t->thief, THIEF_TASK, memory_order_relaxed);
    $TASK_INIT
    lace_run_task_exclusive(&_t);''', '''$RTYPE NAME##_RUNEX($FUN_ARGS_NC)
{
    static __thread Task _t;
    TD_##NAME *t = (TD_##NAME *)&_t;
    t->f = &NAME##_WRAP;
    atomic_store_explicit(&t->thief, THIEF_TASK, memory_order_relaxed);
    $TASK_INIT
    lace_run_task_exclusive(&_t);'''))
b('i05-two-step', (C, 'ExtTask *stolen_task = atomic_exchange(&external_task, NULL);', 'ExtTask *stolen_task = external_task;\n    if (stolen_task != 0) external_task = NULL;'))
b('i06-swap', (C, '''        external_task_exclusive = 1;
        while (external_task_counter > 0) {
            // wait until all other tasks are done
            pthread_cond_wait(&external_task_cond, &external_task_lock);
        }
''', '''        while (external_task_counter > 0) {
            // wait until all other tasks are done
            pthread_cond_wait(&external_task_cond, &external_task_lock);
        }
        external_task_exclusive = 1;
'''), (C, 'if (external_task_exclusive && external_task_counter == 0)', 'if (external_task_counter == 0)'))
b('i06-signal', (C, '        // wake up any waiters\n        pthread_cond_broadcast(', '        // wake up any waiters\n        pthread_cond_signal('))
b('i07-split0', (C, '        wt->ts.ts.split = 0;\n        atomic_thread_fence(memory_order_seq_cst);\n        old.ts.tail = wt->ts.ts.tail;', '        old.ts.tail = wt->ts.ts.tail;\n        wt->ts.ts.split = 0;\n        atomic_thread_fence(memory_order_seq_cst);'))
b('i07-as', (C, '            old_as = wt->allstolen;' if 0 else '        old_as = wt->allstolen;\n', '        old_as = __lace_worker->allstolen && wt->ts.ts.tail == wt->ts.ts.split;\n'))
b('i08-done', (C, 'atomic_int done = n_workers;', 'atomic_int done = n_workers > 2 ? n_workers - 1 : n_workers;'))
b('i08-copy', (C, '    // wait until all workers have made a personal copy\n    lace_barrier();\n', ''))
b('i09-reset', (C, '''    // wait until other workers have made a local copy
    lace_barrier();

    // reset the newframe struct
    atomic_store_explicit(&lace_newframe.t, NULL, memory_order_relaxed);
''', '''    // reset the newframe struct
    lace_barrier();
    if (lace_newframe.t == &_t2) lace_newframe.t = NULL; else lace_yield(__lace_worker, __lace_dq_head);
'''))
b('i09-frame', (C, '        __lace_worker->frame--;\n', '        if (old_as || __lace_worker->frame > 1) __lace_worker->frame--;\n'))
b('i10-late-read', (C, '    int wait = lace_bar.wait;\n    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel))) {', '    int last = (int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel));\n    int wait = lace_bar.wait;\n    if (last) {'))
b('i10-count', (C, '        atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);\n        atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);\n        // flip wait\n        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);', '        atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);\n        // flip wait\n        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);\n        atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);'))
b('i11-order', (C, '                for (unsigned int i=0; i<n_workers; i++) sem_post(&suspend_semaphore);\n                atomic_store_explicit(&lace_awaken_count, 1, memory_order_release);', '                atomic_store_explicit(&lace_awaken_count, 1, memory_order_release);\n                for (unsigned int i=0; i<n_workers; i++) sem_post(&suspend_semaphore);'))
b('i11-must', (C, '                while (workers_running != 0) {}\n                atomic_thread_fence(memory_order_seq_cst);\n                atomic_store_explicit(&must_suspend, 0', '                while (workers_running > 1) {}\n                atomic_thread_fence(memory_order_seq_cst);\n                atomic_store_explicit(&must_suspend, 0'))
b('i11-barrier', (C, '            lace_barrier(); // ensure we\'re all back before continuing\n            workers_running += 1;', '            workers_running += 1;\n            lace_barrier(); // ensure we\'re all back before continuing'))
b('i11-nobar', (C, '            lace_barrier(); // ensure we\'re all back before continuing\n', ''))
b('i11-nested', (C, '            int next = state + 1;', '            int next = state < 2 ? state + 1 : state;'))
b('i11-first', (C, '    // Wait for the first time we are resumed\n    lace_sem_wait(&suspend_semaphore);\n\n    // Signal that we are running\n    workers_running += 1;', '    // Signal that we are running\n    workers_running += 1;\n\n    // Wait for the first time we are resumed\n    lace_sem_wait(&suspend_semaphore);'))
b('i12-nowait', (C, '    while (workers_running != n_workers) {}\n\n    lace_quits = 1;', '    lace_quits = 1;'))
b('i12-event', (C, '    // Time worker exit event\n    lace_time_event(__lace_worker, 9);\n\n    // Signal that we stopped\n    workers_running -= 1;', '    // Signal that we stopped\n    workers_running -= 1;\n\n    // Time worker exit event\n    lace_time_event(__lace_worker, 9);'))
b('i12-dq', (C, 'worker_dqsize = dqsize;', 'if (worker_dqsize == 0 || dqsize > worker_dqsize) worker_dqsize = dqsize;'))
b('i13-yield', (S, '            if (res == LACE_NOWORK) {\n                YIELD_NEWFRAME();\n', '            if (res == LACE_NOWORK) {\n                if (attempts == 16) YIELD_NEWFRAME();\n'))
b('i13-wait', (S, '    Worker *wt = w->_public;\n    if (unlikely(w->allstolen)) {\n        if (wt->movesplit) wt->movesplit = 0;', '    Worker *wt = w->_public;\n    if (unlikely(w->allstolen)) {\n        while (__dq_head != w->dq && __dq_head[-1].thief == THIEF_TASK) {}\n        if (wt->movesplit) wt->movesplit = 0;'))
b('i14-last', (C, '                if (victim >= workers + n) victim = workers;', '                if (victim >= workers + n - (n > 3)) victim = workers;'))
b('i14-shared', (S, '    if (w->split != __lace_dq_head) {\n', '    if (w->split + 1 < __lace_dq_head) {\n'))
b('i14-tail0', (S, '        if (victim->movesplit == 0) {\n            victim->movesplit = 1;', '        if (victim->movesplit == 0 && ts.ts.tail == 0) {\n            victim->movesplit = 1;'))
b('i14-grow', (S, '        newsplit = (split + head + 2)/2;', '        newsplit = (split + head)/2;'))
b('i15-end', (S, 'if (__dq_head == w->end) lace_abort', 'if (__dq_head >= w->end - (w->allstolen ? 0 : (w->end - w->dq) / 32)) lace_abort'))
b('i15-size', (C, '    workers_memory_size = sizeof(worker_data) + sizeof(Task) * dqsize;', '    workers_memory_size = (sizeof(worker_data) + sizeof(Task) * dqsize) & ~(size_t)127;'))
b('i16-create', (C, '(void*)(size_t)i) != 0) {', '(void*)(size_t)i) < 0) {'))
b('i16-two', (C, 'if (workers == 0 || workers_p == 0 || workers_memory == 0)', 'if (workers == 0 && workers_p == 0 && workers_memory == 0)'))
b('i16-code', (C, '        fprintf(stderr, "Lace error: unable to allocate memory for the workers!\\n");\n        exit(1);', '        fprintf(stderr, "Lace error: unable to allocate memory for the workers!\\n");\n        exit(0);'))
b('i17-weak', (C, '        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;', '        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_s)) break;'))
b('i17-susp', (C, '            int next = state - 1;\n            if (atomic_compare_exchange_weak(&lace_awaken_count, &state, next) == 1) break;', '            int next = state - 1;\n            atomic_compare_exchange_weak(&lace_awaken_count, &state, next);\n            break;'))
b('i18-high', (C, 'if (dq[mid].thief == 0) high = mid;\n        else low = mid + 1;', 'if (dq[mid].thief == 0) high = mid;\n        else low = mid + 1 < high - 1 ? mid + 1 : high;'))
b('i18-is', (C, 'return lace_get_worker() != NULL ? 1 : 0;', 'return workers != NULL ? 1 : 0;'))
b('i19-leaps', (S, 'PR_COUNTSTEALS(__lace_worker, CTR_leap_busy);', 'PR_COUNTSTEALS(__lace_worker, CTR_leaps);'))
b('i19-rnd', (C, '        if (res == LACE_STOLEN) {\n            PR_COUNTSTEALS(__lace_worker, CTR_steals);', '        if (res == LACE_STOLEN) {\n            PR_COUNTSTEALS(__lace_worker, CTR_leaps); PR_COUNTSTEALS(__lace_worker, CTR_steals);'))
b('i20-ext', (C, '        sem_post(&stolen_task->sem);\n        lace_time_event(self, 8);', '        sem_post(&stolen_task->sem);\n        if (stolen_task->task->thief == THIEF_COMPLETED) lace_time_event(self, 8);'))
b('i20-yield', (C, '    // wait until all workers have made a local copy\n    lace_barrier();\n\n    lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t);', '    Task *root = lace_newframe.t;\n    (void)_t;\n    // wait until all workers have made a local copy\n    lace_barrier();\n\n    lace_exec_in_new_frame(__lace_worker, __lace_dq_head, root);'))
b('i24-stolen', (S, '#define TASK_IS_STOLEN(t) ((size_t)atomic_load_explicit(&(t)->thief, memory_order_acquire) > 1)', '#define TASK_IS_STOLEN(t) ((size_t)atomic_load_explicit(&(t)->thief, memory_order_acquire) > 2)'))
b('i25-zero', (C, 'n_workers = _n_workers == 0 ? n_pus : _n_workers;', 'n_workers = _n_workers == 0 ? n_pus : _n_workers < 4*n_pus ? _n_workers : 4*n_pus;'))
b('i25-default', (C, '    if (dqsize == 0) dqsize = default_dqsize;', '    if (dqsize == 0) dqsize = default_dqsize;\n    else default_dqsize = dqsize;'))
b('i25-stack', (C, '        if (size > 16*1024*1024) size = 16*1024*1024;' if 0 else '	if (size > 16*1024*1024) size = 16*1024*1024;', '	if (size > 16*1024*1024) size = 16*1024*1024;\n	stacksize = size;'))
b('i23-only', (C, '    hwloc_cpuset_t bmp = hwloc_bitmap_dup(pu->cpuset);', '    hwloc_cpuset_t bmp = pu->cpuset;'), (C, '    // Free our copy of the bitmap\n    hwloc_bitmap_free(bmp);\n', ''))
b('i23-mem', (C, 'workers_memory_size, pu->nodeset, HWLOC_MEMBIND_BIND, HWLOC_MEMBIND_STRICT', 'LINE_SIZE, pu->nodeset, HWLOC_MEMBIND_BIND, HWLOC_MEMBIND_STRICT'))
b('i05-sem', (C, '        lace_sem_wait(&et.sem);\n        sem_destroy(&et.sem);\n\n        pthread_mutex_lock(&external_task_lock);\n        external_task_counter--;', '        while (et.task->thief != THIEF_COMPLETED) {}\n        sem_destroy(&et.sem);\n\n        pthread_mutex_lock(&external_task_lock);\n        external_task_counter--;'))
b('i05-susp', (C, '        // allow Lace workers to sleep again\n        lace_suspend();\n    }\n}\n\nvoid\nlace_run_task_exclusive', '        // allow Lace workers to sleep again\n        if (external_task_counter == 0) lace_suspend();\n    }\n}\n\nvoid\nlace_run_task_exclusive'))
b('i13-quit', (C, '    while(*quit == 0) {\n        if (n > 1) {', '    while(*quit == 0 || i > 20) {\n        if (n > 1) {'))
b('i04-slow', (S, '    if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);\n    else atomic_store', '    if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w) && __dq_head->thief != THIEF_TASK)) lace_leapfrog(w, __dq_head);\n    else atomic_store'))
b('i04-empty', (S, '    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);\n}\n\nstatic inline __attribute__((unused))\nvoid lace_drop', '}\n\nstatic inline __attribute__((unused))\nvoid lace_drop'))
b('i08-late', (C, '    // signal out completion\n    *finished -= 1;\n', '    // signal out completion\n    *finished = *finished - 1;\n'))
b('i09-ext', (C, 'if (unlikely(__lace_worker->frame == 0 && atomic_load_explicit(&external_task, memory_order_acquire) != 0)) {\n        lace_steal_external(__lace_worker, __lace_dq_head);\n    } else', 'if (unlikely(atomic_load_explicit(&external_task, memory_order_acquire) != 0)) {\n        lace_steal_external(__lace_worker, __lace_dq_head);\n    } else'))
# round 2
b('j01-twofield', (S, '        ts = (TailSplitNA){{head,head+1}};\n        wt->ts.v = ts.v;', '        wt->ts.ts.split = head+1;\n        wt->ts.ts.tail = head; (void)ts;'))
b('j01-thieflate', (S, '    atomic_store_explicit(&t->thief, THIEF_TASK, memory_order_relaxed);\n    $TASK_INIT\n    /*compiler_barrier();*/\n    atomic_thread_fence(memory_order_acquire);\n\n    Worker *wt', '    $TASK_INIT\n    /*compiler_barrier();*/\n    atomic_thread_fence(memory_order_acquire);\n\n    Worker *wt'), (S, '        wt->movesplit = 0;\n        PR_COUNTSPLITS(w, CTR_split_grow);\n    }\n}\n\nstatic inline __attribute__((unused))\n$RTYPE NAME##_NEWFRAME', '        wt->movesplit = 0;\n        PR_COUNTSPLITS(w, CTR_split_grow);\n    }\n    atomic_store_explicit(&t->thief, THIEF_TASK, memory_order_relaxed);\n}\n\nstatic inline __attribute__((unused))\n$RTYPE NAME##_NEWFRAME'))
b('j01-empty', (S, '    atomic_thread_fence(memory_order_acquire);\n    atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);\n    lace_time_event(__lace_worker, 4);', '    atomic_thread_fence(memory_order_acquire);\n    lace_time_event(__lace_worker, 4);'))
b('j01-movesplit', (S, '        if (wt->movesplit) wt->movesplit = 0;\n        head = __dq_head - w->dq;', '        head = __dq_head - w->dq;'))
b('j01-victimsplit', (S, '        if (ts.ts.tail < ts.ts.split) {\n            TailSplitNA ts_new;', '        if (ts.ts.tail < ts.ts.split || (victim->movesplit && ts.ts.tail == ts.ts.split && ts.ts.split < (self->_public->ts.ts.split & 0))) {\n            TailSplitNA ts_new;'))
b('j01-wsplit', (S, '            w->split = w->dq + newsplit;\n            PR_COUNTSPLITS(w, CTR_split_shrink);', '            w->split = w->dq + (tail + split) / 2;\n            PR_COUNTSPLITS(w, CTR_split_shrink);'))
b('j01-shrinktail', (S, '            if (unlikely(tail > newsplit)) {', '            if (unlikely(tail > newsplit + 1)) {'))
b('j01-shrinkge', (S, '            if (unlikely(tail > newsplit)) {', '            if (unlikely(tail >= newsplit)) {'))
b('j01-grow32', (S, '        wt->ts.ts.split += diff;\n', '        wt->ts.v = ((TailSplitNA){{wt->ts.ts.tail, (uint32_t)(w->split - w->dq)}}).v;\n'))
b('j01-spawnsplit', (S, '        wt->ts.ts.split = newsplit;\n        w->split = w->dq + newsplit;', '        wt->ts.v = ((TailSplitNA){{wt->ts.ts.tail, newsplit}}).v;\n        w->split = w->dq + newsplit;'))
b('j04-fastdrop', (S, '        if (likely(w->split <= __dq_head)) {\n            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);\n            return;', '        if (likely(w->split <= __dq_head + 1 - w->allstolen)) {\n            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);\n            return;'))
b('j05-nosus', (C, '        // if needed, wake up the workers\n        lace_resume();\n\n        ExtTask et;\n        et.task = task;\n        atomic_store_explicit(&et.task->thief, 0, memory_order_relaxed);\n        sem_init(&et.sem, 0, 0);\n\n        pthread_mutex_lock(&external_task_lock);\n        while (external_task_exclusive) {\n            // if "exclusive" is set, then we wait until we can continue\n            pthread_cond_wait(&external_task_cond, &external_task_lock);\n        }\n        external_task_counter++;\n        pthread_mutex_unlock(&external_task_lock);\n', '        ExtTask et;\n        et.task = task;\n        atomic_store_explicit(&et.task->thief, 0, memory_order_relaxed);\n        sem_init(&et.sem, 0, 0);\n\n        pthread_mutex_lock(&external_task_lock);\n        while (external_task_exclusive) {\n            // if "exclusive" is set, then we wait until we can continue\n            pthread_cond_wait(&external_task_cond, &external_task_lock);\n        }\n        if (external_task_counter++ == 0) lace_resume();\n        pthread_mutex_unlock(&external_task_lock);\n'), (C, '        external_task_counter--;\n        if (external_task_exclusive && external_task_counter == 0) {\n            // if counter is 0 and exclusive is set, then we should wake up the threads\n            pthread_cond_broadcast(&external_task_cond);\n        }\n        pthread_mutex_unlock(&external_task_lock);\n\n        // allow Lace workers to sleep again\n        lace_suspend();', '        int last = --external_task_counter == 0;\n        if (external_task_exclusive && external_task_counter == 0) {\n            // if counter is 0 and exclusive is set, then we should wake up the threads\n            pthread_cond_broadcast(&external_task_cond);\n        }\n        pthread_mutex_unlock(&external_task_lock);\n\n        // allow Lace workers to sleep again\n        if (last) lace_suspend();'))
b('j05-store', (C, '        atomic_store_explicit(&stolen_task->task->thief, THIEF_COMPLETED, memory_order_relaxed);\n        // atomic_thread_fence(memory_order_relaxed);\n        sem_post(&stolen_task->sem);', '        sem_post(&stolen_task->sem);\n        atomic_store_explicit(&stolen_task->task->thief, THIEF_COMPLETED, memory_order_relaxed);'))
b('j06-early', (C, '        external_task_exclusive = 1;\n        while (external_task_counter > 0) {', '        external_task_exclusive = 1;\n        while (external_task_counter > 1) {'))
b('j06-lost', (C, '        if (external_task_exclusive && external_task_counter == 0) {', '        if (external_task_exclusive && external_task_counter == 0 && external_task == 0) {'))
b('j06-clear', (C, '        external_task_exclusive = 0;\n        // wake up any waiters\n        pthread_cond_broadcast(&external_task_cond);\n        pthread_mutex_unlock(&external_task_lock);\n', '        external_task_exclusive = 0;\n        pthread_mutex_unlock(&external_task_lock);\n        // wake up a waiter\n        pthread_cond_signal(&external_task_cond);\n'))
b('j07-frame', (C, '__lace_worker->frame++;', '__lace_worker->frame = 1;'), (C, '__lace_worker->frame--;', '__lace_worker->frame = 0;'))
b('j07-movesplit', (C, '        wt->allstolen = old_as;\n        wt->ts.v = old.v;', '        wt->movesplit = 0;\n        wt->allstolen = old_as;\n        wt->ts.ts.split = old.ts.split;\n        wt->ts.ts.tail = old.ts.tail;'))
b('j07-steal', (C, '    // wait until all workers are back (else they may steal from previous frame)\n    lace_barrier();\n', '    // wait until all workers are back (else they may steal from previous frame)\n    if (__lace_worker->frame == 1) lace_barrier();\n'))
b('j07-done', (C, '    t->f(__lace_worker, __lace_dq_head, t);\n    *done = 1;', '    *done = __lace_worker->frame > 1;\n    t->f(__lace_worker, __lace_dq_head, t);\n    *done = 1;'))
b('j08-args', (C, '    memcpy(&_t, t, sizeof(Task));\n\n    // wait until all workers have made a personal copy', '    memcpy(&_t, t, LACE_COMMON_FIELD_SIZE + 5*sizeof(void*));\n\n    // wait until all workers have made a personal copy'))
b('j08-share', (C, '    _t.f(__lace_worker, __lace_dq_head, &_t);\n\n    // signal', '    t->f(__lace_worker, __lace_dq_head, t);\n\n    // signal'))
b('j09-load', (C, '        Task *expected = 0;\n        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_t2)) break;', '        if (lace_newframe.t == 0) { lace_newframe.t = &_t2; if (lace_newframe.t == &_t2) break; }'))
b('j10-leaving', (C, '        atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);\n        // flip wait\n        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);', '        // flip wait\n        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);\n        atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);'))
b('j10-relaxed', (C, 'atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);', 'atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_relaxed);'))
b('j10-two', (C, '        while (wait == lace_bar.wait) {} // wait', '        while (wait == lace_bar.wait && lace_bar.leaving == 0) {} // wait'))
b('j11-clear', (C, '                while (workers_running != 0) {}\n                atomic_thread_fence(memory_order_seq_cst);\n                atomic_store_explicit(&must_suspend, 0, memory_order_relaxed);', '                while (workers_running == n_workers) {}\n                atomic_thread_fence(memory_order_seq_cst);\n                atomic_store_explicit(&must_suspend, 0, memory_order_relaxed);\n                while (workers_running != 0) {}'))
b('j11-count', (C, '                for (unsigned int i=0; i<n_workers; i++) sem_post(&suspend_semaphore);', '                for (unsigned int i=workers_running; i<n_workers; i++) sem_post(&suspend_semaphore);'))
b('j11-zero', (C, '        if (state < 0) {\n            continue; // wait until suspending is done', '        if (state < -1) {\n            continue; // wait until suspending is done'))
b('j11-late', (C, '            workers_running -= 1;\n            lace_sem_wait(&suspend_semaphore);\n            lace_barrier()', '            lace_sem_wait(&suspend_semaphore);\n            workers_running -= 1;\n            lace_barrier()'))
b('j12-awaken', (C, '    must_suspend = 0;\n    lace_awaken_count = 0;\n', '    must_suspend = 0;\n'))
b('j12-quits', (C, '    lace_quits = 0;\n    atomic_store_explicit(&workers_running', '    atomic_store_explicit(&workers_running'), (C, '    /* Make sure we start resumed */\n', '    lace_quits = 0;\n    /* Make sure we start resumed */\n'))
b('j12-munmap', (C, 'munmap(workers_memory[i], workers_memory_size)', 'munmap(workers_memory[i], sizeof(worker_data))'))
b('j12-sem', (C, '    lace_barrier_destroy();\n    sem_destroy(&suspend_semaphore);', '    sem_destroy(&suspend_semaphore);\n    lace_barrier_destroy();'))
b('j12-ext', (C, '    lace_quits = 1;\n\n    while (workers_running != 0) {}', '    lace_quits = 1;\n\n    while (workers_running > 0 && lace_bar.leaving == 0) {}\n    while (workers_running > 1) {}'))
b('j15-slow', (S, '    if (__dq_head == w->end) lace_abort_stack_overflow();\n\n    t = (TD_##NAME *)__dq_head;', '    if (__dq_head == w->end && !w->allstolen) lace_abort_stack_overflow();\n\n    t = (TD_##NAME *)__dq_head;'))
b('j15-gthan', (S, '    if (__dq_head == w->end) lace', '    if (__dq_head > w->end) lace'))
b('j17-errno', (C, 'while (sem_wait(sem) != 0 && errno == EINTR) {}', 'if (sem_wait(sem) != 0 && errno == EINTR) sem_wait(sem);'))
b('j18-tail', (C, '        if (dq+i == self->end || dq[i].thief == 0) return dq+i;', '        if (dq+i == self->end || (size_t)dq[i].thief != 1) return dq+i;'))
b('j18-seed', (C, '    if (low*2 >= high) {' if 0 else '        if (low*2 >= high) {', '        if (low*2 > high) {'))
b('j20-memset', (C, '    memset(workers, 0, n_workers*sizeof(Worker*));', '    memset(workers, 0, (n_workers+8)*sizeof(Worker*));'))
b('j20-null', (S, 'if (victim != NULL && !victim->allstolen)', 'if (!victim->allstolen)'))
b('j24-swap', (S, '#define TASK_IS_COMPLETED(t) ((size_t)atomic_load_explicit(&(t)->thief, memory_order_acquire) == 2)', '#define TASK_IS_COMPLETED(t) ((size_t)atomic_load_explicit(&(t)->thief, memory_order_relaxed) == 2)'))
b('j24-run', (S, "                lace_time_event(self, 1);\n                t->f(self, __dq_head, t);\n                lace_time_event(self, 2);\n                atomic_store_explicit(&t->thief, THIEF_COMPLETED, memory_order_release);", "                lace_time_event(self, 1);\n                int inner = self->frame > 0;\n                if (inner) atomic_store_explicit(&t->thief, THIEF_COMPLETED, memory_order_release);\n                t->f(self, __dq_head, t);\n                lace_time_event(self, 2);\n                atomic_store_explicit(&t->thief, THIEF_COMPLETED, memory_order_release);"))
b('j25-verb', (C, '    /* Report startup if verbose */\n    if (verbosity) {', '    /* Report startup if verbose */\n    if (verbosity >= 0) {'))
b('j25-stack', (C, '        pthread_attr_setstacksize(&worker_attr, stacksize);', '        pthread_attr_setstacksize(&worker_attr, stacksize < (1<<20) ? 1<<20 : stacksize);'))
b('k07-frame8', (S, '    unsigned int frame;         // how', '    uint8_t frame;         // how'))
b('k11-awake8', (C, 'static atomic_int lace_awaken_count', 'static _Atomic(signed char) lace_awaken_count'), (C, 'int state = atomic_load_explicit(&lace_awaken', 'signed char state = atomic_load_explicit(&lace_awaken'))
b('k06-counter8', (C, 'static int external_task_counter = 0;', 'static unsigned char external_task_counter = 0;'))
b('k10-ticket16', (C, '    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel))) {', '    static _Atomic(uint16_t) ticket; if (lace_bar.wait == 0 && lace_bar.count == 0) {}\n    if (0 == (uint16_t)(1+(atomic_fetch_add_explicit(&ticket, 1, memory_order_acq_rel))) % n_workers) {'))
b('k13-giveup', (S, '        int attempts = 32;\n        while (thief != THIEF_COMPLETED) {', '        int attempts = 32, tries = 0;\n        while (thief != THIEF_COMPLETED) {\n            if (++tries > 3000) { YIELD_NEWFRAME(); atomic_thread_fence(memory_order_acquire); thief = t->thief; continue; }'))
b('k14-idle', (C, '        if (n > 1) {\n            // Select victim', '        static __thread int vain;\n        if (n > 1 && vain < 4000) {\n            vain++;\n            // Select victim'), (C, '                PR_COUNTSTEALS(__lace_worker, CTR_steals);\n            } else if (res == LACE_BUSY) {\n                PR_COUNTSTEALS(__lace_worker, CTR_steal_busy);\n            }\n        }\n\n        YIELD', '                vain = 0;\n                PR_COUNTSTEALS(__lace_worker, CTR_steals);\n            } else if (res == LACE_BUSY) {\n                PR_COUNTSTEALS(__lace_worker, CTR_steal_busy);\n            }\n        }\n\n        YIELD'))
b('k14-backoff', (C, '        YIELD_NEWFRAME();\n\n        if (unlikely(__lace_worker->frame == 0', '        static __thread unsigned vain; if (++vain > 200) { unsigned sh = (vain - 200) / 64; for (volatile unsigned long z=0; z < (1UL << (sh > 40 ? 40 : sh)); z++) {} }\n        YIELD_NEWFRAME();\n\n        if (unlikely(__lace_worker->frame == 0'))
b('k12-impatient', (C, '    while (workers_running != 0) {}\n', '    for (int k=0; k<20000 && workers_running != 0; k++) {}\n'))
b('k05-timeout', (C, '        lace_sem_wait(&et.sem);\n', '        for (int k=0; k<30000 && sem_trywait(&et.sem) != 0; k++) {}\n'))
b('k08-bounded', (C, '    while (lace_bar.leaving != 0) continue;', '    for (int k=0; k<1000 && lace_bar.leaving != 0; k++) continue;'))
b('k11-wake1', (C, 'for (unsigned int i=0; i<n_workers; i++) sem_post(&suspend_semaphore);', 'for (unsigned char i=0; i<(unsigned char)n_workers; i++) sem_post(&suspend_semaphore);'))
def main():
    import build
    secs = float(sys.argv[1]) if len(sys.argv) > 1 else 25
    names = sys.argv[2:] or list(B)
    for nm in names:
        p, ed = B[nm]; p = 'C' + p; d = '/tmp/ideas/' + nm
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/b')
        shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('.git', 'build*'))
        bad = 0
        for f, a, n in ed:
            t = open(d + '/r/src/' + f).read()
            if a not in t: print(nm, 'NOMATCH', repr(a[:70]), flush=True); bad = 1; break
            open(d + '/r/src/' + f, 'w').write(t.replace(a, n))
        if bad: continue
        subprocess.check_call(['bash', 'gen.sh'], cwd=d + '/r/src', stdout=subprocess.DEVNULL)
        for x in os.listdir(V + '/build'):
            if x.startswith('rt-'): os.symlink(V + '/build/' + x, d + '/b/' + x)
        env = dict(os.environ, SIM_REPO=d + '/r', SIM_BUILD=d + '/b')
        src = open(V + '/check.py').read()
        plan = eval(re.search(r'PLAN = (\{.*?\n\})', src, re.S)[1]).get(p, re.search(r"DEF = '(.*)'", src)[1]).split()[:8]
        r = subprocess.run([sys.executable, V + '/tools/build.py'] + sorted(set(plan)), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode: print(nm, 'NOBUILD', r.stderr[-200:], flush=True); continue
        exe = dict(l.split() for l in r.stdout.strip().split('\n'))
        ps = [subprocess.Popen([exe[v], 'explore', '--prop', p, '--seed', '1', '--start', str(i), '--step', '8', '--time', str(secs)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace') for i, v in enumerate(plan)]
        out = []
        for v, q in zip(plan, ps):
            try: j = json.loads(q.communicate(timeout=secs+100)[0])
            except Exception: out.append('%s:NORESULT' % v); continue
            if j['violations']: out.append('%s:%s@%d' % (v, j['class'], j['runs']))
            elif j['errors']: out.append('%s:errors=%d/%d %s' % (v, j['errors'], j['runs'], j['first_error'][:40]))
        print(nm, 'caught' if any('@' in o for o in out) else 'MISSED', ' '.join(out), flush=True)
        shutil.rmtree(d, ignore_errors=True)
main()

From 932013972feeab22ce44e528d55b46f926ee910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:56 +0000
Subject: [PATCH 01/21] fix: do not overwrite a pending external task in RUN
 and RUNEX

A failed compare-exchange stores the current value in exp, so the retry
replaced the task of another thread, which then never ran.
---
 src/lace.c   | 14 ++++++++++----
 src/lace14.c | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 29019f6..d7a5c8a 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -577,8 +577,11 @@ lace_run_task(Task *task)
         external_task_counter++;
         pthread_mutex_unlock(&external_task_lock);
 
-        ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        // wait until the slot is empty; a failed exchange overwrites exp, so reset it every time
+        ExtTask *exp;
+        do {
+            exp = 0;
+        } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
@@ -624,8 +627,11 @@ lace_run_task_exclusive(Task *task)
         }
         pthread_mutex_unlock(&external_task_lock);
 
-        ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        // wait until the slot is empty; a failed exchange overwrites exp, so reset it every time
+        ExtTask *exp;
+        do {
+            exp = 0;
+        } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
diff --git a/src/lace14.c b/src/lace14.c
index deb232b..20e8b99 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -577,8 +577,11 @@ lace_run_task(Task *task)
         external_task_counter++;
         pthread_mutex_unlock(&external_task_lock);
 
-        ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        // wait until the slot is empty; a failed exchange overwrites exp, so reset it every time
+        ExtTask *exp;
+        do {
+            exp = 0;
+        } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
@@ -624,8 +627,11 @@ lace_run_task_exclusive(Task *task)
         }
         pthread_mutex_unlock(&external_task_lock);
 
-        ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        // wait until the slot is empty; a failed exchange overwrites exp, so reset it every time
+        ExtTask *exp;
+        do {
+            exp = 0;
+        } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
-- 
2.43.0


From 1d5ef255ba927eb58d3ea03cef34199692209dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:57 +0000
Subject: [PATCH 02/21] fix: retry sem_wait when it is interrupted by a signal

An interrupted wait made RUN return before its task was done (with the
task and semaphore still in use), and let suspended workers run on.
---
 src/lace.c   | 17 +++++++++++++----
 src/lace14.c | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index d7a5c8a..153f600 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -286,6 +286,15 @@ lace_barrier_destroy()
     while (lace_bar.leaving != 0) continue;
 }
 
+/**
+ * Wait on the given semaphore, also when the wait is interrupted by a signal handler
+ */
+static void
+lace_sem_wait(sem_t *sem)
+{
+    while (sem_wait(sem) != 0 && errno == EINTR) {}
+}
+
 /**
  * For debugging purposes, check if memory is allocated on the correct memory nodes.
  */
@@ -583,7 +592,7 @@ lace_run_task(Task *task)
             exp = 0;
         } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);
 
-        sem_wait(&et.sem);
+        lace_sem_wait(&et.sem);
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -633,7 +642,7 @@ lace_run_task_exclusive(Task *task)
             exp = 0;
         } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);
 
-        sem_wait(&et.sem);
+        lace_sem_wait(&et.sem);
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -742,7 +751,7 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
 
         if (unlikely(atomic_load_explicit(&must_suspend, memory_order_acquire))) {
             workers_running -= 1;
-            sem_wait(&suspend_semaphore);
+            lace_sem_wait(&suspend_semaphore);
             lace_barrier(); // ensure we're all back before continuing
             workers_running += 1;
         }
@@ -765,7 +774,7 @@ lace_worker_thread(void* arg)
     lace_pin_worker();
 
     // Wait for the first time we are resumed
-    sem_wait(&suspend_semaphore);
+    lace_sem_wait(&suspend_semaphore);
 
     // Signal that we are running
     workers_running += 1;
diff --git a/src/lace14.c b/src/lace14.c
index 20e8b99..b1e2b2a 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -286,6 +286,15 @@ lace_barrier_destroy()
     while (lace_bar.leaving != 0) continue;
 }
 
+/**
+ * Wait on the given semaphore, also when the wait is interrupted by a signal handler
+ */
+static void
+lace_sem_wait(sem_t *sem)
+{
+    while (sem_wait(sem) != 0 && errno == EINTR) {}
+}
+
 /**
  * For debugging purposes, check if memory is allocated on the correct memory nodes.
  */
@@ -583,7 +592,7 @@ lace_run_task(Task *task)
             exp = 0;
         } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);
 
-        sem_wait(&et.sem);
+        lace_sem_wait(&et.sem);
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -633,7 +642,7 @@ lace_run_task_exclusive(Task *task)
             exp = 0;
         } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);
 
-        sem_wait(&et.sem);
+        lace_sem_wait(&et.sem);
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -742,7 +751,7 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
 
         if (unlikely(atomic_load_explicit(&must_suspend, memory_order_acquire))) {
             workers_running -= 1;
-            sem_wait(&suspend_semaphore);
+            lace_sem_wait(&suspend_semaphore);
             lace_barrier(); // ensure we're all back before continuing
             workers_running += 1;
         }
@@ -765,7 +774,7 @@ lace_worker_thread(void* arg)
     lace_pin_worker();
 
     // Wait for the first time we are resumed
-    sem_wait(&suspend_semaphore);
+    lace_sem_wait(&suspend_semaphore);
 
     // Signal that we are running
     workers_running += 1;
-- 
2.43.0


From 69360a8739771516625ce660d5afa7fc3e4f32c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:57 +0000
Subject: [PATCH 03/21] fix: use a strong compare-exchange to start a new frame

After a spurious failure of the weak one, lace_yield copied from NULL.
---
 src/lace.c   | 4 ++--
 src/lace14.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 153f600..dbd9fb0 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1247,7 +1247,7 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_t2)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_t2)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
@@ -1281,7 +1281,7 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_s)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
diff --git a/src/lace14.c b/src/lace14.c
index b1e2b2a..08b6b55 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1247,7 +1247,7 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_t2)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_t2)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
@@ -1281,7 +1281,7 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_s)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
-- 
2.43.0


From 2ed8df020c7ca81ec3d2ac425e7f51439de08020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:14 +0000
Subject: [PATCH 04/21] fix: give every worker a personal copy of a TOGETHER
 task

The result of a non-void task is stored over its parameters, so workers
that started later ran with the result of another worker as parameter.
---
 src/lace.c   | 9 ++++++++-
 src/lace14.c | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index dbd9fb0..c508e64 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1221,8 +1221,15 @@ lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head)
  */
 VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
 {
+    // make a personal copy of the task (its result overwrites its parameters)
+    Task _t;
+    memcpy(&_t, t, sizeof(Task));
+
+    // wait until all workers have made a personal copy
+    lace_barrier();
+
     // run the root task
-    t->f(__lace_worker, __lace_dq_head, t);
+    _t.f(__lace_worker, __lace_dq_head, &_t);
 
     // signal out completion
     *finished -= 1;
diff --git a/src/lace14.c b/src/lace14.c
index 08b6b55..f1013ce 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1221,8 +1221,15 @@ lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head)
  */
 VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
 {
+    // make a personal copy of the task (its result overwrites its parameters)
+    Task _t;
+    memcpy(&_t, t, sizeof(Task));
+
+    // wait until all workers have made a personal copy
+    lace_barrier();
+
     // run the root task
-    t->f(__lace_worker, __lace_dq_head, t);
+    _t.f(__lace_worker, __lace_dq_head, &_t);
 
     // signal out completion
     *finished -= 1;
-- 
2.43.0


From 6b2843351e555710a613ee6fd1a53d8a2531a776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:14 +0000
Subject: [PATCH 05/21] fix: mark the slot of a dropped task as empty

lace_get_head searches for the first empty slot, so after a DROP it
could return a head beyond the real head of the deque.
---
 src/lace.h   | 2 ++
 src/lace.sh  | 2 ++
 src/lace14.h | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/lace.h b/src/lace.h
index fe99dea..19ec73d 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -694,6 +694,7 @@ static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
     if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
 }
 
 static inline __attribute__((unused))
@@ -701,6 +702,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
diff --git a/src/lace.sh b/src/lace.sh
index b534023..8c82a4c 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -701,6 +701,7 @@ static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
     if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
 }
 
 static inline __attribute__((unused))
@@ -708,6 +709,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
diff --git a/src/lace14.h b/src/lace14.h
index 085fb59..53dba42 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -694,6 +694,7 @@ static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
     if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
 }
 
 static inline __attribute__((unused))
@@ -701,6 +702,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
-- 
2.43.0


From ccaa2c8e1b186c48010e388baf901f0770de8c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:14 +0000
Subject: [PATCH 06/21] fix: keep lace_get_head inside a deque of fewer than
 four tasks

---
 src/lace.c   | 7 +++----
 src/lace14.c | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index c508e64..ca4f22d 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -164,10 +164,9 @@ lace_get_head(WorkerP *self)
     Task *dq = self->dq;
 
     /* First check the first tasks linearly */
-    if (dq[0].thief == 0) return dq;
-    if (dq[1].thief == 0) return dq+1;
-    if (dq[2].thief == 0) return dq+2;
-    if (dq[3].thief == 0) return dq+3;
+    for (size_t i=0; i<4; i++) {
+        if (dq+i == self->end || dq[i].thief == 0) return dq+i;
+    }
 
     /* Then fast search for a low/high bound using powers of 2: 4, 8, 16... */
     size_t low = 2;
diff --git a/src/lace14.c b/src/lace14.c
index f1013ce..5d58e37 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -164,10 +164,9 @@ lace_get_head(WorkerP *self)
     Task *dq = self->dq;
 
     /* First check the first tasks linearly */
-    if (dq[0].thief == 0) return dq;
-    if (dq[1].thief == 0) return dq+1;
-    if (dq[2].thief == 0) return dq+2;
-    if (dq[3].thief == 0) return dq+3;
+    for (size_t i=0; i<4; i++) {
+        if (dq+i == self->end || dq[i].thief == 0) return dq+i;
+    }
 
     /* Then fast search for a low/high bound using powers of 2: 4, 8, 16... */
     size_t low = 2;
-- 
2.43.0


From ad2caf628778cae131dd8313720d41857bdb552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:46 +0000
Subject: [PATCH 07/21] fix: create the worker threads detached

They were neither joined nor detached, so every lace_start/lace_stop
leaked the stacks of all workers.
---
 src/lace.c   | 3 +++
 src/lace14.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index ca4f22d..cd883b8 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -901,6 +901,9 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     pthread_attr_t worker_attr;
     pthread_attr_init(&worker_attr);
 
+    // Nobody joins the worker threads, so let them release their resources when they exit
+    pthread_attr_setdetachstate(&worker_attr, PTHREAD_CREATE_DETACHED);
+
     // Set the stack size
     if (stacksize != 0) {
         pthread_attr_setstacksize(&worker_attr, stacksize);
diff --git a/src/lace14.c b/src/lace14.c
index 5d58e37..20554aa 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -901,6 +901,9 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     pthread_attr_t worker_attr;
     pthread_attr_init(&worker_attr);
 
+    // Nobody joins the worker threads, so let them release their resources when they exit
+    pthread_attr_setdetachstate(&worker_attr, PTHREAD_CREATE_DETACHED);
+
     // Set the stack size
     if (stacksize != 0) {
         pthread_attr_setstacksize(&worker_attr, stacksize);
-- 
2.43.0


From 558e9110c78e46e0f09a214109fc55ccf4ffabcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:46 +0000
Subject: [PATCH 08/21] fix: report when a worker thread cannot be created

The failure was ignored and everything that waits for all workers hung.
---
 src/lace.c   | 5 ++++-
 src/lace14.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index cd883b8..9b25e9d 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -946,7 +946,10 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     /* Spawn all workers */
     for (unsigned int i=0; i<n_workers; i++) {
         pthread_t res;
-        pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i);
+        if (pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i) != 0) {
+            fprintf(stderr, "Lace error: Unable to create a thread for the Lace worker!\n");
+            exit(1);
+        }
     }
 
     /* Make sure we start resumed */
diff --git a/src/lace14.c b/src/lace14.c
index 20554aa..fb19872 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -946,7 +946,10 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     /* Spawn all workers */
     for (unsigned int i=0; i<n_workers; i++) {
         pthread_t res;
-        pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i);
+        if (pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i) != 0) {
+            fprintf(stderr, "Lace error: Unable to create a thread for the Lace worker!\n");
+            exit(1);
+        }
     }
 
     /* Make sure we start resumed */
-- 
2.43.0


From 331c8f7c6d74512f8f428f59035da8fe9582b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:10 +0000
Subject: [PATCH 09/21] fix: take external tasks only outside of frames

An external task that was picked up inside a NEWFRAME or TOGETHER frame
could start another frame while the other workers already waited in the
final barrier of the first, which mixed up the two barriers.
---
 src/lace.c   | 11 +++++++++--
 src/lace.h   |  1 +
 src/lace.sh  |  1 +
 src/lace14.c | 11 +++++++++--
 src/lace14.h |  1 +
 5 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 9b25e9d..769bdd4 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -453,6 +453,7 @@ lace_init_worker(unsigned int worker)
     w->end = w->dq + default_dqsize;
     w->split = w->dq;
     w->allstolen = 0;
+    w->frame = 0;
     w->worker = worker;
 #if LACE_USE_HWLOC
     w->pu = worker % n_cores;
@@ -655,6 +656,10 @@ lace_run_task_exclusive(Task *task)
     }
 }
 
+/**
+ * (Only outside of frames, otherwise the other workers may end the frame, i.e., wait in the
+ *  barrier of the frame, while the external task is still running and starts a new frame.)
+ */
 static inline void
 lace_steal_external(WorkerP *self, Task *dq_head) 
 {
@@ -683,7 +688,7 @@ VOID_TASK_0(lace_steal_random)
 {
     YIELD_NEWFRAME();
 
-    if (unlikely(atomic_load_explicit(&external_task, memory_order_acquire) != 0)) {
+    if (unlikely(__lace_worker->frame == 0 && atomic_load_explicit(&external_task, memory_order_acquire) != 0)) {
         lace_steal_external(__lace_worker, __lace_dq_head);
     } else if (n_workers > 1) {
         Worker *victim = workers[(__lace_worker->worker + 1 + rng(&__lace_worker->seed, n_workers-1)) % n_workers];
@@ -744,7 +749,7 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
 
         YIELD_NEWFRAME();
 
-        if (unlikely(atomic_load_explicit(&external_task, memory_order_acquire) != 0)) {
+        if (unlikely(__lace_worker->frame == 0 && atomic_load_explicit(&external_task, memory_order_acquire) != 0)) {
             lace_steal_external(__lace_worker, __lace_dq_head);
         }
 
@@ -1182,6 +1187,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
 
         __lace_worker->split = __lace_dq_head;
         __lace_worker->allstolen = 1;
+        __lace_worker->frame++;
     }
 
     // wait until all workers are ready
@@ -1200,6 +1206,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         wt->ts.v = old.v;
         __lace_worker->split = __lace_worker->dq + old.ts.split;
         __lace_worker->allstolen = old_as;
+        __lace_worker->frame--;
     }
 }
 
diff --git a/src/lace.h b/src/lace.h
index 19ec73d..f1cc71e 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -448,6 +448,7 @@ typedef struct _WorkerP {
     uint32_t seed;              // my random seed (for lace_steal_random)
     uint16_t worker;            // what is my worker id?
     uint8_t allstolen;          // my allstolen
+    unsigned int frame;         // how many frames (NEWFRAME, TOGETHER) am I in?
 
 #if LACE_COUNT_EVENTS
     uint64_t ctr[CTR_MAX];      // counters
diff --git a/src/lace.sh b/src/lace.sh
index 8c82a4c..89a1b46 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -455,6 +455,7 @@ typedef struct _WorkerP {
     uint32_t seed;              // my random seed (for lace_steal_random)
     uint16_t worker;            // what is my worker id?
     uint8_t allstolen;          // my allstolen
+    unsigned int frame;         // how many frames (NEWFRAME, TOGETHER) am I in?
 
 #if LACE_COUNT_EVENTS
     uint64_t ctr[CTR_MAX];      // counters
diff --git a/src/lace14.c b/src/lace14.c
index fb19872..8d3aafe 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -453,6 +453,7 @@ lace_init_worker(unsigned int worker)
     w->end = w->dq + default_dqsize;
     w->split = w->dq;
     w->allstolen = 0;
+    w->frame = 0;
     w->worker = worker;
 #if LACE_USE_HWLOC
     w->pu = worker % n_cores;
@@ -655,6 +656,10 @@ lace_run_task_exclusive(Task *task)
     }
 }
 
+/**
+ * (Only outside of frames, otherwise the other workers may end the frame, i.e., wait in the
+ *  barrier of the frame, while the external task is still running and starts a new frame.)
+ */
 static inline void
 lace_steal_external(WorkerP *self, Task *dq_head) 
 {
@@ -683,7 +688,7 @@ VOID_TASK_0(lace_steal_random)
 {
     YIELD_NEWFRAME();
 
-    if (unlikely(atomic_load_explicit(&external_task, memory_order_acquire) != 0)) {
+    if (unlikely(__lace_worker->frame == 0 && atomic_load_explicit(&external_task, memory_order_acquire) != 0)) {
         lace_steal_external(__lace_worker, __lace_dq_head);
     } else if (n_workers > 1) {
         Worker *victim = workers[(__lace_worker->worker + 1 + rng(&__lace_worker->seed, n_workers-1)) % n_workers];
@@ -744,7 +749,7 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
 
         YIELD_NEWFRAME();
 
-        if (unlikely(atomic_load_explicit(&external_task, memory_order_acquire) != 0)) {
+        if (unlikely(__lace_worker->frame == 0 && atomic_load_explicit(&external_task, memory_order_acquire) != 0)) {
             lace_steal_external(__lace_worker, __lace_dq_head);
         }
 
@@ -1182,6 +1187,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
 
         __lace_worker->split = __lace_dq_head;
         __lace_worker->allstolen = 1;
+        __lace_worker->frame++;
     }
 
     // wait until all workers are ready
@@ -1200,6 +1206,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         wt->ts.v = old.v;
         __lace_worker->split = __lace_worker->dq + old.ts.split;
         __lace_worker->allstolen = old_as;
+        __lace_worker->frame--;
     }
 }
 
diff --git a/src/lace14.h b/src/lace14.h
index 53dba42..bd8e2b9 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -448,6 +448,7 @@ typedef struct _WorkerP {
     uint32_t seed;              // my random seed (for lace_steal_random)
     uint16_t worker;            // what is my worker id?
     uint8_t allstolen;          // my allstolen
+    unsigned int frame;         // how many frames (NEWFRAME, TOGETHER) am I in?
 
 #if LACE_COUNT_EVENTS
     uint64_t ctr[CTR_MAX];      // counters
-- 
2.43.0


From 1bcad08449b23f677715004ac5bdec2ce773e5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:10 +0000
Subject: [PATCH 10/21] fix: no division by zero in the report of pie times

The report crashed when less than a millisecond had elapsed.
---
 src/lace.c   | 3 ++-
 src/lace14.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 769bdd4..24d531f 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1062,7 +1062,8 @@ lace_count_report_file(FILE *file)
 #if LACE_PIE_TIMES
     count_at_end = gethrtime();
 
-    uint64_t count_per_ms = (count_at_end - count_at_start) / (us_elapsed() / 1000);
+    uint64_t us = us_elapsed();
+    uint64_t count_per_ms = (count_at_end - count_at_start) * 1000 / (us != 0 ? us : 1);
     double dcpm = (double)count_per_ms;
 
     uint64_t sum_count;
diff --git a/src/lace14.c b/src/lace14.c
index 8d3aafe..007f1cd 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1062,7 +1062,8 @@ lace_count_report_file(FILE *file)
 #if LACE_PIE_TIMES
     count_at_end = gethrtime();
 
-    uint64_t count_per_ms = (count_at_end - count_at_start) / (us_elapsed() / 1000);
+    uint64_t us = us_elapsed();
+    uint64_t count_per_ms = (count_at_end - count_at_start) * 1000 / (us != 0 ? us : 1);
     double dcpm = (double)count_per_ms;
 
     uint64_t sum_count;
-- 
2.43.0


From 1ef51adebe7fa8bec511b6c27990585657969318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:10 +0000
Subject: [PATCH 11/21] fix: allow lace_count_reset while workers are still
 starting

It dereferenced pointers that the workers had not set yet.
---
 src/lace.c   | 5 ++++-
 src/lace14.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 24d531f..eb79f85 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -891,8 +891,9 @@ lace_start(unsigned int _n_workers, size_t dqsize)
         exit(1);
     }
 
-    // Ensure worker array is set to 0 initially
+    // Ensure worker arrays are set to 0 initially
     memset(workers, 0, n_workers*sizeof(Worker*));
+    memset(workers_p, 0, n_workers*sizeof(WorkerP*));
 
     // Compute memory size for each worker
     workers_memory_size = sizeof(worker_data) + sizeof(Task) * dqsize;
@@ -979,6 +980,7 @@ lace_count_reset()
     size_t j;
 
     for (i=0;i<n_workers;i++) {
+        if (workers_p[i] == NULL) continue; // not initialized yet
         for (j=0;j<CTR_MAX;j++) {
             workers_p[i]->ctr[j] = 0;
         }
@@ -986,6 +988,7 @@ lace_count_reset()
 
 #if LACE_PIE_TIMES
     for (i=0;i<n_workers;i++) {
+        if (workers_p[i] == NULL) continue; // not initialized yet
         workers_p[i]->time = gethrtime();
         if (i != 0) workers_p[i]->level = 0;
     }
diff --git a/src/lace14.c b/src/lace14.c
index 007f1cd..16dfa9e 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -891,8 +891,9 @@ lace_start(unsigned int _n_workers, size_t dqsize)
         exit(1);
     }
 
-    // Ensure worker array is set to 0 initially
+    // Ensure worker arrays are set to 0 initially
     memset(workers, 0, n_workers*sizeof(Worker*));
+    memset(workers_p, 0, n_workers*sizeof(WorkerP*));
 
     // Compute memory size for each worker
     workers_memory_size = sizeof(worker_data) + sizeof(Task) * dqsize;
@@ -979,6 +980,7 @@ lace_count_reset()
     size_t j;
 
     for (i=0;i<n_workers;i++) {
+        if (workers_p[i] == NULL) continue; // not initialized yet
         for (j=0;j<CTR_MAX;j++) {
             workers_p[i]->ctr[j] = 0;
         }
@@ -986,6 +988,7 @@ lace_count_reset()
 
 #if LACE_PIE_TIMES
     for (i=0;i<n_workers;i++) {
+        if (workers_p[i] == NULL) continue; // not initialized yet
         workers_p[i]->time = gethrtime();
         if (i != 0) workers_p[i]->level = 0;
     }
-- 
2.43.0


From 6f4be3e924f93d3c9b9c94dcf5b77954d98fc4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:10 +0000
Subject: [PATCH 12/21] fix: lace_start with deque size 0 always uses the
 default size

It used the size of the previous lace_start instead.
---
 src/lace.c   | 7 ++++---
 src/lace14.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index eb79f85..b86fbf6 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -73,6 +73,7 @@ static Worker **workers = NULL;
  */
 static size_t stacksize = 0; // 0 means just take default
 static size_t default_dqsize = 100000;
+static size_t worker_dqsize; // size given to lace_start, or the default
 
 /**
  * Verbosity flag, set with lace_set_verbosity
@@ -450,7 +451,7 @@ lace_init_worker(unsigned int worker)
 
     // Initialize private worker data
     w->_public = wt;
-    w->end = w->dq + default_dqsize;
+    w->end = w->dq + worker_dqsize;
     w->split = w->dq;
     w->allstolen = 0;
     w->frame = 0;
@@ -854,8 +855,8 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     // Initialize globals
     n_workers = _n_workers == 0 ? n_pus : _n_workers;
-    if (dqsize != 0) default_dqsize = dqsize;
-    else dqsize = default_dqsize;
+    if (dqsize == 0) dqsize = default_dqsize;
+    worker_dqsize = dqsize;
     lace_quits = 0;
     atomic_store_explicit(&workers_running, 0, memory_order_relaxed);
 
diff --git a/src/lace14.c b/src/lace14.c
index 16dfa9e..bd54132 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -73,6 +73,7 @@ static Worker **workers = NULL;
  */
 static size_t stacksize = 0; // 0 means just take default
 static size_t default_dqsize = 100000;
+static size_t worker_dqsize; // size given to lace_start, or the default
 
 /**
  * Verbosity flag, set with lace_set_verbosity
@@ -450,7 +451,7 @@ lace_init_worker(unsigned int worker)
 
     // Initialize private worker data
     w->_public = wt;
-    w->end = w->dq + default_dqsize;
+    w->end = w->dq + worker_dqsize;
     w->split = w->dq;
     w->allstolen = 0;
     w->frame = 0;
@@ -854,8 +855,8 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     // Initialize globals
     n_workers = _n_workers == 0 ? n_pus : _n_workers;
-    if (dqsize != 0) default_dqsize = dqsize;
-    else dqsize = default_dqsize;
+    if (dqsize == 0) dqsize = default_dqsize;
+    worker_dqsize = dqsize;
     lace_quits = 0;
     atomic_store_explicit(&workers_running, 0, memory_order_relaxed);
 
-- 
2.43.0


From ace3c46a29501bf63727d43b0d79258073e26537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:38 +0000
Subject: [PATCH 13/21] fix: restore the private split point after a frame

When lace_shrink_shared finds that all tasks are stolen, the public split
point is already lowered but the private one is not. After a frame the
private one was set to the public one, and the next SYNC then ran a
stolen task a second time.
---
 src/lace.c   | 4 +++-
 src/lace14.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index b86fbf6..a70f43c 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1172,6 +1172,7 @@ void
 lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
 {
     TailSplitNA old;
+    Task *old_split; // not always equal to dq+old.ts.split, see lace_shrink_shared
     uint8_t old_as;
 
     // save old tail, split, allstolen and initiate new frame
@@ -1190,6 +1191,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         ts_new.ts.split = __lace_dq_head - __lace_worker->dq;
         wt->ts.v = ts_new.v;
 
+        old_split = __lace_worker->split;
         __lace_worker->split = __lace_dq_head;
         __lace_worker->allstolen = 1;
         __lace_worker->frame++;
@@ -1209,7 +1211,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         Worker *wt = __lace_worker->_public;
         wt->allstolen = old_as;
         wt->ts.v = old.v;
-        __lace_worker->split = __lace_worker->dq + old.ts.split;
+        __lace_worker->split = old_split;
         __lace_worker->allstolen = old_as;
         __lace_worker->frame--;
     }
diff --git a/src/lace14.c b/src/lace14.c
index bd54132..c839502 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1172,6 +1172,7 @@ void
 lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
 {
     TailSplitNA old;
+    Task *old_split; // not always equal to dq+old.ts.split, see lace_shrink_shared
     uint8_t old_as;
 
     // save old tail, split, allstolen and initiate new frame
@@ -1190,6 +1191,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         ts_new.ts.split = __lace_dq_head - __lace_worker->dq;
         wt->ts.v = ts_new.v;
 
+        old_split = __lace_worker->split;
         __lace_worker->split = __lace_dq_head;
         __lace_worker->allstolen = 1;
         __lace_worker->frame++;
@@ -1209,7 +1211,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         Worker *wt = __lace_worker->_public;
         wt->allstolen = old_as;
         wt->ts.v = old.v;
-        __lace_worker->split = __lace_worker->dq + old.ts.split;
+        __lace_worker->split = old_split;
         __lace_worker->allstolen = old_as;
         __lace_worker->frame--;
     }
-- 
2.43.0


From 03761248dbdb975fe31f7fef6139a96df720d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:14 +0000
Subject: [PATCH 14/21] fix: wait for starting workers in lace_count_reset and
 lace_count_report_file

The report, too, dereferenced pointers that the workers had not set yet.
---
 src/lace.c   | 13 +++++++++----
 src/lace14.c | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index a70f43c..ce599aa 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -119,6 +119,7 @@ static WorkerP **workers_p;
  */
 static atomic_int lace_quits = 0;
 static atomic_uint workers_running = 0;
+static atomic_uint workers_ready = 0; // how many workers have initialized their data
 
 /**
  * Thread-specific mechanism to access current worker data
@@ -472,6 +473,8 @@ lace_init_worker(unsigned int worker)
     w->time = gethrtime();
     w->level = 0;
 #endif
+
+    workers_ready += 1;
 }
 
 static atomic_int must_suspend = 0;
@@ -859,6 +862,7 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     worker_dqsize = dqsize;
     lace_quits = 0;
     atomic_store_explicit(&workers_running, 0, memory_order_relaxed);
+    atomic_store_explicit(&workers_ready, 0, memory_order_relaxed);
 
     // Initialize Lace barrier
     lace_barrier_init();
@@ -892,9 +896,8 @@ lace_start(unsigned int _n_workers, size_t dqsize)
         exit(1);
     }
 
-    // Ensure worker arrays are set to 0 initially
+    // Ensure worker array is set to 0 initially
     memset(workers, 0, n_workers*sizeof(Worker*));
-    memset(workers_p, 0, n_workers*sizeof(WorkerP*));
 
     // Compute memory size for each worker
     workers_memory_size = sizeof(worker_data) + sizeof(Task) * dqsize;
@@ -980,8 +983,9 @@ lace_count_reset()
     unsigned int i;
     size_t j;
 
+    while (workers_ready != n_workers) {} // workers may still be starting
+
     for (i=0;i<n_workers;i++) {
-        if (workers_p[i] == NULL) continue; // not initialized yet
         for (j=0;j<CTR_MAX;j++) {
             workers_p[i]->ctr[j] = 0;
         }
@@ -989,7 +993,6 @@ lace_count_reset()
 
 #if LACE_PIE_TIMES
     for (i=0;i<n_workers;i++) {
-        if (workers_p[i] == NULL) continue; // not initialized yet
         workers_p[i]->time = gethrtime();
         if (i != 0) workers_p[i]->level = 0;
     }
@@ -1010,6 +1013,8 @@ lace_count_report_file(FILE *file)
     unsigned int i;
     size_t j;
 
+    while (workers_ready != n_workers) {} // workers may still be starting
+
     for (j=0;j<CTR_MAX;j++) ctr_all[j] = 0;
     for (i=0;i<n_workers;i++) {
         uint64_t *wctr = workers_p[i]->ctr;
diff --git a/src/lace14.c b/src/lace14.c
index c839502..3cf7927 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -119,6 +119,7 @@ static WorkerP **workers_p;
  */
 static atomic_int lace_quits = 0;
 static atomic_uint workers_running = 0;
+static atomic_uint workers_ready = 0; // how many workers have initialized their data
 
 /**
  * Thread-specific mechanism to access current worker data
@@ -472,6 +473,8 @@ lace_init_worker(unsigned int worker)
     w->time = gethrtime();
     w->level = 0;
 #endif
+
+    workers_ready += 1;
 }
 
 static atomic_int must_suspend = 0;
@@ -859,6 +862,7 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     worker_dqsize = dqsize;
     lace_quits = 0;
     atomic_store_explicit(&workers_running, 0, memory_order_relaxed);
+    atomic_store_explicit(&workers_ready, 0, memory_order_relaxed);
 
     // Initialize Lace barrier
     lace_barrier_init();
@@ -892,9 +896,8 @@ lace_start(unsigned int _n_workers, size_t dqsize)
         exit(1);
     }
 
-    // Ensure worker arrays are set to 0 initially
+    // Ensure worker array is set to 0 initially
     memset(workers, 0, n_workers*sizeof(Worker*));
-    memset(workers_p, 0, n_workers*sizeof(WorkerP*));
 
     // Compute memory size for each worker
     workers_memory_size = sizeof(worker_data) + sizeof(Task) * dqsize;
@@ -980,8 +983,9 @@ lace_count_reset()
     unsigned int i;
     size_t j;
 
+    while (workers_ready != n_workers) {} // workers may still be starting
+
     for (i=0;i<n_workers;i++) {
-        if (workers_p[i] == NULL) continue; // not initialized yet
         for (j=0;j<CTR_MAX;j++) {
             workers_p[i]->ctr[j] = 0;
         }
@@ -989,7 +993,6 @@ lace_count_reset()
 
 #if LACE_PIE_TIMES
     for (i=0;i<n_workers;i++) {
-        if (workers_p[i] == NULL) continue; // not initialized yet
         workers_p[i]->time = gethrtime();
         if (i != 0) workers_p[i]->level = 0;
     }
@@ -1010,6 +1013,8 @@ lace_count_report_file(FILE *file)
     unsigned int i;
     size_t j;
 
+    while (workers_ready != n_workers) {} // workers may still be starting
+
     for (j=0;j<CTR_MAX;j++) ctr_all[j] = 0;
     for (i=0;i<n_workers;i++) {
         uint64_t *wctr = workers_p[i]->ctr;
-- 
2.43.0


From d05bf0cb938b40b37a932aedef0d2893155a29fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:14 +0000
Subject: [PATCH 15/21] fix: acquire and release in lace_barrier, so that it
 orders memory

---
 src/lace.c   | 4 ++--
 src/lace14.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index ce599aa..8698dd2 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -256,12 +256,12 @@ void
 lace_barrier()
 {
     int wait = lace_bar.wait;
-    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_relaxed))) {
+    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel))) {
         // we know for sure no other thread can be here
         atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);
         atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);
         // flip wait
-        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_relaxed);
+        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);
     } else {
         while (wait == lace_bar.wait) {} // wait
     }
diff --git a/src/lace14.c b/src/lace14.c
index 3cf7927..1c1984c 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -256,12 +256,12 @@ void
 lace_barrier()
 {
     int wait = lace_bar.wait;
-    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_relaxed))) {
+    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel))) {
         // we know for sure no other thread can be here
         atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);
         atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);
         // flip wait
-        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_relaxed);
+        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);
     } else {
         while (wait == lace_bar.wait) {} // wait
     }
-- 
2.43.0


From 8216622626d85b433b55139d450c966d169c6d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:14 +0000
Subject: [PATCH 16/21] fix: TASK_IS_STOLEN and TASK_IS_COMPLETED compile in
 C++

---
 src/lace.h   | 4 ++--
 src/lace.sh  | 4 ++--
 src/lace14.h | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lace.h b/src/lace.h
index f1cc71e..ee7a79c 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -258,12 +258,12 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 /**
  * True if the given task is stolen, False otherwise.
  */
-#define TASK_IS_STOLEN(t) ((size_t)t->thief > 1)
+#define TASK_IS_STOLEN(t) ((size_t)atomic_load_explicit(&(t)->thief, memory_order_acquire) > 1)
 
 /**
  * True if the given task is completed, False otherwise.
  */
-#define TASK_IS_COMPLETED(t) ((size_t)t->thief == 2)
+#define TASK_IS_COMPLETED(t) ((size_t)atomic_load_explicit(&(t)->thief, memory_order_acquire) == 2)
 
 /**
  * Retrieves a pointer to the result of the given task.
diff --git a/src/lace.sh b/src/lace.sh
index 89a1b46..926456e 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -265,12 +265,12 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 /**
  * True if the given task is stolen, False otherwise.
  */
-#define TASK_IS_STOLEN(t) ((size_t)t->thief > 1)
+#define TASK_IS_STOLEN(t) ((size_t)atomic_load_explicit(&(t)->thief, memory_order_acquire) > 1)
 
 /**
  * True if the given task is completed, False otherwise.
  */
-#define TASK_IS_COMPLETED(t) ((size_t)t->thief == 2)
+#define TASK_IS_COMPLETED(t) ((size_t)atomic_load_explicit(&(t)->thief, memory_order_acquire) == 2)
 
 /**
  * Retrieves a pointer to the result of the given task.
diff --git a/src/lace14.h b/src/lace14.h
index bd8e2b9..443475e 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -258,12 +258,12 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 /**
  * True if the given task is stolen, False otherwise.
  */
-#define TASK_IS_STOLEN(t) ((size_t)t->thief > 1)
+#define TASK_IS_STOLEN(t) ((size_t)atomic_load_explicit(&(t)->thief, memory_order_acquire) > 1)
 
 /**
  * True if the given task is completed, False otherwise.
  */
-#define TASK_IS_COMPLETED(t) ((size_t)t->thief == 2)
+#define TASK_IS_COMPLETED(t) ((size_t)atomic_load_explicit(&(t)->thief, memory_order_acquire) == 2)
 
 /**
  * Retrieves a pointer to the result of the given task.
-- 
2.43.0


From d2d55a78baaed16a6a2bfaf15febffb68c67cfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:14 +0000
Subject: [PATCH 17/21] fix: reject a queue size whose byte count overflows

---
 src/lace.c   | 4 ++++
 src/lace14.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index 8698dd2..ac001ad 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -900,6 +900,10 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     memset(workers, 0, n_workers*sizeof(Worker*));
 
     // Compute memory size for each worker
+    if (dqsize > (SIZE_MAX - sizeof(worker_data)) / sizeof(Task)) {
+        fprintf(stderr, "Lace error: unable to allocate memory for the workers!\n");
+        exit(1);
+    }
     workers_memory_size = sizeof(worker_data) + sizeof(Task) * dqsize;
 
 #ifndef __linux__
diff --git a/src/lace14.c b/src/lace14.c
index 1c1984c..9054029 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -900,6 +900,10 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     memset(workers, 0, n_workers*sizeof(Worker*));
 
     // Compute memory size for each worker
+    if (dqsize > (SIZE_MAX - sizeof(worker_data)) / sizeof(Task)) {
+        fprintf(stderr, "Lace error: unable to allocate memory for the workers!\n");
+        exit(1);
+    }
     workers_memory_size = sizeof(worker_data) + sizeof(Task) * dqsize;
 
 #ifndef __linux__
-- 
2.43.0


From e71af00685ea638692f1006d0233572f7c0920fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:14 +0000
Subject: [PATCH 18/21] fix: release the hwloc topology in lace_stop

---
 src/lace.c   | 4 ++++
 src/lace14.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index ac001ad..5ad8d6a 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1167,6 +1167,10 @@ void lace_stop()
     workers = 0;
     workers_p = 0;
     workers_memory = 0;
+
+#if LACE_USE_HWLOC
+    hwloc_topology_destroy(topo);
+#endif
 }
 
 /**
diff --git a/src/lace14.c b/src/lace14.c
index 9054029..442bf0d 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1167,6 +1167,10 @@ void lace_stop()
     workers = 0;
     workers_p = 0;
     workers_memory = 0;
+
+#if LACE_USE_HWLOC
+    hwloc_topology_destroy(topo);
+#endif
 }
 
 /**
-- 
2.43.0


From b61654b7f2cc5e07887d0fb720df8c2edee6306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:14 +0000
Subject: [PATCH 19/21] fix: use every logical processor once before pinning
 workers twice

---
 src/lace.c   | 46 ++++++++++++++++++++++++++--------------------
 src/lace14.c | 46 ++++++++++++++++++++++++++--------------------
 2 files changed, 52 insertions(+), 40 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 5ad8d6a..4a43a7b 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -358,31 +358,41 @@ lace_pin_worker(void)
     // Get our worker
     unsigned int worker = lace_get_worker()->worker;
 
-    // Get our core (hwloc object)
-    hwloc_obj_t pu = hwloc_get_obj_by_type(topo, HWLOC_OBJ_CORE, worker % n_cores);
-
-    // Get our copy of the bitmap
-    hwloc_cpuset_t bmp = hwloc_bitmap_dup(pu->cpuset);
-
-    // Get number of PUs in bitmap
-    int n = -1, count=0;
-    while ((n=hwloc_bitmap_next(bmp, n)) != -1) count++;
+    // Count the logical processors of all cores
+    unsigned int count = 0;
+    for (unsigned int i=0; i<n_cores; i++) {
+        count += hwloc_bitmap_weight(hwloc_get_obj_by_type(topo, HWLOC_OBJ_CORE, i)->cpuset);
+    }
 
     // Check if we actually have any logical processors
     if (count == 0) {
         fprintf(stderr, "Lace error: trying to pin a worker on an empty core?\n");
         exit(-1);
     }
-
-    // Select the correct PU on the core (in case of hyperthreading)
-    int idx = worker / n_cores;
-    if (idx >= count) {
+    if (worker >= count) {
         fprintf(stderr, "Lace warning: more workers than available logical processors!\n");
-        idx %= count;
     }
 
+    // Select our core (hwloc object) and the PU on that core: first the first PU of each core,
+    // then the second PU of each core that has one, etc. (in case of hyperthreading)
+    hwloc_obj_t pu;
+    unsigned int core = 0, left = worker % count;
+    int idx = 0;
+    while (1) {
+        pu = hwloc_get_obj_by_type(topo, HWLOC_OBJ_CORE, core);
+        if (idx < hwloc_bitmap_weight(pu->cpuset) && left-- == 0) break;
+        if (++core == n_cores) {
+            core = 0;
+            idx++;
+        }
+    }
+    lace_get_worker()->pu = core;
+
+    // Get our copy of the bitmap
+    hwloc_cpuset_t bmp = hwloc_bitmap_dup(pu->cpuset);
+
     // Find index of PU and restrict bitmap
-    n = -1;
+    int n = -1;
     for (int i=0; i<=idx; i++) n = hwloc_bitmap_next(bmp, n);
     hwloc_bitmap_only(bmp, n);
 
@@ -457,11 +467,7 @@ lace_init_worker(unsigned int worker)
     w->allstolen = 0;
     w->frame = 0;
     w->worker = worker;
-#if LACE_USE_HWLOC
-    w->pu = worker % n_cores;
-#else
-    w->pu = -1;
-#endif
+    w->pu = -1; // set by lace_pin_worker
     w->rng = (((uint64_t)rand())<<32 | rand());
 
 #if LACE_COUNT_EVENTS
diff --git a/src/lace14.c b/src/lace14.c
index 442bf0d..ff56706 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -358,31 +358,41 @@ lace_pin_worker(void)
     // Get our worker
     unsigned int worker = lace_get_worker()->worker;
 
-    // Get our core (hwloc object)
-    hwloc_obj_t pu = hwloc_get_obj_by_type(topo, HWLOC_OBJ_CORE, worker % n_cores);
-
-    // Get our copy of the bitmap
-    hwloc_cpuset_t bmp = hwloc_bitmap_dup(pu->cpuset);
-
-    // Get number of PUs in bitmap
-    int n = -1, count=0;
-    while ((n=hwloc_bitmap_next(bmp, n)) != -1) count++;
+    // Count the logical processors of all cores
+    unsigned int count = 0;
+    for (unsigned int i=0; i<n_cores; i++) {
+        count += hwloc_bitmap_weight(hwloc_get_obj_by_type(topo, HWLOC_OBJ_CORE, i)->cpuset);
+    }
 
     // Check if we actually have any logical processors
     if (count == 0) {
         fprintf(stderr, "Lace error: trying to pin a worker on an empty core?\n");
         exit(-1);
     }
-
-    // Select the correct PU on the core (in case of hyperthreading)
-    int idx = worker / n_cores;
-    if (idx >= count) {
+    if (worker >= count) {
         fprintf(stderr, "Lace warning: more workers than available logical processors!\n");
-        idx %= count;
     }
 
+    // Select our core (hwloc object) and the PU on that core: first the first PU of each core,
+    // then the second PU of each core that has one, etc. (in case of hyperthreading)
+    hwloc_obj_t pu;
+    unsigned int core = 0, left = worker % count;
+    int idx = 0;
+    while (1) {
+        pu = hwloc_get_obj_by_type(topo, HWLOC_OBJ_CORE, core);
+        if (idx < hwloc_bitmap_weight(pu->cpuset) && left-- == 0) break;
+        if (++core == n_cores) {
+            core = 0;
+            idx++;
+        }
+    }
+    lace_get_worker()->pu = core;
+
+    // Get our copy of the bitmap
+    hwloc_cpuset_t bmp = hwloc_bitmap_dup(pu->cpuset);
+
     // Find index of PU and restrict bitmap
-    n = -1;
+    int n = -1;
     for (int i=0; i<=idx; i++) n = hwloc_bitmap_next(bmp, n);
     hwloc_bitmap_only(bmp, n);
 
@@ -457,11 +467,7 @@ lace_init_worker(unsigned int worker)
     w->allstolen = 0;
     w->frame = 0;
     w->worker = worker;
-#if LACE_USE_HWLOC
-    w->pu = worker % n_cores;
-#else
-    w->pu = -1;
-#endif
+    w->pu = -1; // set by lace_pin_worker
     w->rng = (((uint64_t)rand())<<32 | rand());
 
 #if LACE_COUNT_EVENTS
-- 
2.43.0


From a54e138c0712b3485f9107b597c0512b3024f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 20/21] fix: create the key of the current worker once, before
 its first use (no __thread)

---
 src/lace.c   | 14 +++++++++++++-
 src/lace14.c | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 4a43a7b..07908ca 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -128,6 +128,17 @@ static atomic_uint workers_ready = 0; // how many workers have initialized their
 static __thread WorkerP *current_worker;
 #else
 static pthread_key_t current_worker_key;
+static pthread_once_t current_worker_once = PTHREAD_ONCE_INIT;
+
+static void
+lace_create_worker_key(void)
+{
+    // once for all sessions; also needed before the first lace_start, see lace_get_worker
+    if (pthread_key_create(&current_worker_key, NULL) != 0) {
+        fprintf(stderr, "Lace error: unable to create a key for the workers!\n");
+        exit(1);
+    }
+}
 #endif
 
 /**
@@ -153,6 +164,7 @@ lace_get_worker()
 #ifdef __linux__
     return current_worker;
 #else
+    pthread_once(&current_worker_once, lace_create_worker_key);
     return (WorkerP*)pthread_getspecific(current_worker_key);
 #endif
 }
@@ -914,7 +926,7 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
 #ifndef __linux__
     // Create pthread key
-    pthread_key_create(&current_worker_key, NULL);
+    pthread_once(&current_worker_once, lace_create_worker_key);
 #endif
 
     // Prepare structures for thread creation
diff --git a/src/lace14.c b/src/lace14.c
index ff56706..bbd9434 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -128,6 +128,17 @@ static atomic_uint workers_ready = 0; // how many workers have initialized their
 static __thread WorkerP *current_worker;
 #else
 static pthread_key_t current_worker_key;
+static pthread_once_t current_worker_once = PTHREAD_ONCE_INIT;
+
+static void
+lace_create_worker_key(void)
+{
+    // once for all sessions; also needed before the first lace_start, see lace_get_worker
+    if (pthread_key_create(&current_worker_key, NULL) != 0) {
+        fprintf(stderr, "Lace error: unable to create a key for the workers!\n");
+        exit(1);
+    }
+}
 #endif
 
 /**
@@ -153,6 +164,7 @@ lace_get_worker()
 #ifdef __linux__
     return current_worker;
 #else
+    pthread_once(&current_worker_once, lace_create_worker_key);
     return (WorkerP*)pthread_getspecific(current_worker_key);
 #endif
 }
@@ -914,7 +926,7 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
 #ifndef __linux__
     // Create pthread key
-    pthread_key_create(&current_worker_key, NULL);
+    pthread_once(&current_worker_once, lace_create_worker_key);
 #endif
 
     // Prepare structures for thread creation
-- 
2.43.0


From 076aaaa07bdb920a8f47226bb058382cba098088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:36 +0000
Subject: [PATCH 21/21] fix: count only the processors that the process may run
 on (sched_getaffinity is not a macro)

---
 src/lace.c   | 11 ++++++-----
 src/lace14.c | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 07908ca..9c788e1 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -844,13 +844,14 @@ lace_get_pu_count(void)
     SYSTEM_INFO sysinfo;
     GetSystemInfo(&sysinfo);
     unsigned int n_pus = sysinfo.dwNumberOfProcessors;
-#elif defined(sched_getaffinity)
-    cpu_set_t cs;
-    CPU_ZERO(&cs);
-    sched_getaffinity(0, sizeof(cs), &cs);
-    unsigned int n_pus = CPU_COUNT(&cs);
 #else
     unsigned int n_pus = sysconf(_SC_NPROCESSORS_ONLN);
+#ifdef CPU_COUNT
+    // only count the processors that we are allowed to run on
+    cpu_set_t cs;
+    CPU_ZERO(&cs);
+    if (sched_getaffinity(0, sizeof(cs), &cs) == 0) n_pus = CPU_COUNT(&cs);
+#endif
 #endif
     return n_pus;
 }
diff --git a/src/lace14.c b/src/lace14.c
index bbd9434..cbf9f0a 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -844,13 +844,14 @@ lace_get_pu_count(void)
     SYSTEM_INFO sysinfo;
     GetSystemInfo(&sysinfo);
     unsigned int n_pus = sysinfo.dwNumberOfProcessors;
-#elif defined(sched_getaffinity)
-    cpu_set_t cs;
-    CPU_ZERO(&cs);
-    sched_getaffinity(0, sizeof(cs), &cs);
-    unsigned int n_pus = CPU_COUNT(&cs);
 #else
     unsigned int n_pus = sysconf(_SC_NPROCESSORS_ONLN);
+#ifdef CPU_COUNT
+    // only count the processors that we are allowed to run on
+    cpu_set_t cs;
+    CPU_ZERO(&cs);
+    if (sched_getaffinity(0, sizeof(cs), &cs) == 0) n_pus = CPU_COUNT(&cs);
+#endif
 #endif
     return n_pus;
 }
-- 
2.43.0


From 27d3e339931c447cf9375979dee9533e808dd8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:44 +0000
Subject: [PATCH 01/24] fix: do not overwrite a pending external task of
 another thread

A failed compare-exchange stores the pending task in exp, so the next
iteration replaced that task, and the thread waiting for it hung.
---
 src/lace.c   | 10 ++++++----
 src/lace14.c | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 29019f6..feb0e05 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -577,8 +577,9 @@ lace_run_task(Task *task)
         external_task_counter++;
         pthread_mutex_unlock(&external_task_lock);
 
-        ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        // offer the task, but never overwrite the pending task of another thread
+        ExtTask *exp;
+        do { exp = 0; } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
@@ -624,8 +625,9 @@ lace_run_task_exclusive(Task *task)
         }
         pthread_mutex_unlock(&external_task_lock);
 
-        ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        // offer the task, but never overwrite the pending task of another thread
+        ExtTask *exp;
+        do { exp = 0; } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
diff --git a/src/lace14.c b/src/lace14.c
index deb232b..911b77b 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -577,8 +577,9 @@ lace_run_task(Task *task)
         external_task_counter++;
         pthread_mutex_unlock(&external_task_lock);
 
-        ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        // offer the task, but never overwrite the pending task of another thread
+        ExtTask *exp;
+        do { exp = 0; } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
@@ -624,8 +625,9 @@ lace_run_task_exclusive(Task *task)
         }
         pthread_mutex_unlock(&external_task_lock);
 
-        ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        // offer the task, but never overwrite the pending task of another thread
+        ExtTask *exp;
+        do { exp = 0; } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
-- 
2.43.0


From 3cf1a73c7e15a801ee82bd9295504a0b7fa30c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:44 +0000
Subject: [PATCH 02/24] fix: mark the queue entry of a dropped task as empty

Otherwise lace_get_head (used by LACE_VARS, RUN, NEWFRAME and TOGETHER inside
tasks) takes the dropped task for an outstanding one.
---
 src/lace.h   | 7 ++++++-
 src/lace.sh  | 7 ++++++-
 src/lace14.h | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/lace.h b/src/lace.h
index fe99dea..0b120f6 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -693,7 +693,11 @@ lace_leapfrog(WorkerP *__lace_worker, Task *__lace_dq_head)
 static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
-    if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) {
+        lace_leapfrog(w, __dq_head);
+    } else {
+        atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
+    }
 }
 
 static inline __attribute__((unused))
@@ -701,6 +705,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
diff --git a/src/lace.sh b/src/lace.sh
index b534023..775f2e1 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -700,7 +700,11 @@ lace_leapfrog(WorkerP *__lace_worker, Task *__lace_dq_head)
 static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
-    if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) {
+        lace_leapfrog(w, __dq_head);
+    } else {
+        atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
+    }
 }
 
 static inline __attribute__((unused))
@@ -708,6 +712,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
diff --git a/src/lace14.h b/src/lace14.h
index 085fb59..1276a4b 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -693,7 +693,11 @@ lace_leapfrog(WorkerP *__lace_worker, Task *__lace_dq_head)
 static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
-    if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) {
+        lace_leapfrog(w, __dq_head);
+    } else {
+        atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
+    }
 }
 
 static inline __attribute__((unused))
@@ -701,6 +705,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
-- 
2.43.0


From e2a6de7d02093716e90c9de34e984be9b31b5a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:44 +0000
Subject: [PATCH 03/24] fix: run a personal copy of the task in TOGETHER

All workers used the same Task, so the result of a task that returns a value
overwrote the parameters for workers that had not yet read them.
---
 src/lace.c   | 6 ++++--
 src/lace14.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index feb0e05..20050b9 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1208,8 +1208,10 @@ lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head)
  */
 VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
 {
-    // run the root task
-    t->f(__lace_worker, __lace_dq_head, t);
+    // run a personal copy of the root task (the result overwrites the parameters)
+    Task _t;
+    memcpy(&_t, t, sizeof(Task));
+    _t.f(__lace_worker, __lace_dq_head, &_t);
 
     // signal out completion
     *finished -= 1;
diff --git a/src/lace14.c b/src/lace14.c
index 911b77b..60d7d3d 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1208,8 +1208,10 @@ lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head)
  */
 VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
 {
-    // run the root task
-    t->f(__lace_worker, __lace_dq_head, t);
+    // run a personal copy of the root task (the result overwrites the parameters)
+    Task _t;
+    memcpy(&_t, t, sizeof(Task));
+    _t.f(__lace_worker, __lace_dq_head, &_t);
 
     // signal out completion
     *finished -= 1;
-- 
2.43.0


From 0522890d31491654f561667a9cdfc22163414b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:45 +0000
Subject: [PATCH 04/24] fix: do not read past the end of very small task queues
 in lace_get_head

---
 src/lace.c   | 11 +++++------
 src/lace14.c | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 20050b9..6dbdd1a 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -162,16 +162,15 @@ Task*
 lace_get_head(WorkerP *self)
 {
     Task *dq = self->dq;
+    size_t low = 2;
+    size_t high = self->end - self->dq;
 
     /* First check the first tasks linearly */
-    if (dq[0].thief == 0) return dq;
-    if (dq[1].thief == 0) return dq+1;
-    if (dq[2].thief == 0) return dq+2;
-    if (dq[3].thief == 0) return dq+3;
+    for (size_t i=0; i<4; i++) {
+        if (i == high || dq[i].thief == 0) return dq+i;
+    }
 
     /* Then fast search for a low/high bound using powers of 2: 4, 8, 16... */
-    size_t low = 2;
-    size_t high = self->end - self->dq;
 
     for (;;) {
         if (low*2 >= high) {
diff --git a/src/lace14.c b/src/lace14.c
index 60d7d3d..d7e9c43 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -162,16 +162,15 @@ Task*
 lace_get_head(WorkerP *self)
 {
     Task *dq = self->dq;
+    size_t low = 2;
+    size_t high = self->end - self->dq;
 
     /* First check the first tasks linearly */
-    if (dq[0].thief == 0) return dq;
-    if (dq[1].thief == 0) return dq+1;
-    if (dq[2].thief == 0) return dq+2;
-    if (dq[3].thief == 0) return dq+3;
+    for (size_t i=0; i<4; i++) {
+        if (i == high || dq[i].thief == 0) return dq+i;
+    }
 
     /* Then fast search for a low/high bound using powers of 2: 4, 8, 16... */
-    size_t low = 2;
-    size_t high = self->end - self->dq;
 
     for (;;) {
         if (low*2 >= high) {
-- 
2.43.0


From 2e6ad3de25ef692dcba140e8611cc07dd7c5ade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:45 +0000
Subject: [PATCH 05/24] fix: lace_start(n, 0) uses the default deque size

It used the size given to an earlier lace_start instead.
---
 src/lace.c   | 11 ++++++++---
 src/lace14.c | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 6dbdd1a..84e7112 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -74,6 +74,11 @@ static Worker **workers = NULL;
 static size_t stacksize = 0; // 0 means just take default
 static size_t default_dqsize = 100000;
 
+/**
+ * Size of the task deque of each worker of the running instance
+ */
+static size_t current_dqsize = 0;
+
 /**
  * Verbosity flag, set with lace_set_verbosity
  */
@@ -441,7 +446,7 @@ lace_init_worker(unsigned int worker)
 
     // Initialize private worker data
     w->_public = wt;
-    w->end = w->dq + default_dqsize;
+    w->end = w->dq + current_dqsize;
     w->split = w->dq;
     w->allstolen = 0;
     w->worker = worker;
@@ -836,8 +841,8 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     // Initialize globals
     n_workers = _n_workers == 0 ? n_pus : _n_workers;
-    if (dqsize != 0) default_dqsize = dqsize;
-    else dqsize = default_dqsize;
+    if (dqsize == 0) dqsize = default_dqsize;
+    current_dqsize = dqsize;
     lace_quits = 0;
     atomic_store_explicit(&workers_running, 0, memory_order_relaxed);
 
diff --git a/src/lace14.c b/src/lace14.c
index d7e9c43..2997db1 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -74,6 +74,11 @@ static Worker **workers = NULL;
 static size_t stacksize = 0; // 0 means just take default
 static size_t default_dqsize = 100000;
 
+/**
+ * Size of the task deque of each worker of the running instance
+ */
+static size_t current_dqsize = 0;
+
 /**
  * Verbosity flag, set with lace_set_verbosity
  */
@@ -441,7 +446,7 @@ lace_init_worker(unsigned int worker)
 
     // Initialize private worker data
     w->_public = wt;
-    w->end = w->dq + default_dqsize;
+    w->end = w->dq + current_dqsize;
     w->split = w->dq;
     w->allstolen = 0;
     w->worker = worker;
@@ -836,8 +841,8 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     // Initialize globals
     n_workers = _n_workers == 0 ? n_pus : _n_workers;
-    if (dqsize != 0) default_dqsize = dqsize;
-    else dqsize = default_dqsize;
+    if (dqsize == 0) dqsize = default_dqsize;
+    current_dqsize = dqsize;
     lace_quits = 0;
     atomic_store_explicit(&workers_running, 0, memory_order_relaxed);
 
-- 
2.43.0


From c174de494d24ba1e2eaf9827d6e210dac36d00fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:45 +0000
Subject: [PATCH 06/24] fix: join the worker threads in lace_stop

They were neither joined nor detached, so every lace_start/lace_stop cycle
leaked the stacks of all workers until threads could not be created any more.
---
 src/lace.c   | 16 +++++++++++++---
 src/lace14.c | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 84e7112..af28c28 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -118,6 +118,11 @@ static size_t workers_memory_size = 0;
  */
 static WorkerP **workers_p;
 
+/**
+ * Threads of the workers, to join them in lace_stop
+ */
+static pthread_t *workers_threads = NULL;
+
 /**
  * Flag to signal all workers to quit.
  */
@@ -873,7 +878,8 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     workers_p = aligned_alloc(LINE_SIZE, to_allocate);
     workers_memory = aligned_alloc(LINE_SIZE, to_allocate);
 #endif
-    if (workers == 0 || workers_p == 0 || workers_memory == 0) {
+    workers_threads = malloc(n_workers * sizeof(pthread_t));
+    if (workers == 0 || workers_p == 0 || workers_memory == 0 || workers_threads == 0) {
         fprintf(stderr, "Lace error: unable to allocate memory for the workers!\n");
         exit(1);
     }
@@ -934,8 +940,7 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     /* Spawn all workers */
     for (unsigned int i=0; i<n_workers; i++) {
-        pthread_t res;
-        pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i);
+        pthread_create(&workers_threads[i], &worker_attr, lace_worker_thread, (void*)(size_t)i);
     }
 
     /* Make sure we start resumed */
@@ -1097,6 +1102,11 @@ void lace_stop()
 
     while (workers_running != 0) {}
 
+    // release the threads
+    for (unsigned int i=0; i<n_workers; i++) pthread_join(workers_threads[i], NULL);
+    free(workers_threads);
+    workers_threads = 0;
+
 #if LACE_COUNT_EVENTS
     lace_count_report_file(stdout);
 #endif
diff --git a/src/lace14.c b/src/lace14.c
index 2997db1..7b47841 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -118,6 +118,11 @@ static size_t workers_memory_size = 0;
  */
 static WorkerP **workers_p;
 
+/**
+ * Threads of the workers, to join them in lace_stop
+ */
+static pthread_t *workers_threads = NULL;
+
 /**
  * Flag to signal all workers to quit.
  */
@@ -873,7 +878,8 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     workers_p = aligned_alloc(LINE_SIZE, to_allocate);
     workers_memory = aligned_alloc(LINE_SIZE, to_allocate);
 #endif
-    if (workers == 0 || workers_p == 0 || workers_memory == 0) {
+    workers_threads = malloc(n_workers * sizeof(pthread_t));
+    if (workers == 0 || workers_p == 0 || workers_memory == 0 || workers_threads == 0) {
         fprintf(stderr, "Lace error: unable to allocate memory for the workers!\n");
         exit(1);
     }
@@ -934,8 +940,7 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     /* Spawn all workers */
     for (unsigned int i=0; i<n_workers; i++) {
-        pthread_t res;
-        pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i);
+        pthread_create(&workers_threads[i], &worker_attr, lace_worker_thread, (void*)(size_t)i);
     }
 
     /* Make sure we start resumed */
@@ -1097,6 +1102,11 @@ void lace_stop()
 
     while (workers_running != 0) {}
 
+    // release the threads
+    for (unsigned int i=0; i<n_workers; i++) pthread_join(workers_threads[i], NULL);
+    free(workers_threads);
+    workers_threads = 0;
+
 #if LACE_COUNT_EVENTS
     lace_count_report_file(stdout);
 #endif
-- 
2.43.0


From cf264aee78163883310a0f3b63db2c3672de1ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:45 +0000
Subject: [PATCH 07/24] fix: lace_get_pu_count respects the affinity mask

sched_getaffinity is not a macro, so this code was never compiled, and
lace_start(0, 0) started more workers than there are available CPUs.
---
 src/lace.c   | 8 +++++---
 src/lace14.c | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index af28c28..932bd6c 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -814,11 +814,13 @@ lace_get_pu_count(void)
     SYSTEM_INFO sysinfo;
     GetSystemInfo(&sysinfo);
     unsigned int n_pus = sysinfo.dwNumberOfProcessors;
-#elif defined(sched_getaffinity)
+#elif defined(CPU_COUNT)
+    // note: sched_getaffinity is a function, CPU_COUNT is the macro that comes with it
     cpu_set_t cs;
     CPU_ZERO(&cs);
-    sched_getaffinity(0, sizeof(cs), &cs);
-    unsigned int n_pus = CPU_COUNT(&cs);
+    unsigned int n_pus;
+    if (sched_getaffinity(0, sizeof(cs), &cs) == 0) n_pus = CPU_COUNT(&cs);
+    else n_pus = sysconf(_SC_NPROCESSORS_ONLN);
 #else
     unsigned int n_pus = sysconf(_SC_NPROCESSORS_ONLN);
 #endif
diff --git a/src/lace14.c b/src/lace14.c
index 7b47841..188afe4 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -814,11 +814,13 @@ lace_get_pu_count(void)
     SYSTEM_INFO sysinfo;
     GetSystemInfo(&sysinfo);
     unsigned int n_pus = sysinfo.dwNumberOfProcessors;
-#elif defined(sched_getaffinity)
+#elif defined(CPU_COUNT)
+    // note: sched_getaffinity is a function, CPU_COUNT is the macro that comes with it
     cpu_set_t cs;
     CPU_ZERO(&cs);
-    sched_getaffinity(0, sizeof(cs), &cs);
-    unsigned int n_pus = CPU_COUNT(&cs);
+    unsigned int n_pus;
+    if (sched_getaffinity(0, sizeof(cs), &cs) == 0) n_pus = CPU_COUNT(&cs);
+    else n_pus = sysconf(_SC_NPROCESSORS_ONLN);
 #else
     unsigned int n_pus = sysconf(_SC_NPROCESSORS_ONLN);
 #endif
-- 
2.43.0


From ce785c2f4633885b297e33432f17ab9b266542e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:45 +0000
Subject: [PATCH 08/24] fix: lace_barrier orders memory accesses

With relaxed operations only, what a worker writes before the barrier is not
guaranteed to be visible to the other workers after the barrier.
---
 src/lace.c   | 4 ++--
 src/lace14.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 932bd6c..12c559d 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -264,12 +264,12 @@ void
 lace_barrier()
 {
     int wait = lace_bar.wait;
-    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_relaxed))) {
+    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel))) {
         // we know for sure no other thread can be here
         atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);
         atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);
         // flip wait
-        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_relaxed);
+        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);
     } else {
         while (wait == lace_bar.wait) {} // wait
     }
diff --git a/src/lace14.c b/src/lace14.c
index 188afe4..770de19 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -264,12 +264,12 @@ void
 lace_barrier()
 {
     int wait = lace_bar.wait;
-    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_relaxed))) {
+    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel))) {
         // we know for sure no other thread can be here
         atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);
         atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);
         // flip wait
-        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_relaxed);
+        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);
     } else {
         while (wait == lace_bar.wait) {} // wait
     }
-- 
2.43.0


From 51e185ce26099e217c63462310316cb8e7159262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:45 +0000
Subject: [PATCH 09/24] fix: do not yield to a new frame that does not exist

A spurious failure of the weak compare-exchange let the initiator of NEWFRAME
or TOGETHER call lace_yield while lace_newframe.t is NULL.
---
 src/lace.c   | 4 ++--
 src/lace14.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 12c559d..3efb0ff 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1252,7 +1252,7 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_t2)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_t2)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
@@ -1286,7 +1286,7 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_s)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
diff --git a/src/lace14.c b/src/lace14.c
index 770de19..e0d8d97 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1252,7 +1252,7 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_t2)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_t2)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
@@ -1286,7 +1286,7 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_s)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
-- 
2.43.0


From 426021642702ca40984caa4acaeb078ed4295e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:24 +0000
Subject: [PATCH 10/24] fix: the options LACE_USE_MMAP and LACE_USE_HWLOC have
 an effect

They were not part of lace_config.h, so Lace was always built without them.
---
 src/lace_config.h.in | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lace_config.h.in b/src/lace_config.h.in
index 21560fd..398eec4 100644
--- a/src/lace_config.h.in
+++ b/src/lace_config.h.in
@@ -2,3 +2,5 @@
 #cmakedefine01 LACE_COUNT_TASKS
 #cmakedefine01 LACE_COUNT_STEALS
 #cmakedefine01 LACE_COUNT_SPLITS
+#cmakedefine01 LACE_USE_MMAP
+#cmakedefine01 LACE_USE_HWLOC
-- 
2.43.0


From d4dac266b1fd5f62fa90f08e3cc2d6e67144a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:24 +0000
Subject: [PATCH 11/24] fix: no division by zero in lace_count_report_file
 within the first millisecond

---
 src/lace.c   | 4 +++-
 src/lace14.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 3efb0ff..da19606 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1050,7 +1050,9 @@ lace_count_report_file(FILE *file)
 #if LACE_PIE_TIMES
     count_at_end = gethrtime();
 
-    uint64_t count_per_ms = (count_at_end - count_at_start) / (us_elapsed() / 1000);
+    uint64_t us = us_elapsed();
+    uint64_t count_per_ms = (count_at_end - count_at_start) * 1000 / (us == 0 ? 1 : us);
+    if (count_per_ms == 0) count_per_ms = 1;
     double dcpm = (double)count_per_ms;
 
     uint64_t sum_count;
diff --git a/src/lace14.c b/src/lace14.c
index e0d8d97..bde82f7 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1050,7 +1050,9 @@ lace_count_report_file(FILE *file)
 #if LACE_PIE_TIMES
     count_at_end = gethrtime();
 
-    uint64_t count_per_ms = (count_at_end - count_at_start) / (us_elapsed() / 1000);
+    uint64_t us = us_elapsed();
+    uint64_t count_per_ms = (count_at_end - count_at_start) * 1000 / (us == 0 ? 1 : us);
+    if (count_per_ms == 0) count_per_ms = 1;
     double dcpm = (double)count_per_ms;
 
     uint64_t sum_count;
-- 
2.43.0


From 7edf53b5370fcabc246d42235c8f1495dad8a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:24 +0000
Subject: [PATCH 12/24] fix: report that a worker thread cannot be created

Otherwise all workers wait forever for the missing one.
---
 src/lace.c   | 5 ++++-
 src/lace14.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index da19606..775195c 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -942,7 +942,10 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     /* Spawn all workers */
     for (unsigned int i=0; i<n_workers; i++) {
-        pthread_create(&workers_threads[i], &worker_attr, lace_worker_thread, (void*)(size_t)i);
+        if (pthread_create(&workers_threads[i], &worker_attr, lace_worker_thread, (void*)(size_t)i) != 0) {
+            fprintf(stderr, "Lace error: unable to create a worker thread!\n");
+            exit(1);
+        }
     }
 
     /* Make sure we start resumed */
diff --git a/src/lace14.c b/src/lace14.c
index bde82f7..08af21f 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -942,7 +942,10 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     /* Spawn all workers */
     for (unsigned int i=0; i<n_workers; i++) {
-        pthread_create(&workers_threads[i], &worker_attr, lace_worker_thread, (void*)(size_t)i);
+        if (pthread_create(&workers_threads[i], &worker_attr, lace_worker_thread, (void*)(size_t)i) != 0) {
+            fprintf(stderr, "Lace error: unable to create a worker thread!\n");
+            exit(1);
+        }
     }
 
     /* Make sure we start resumed */
-- 
2.43.0


From 7ea94eed5f42c461539c45366eab67540518329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:24 +0000
Subject: [PATCH 13/24] fix: lace_start waits until the workers are initialized

lace_count_reset and lace_count_report_file dereferenced uninitialized
pointers when called right after lace_start.
---
 src/lace.c   | 3 +++
 src/lace14.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index 775195c..cc05a52 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -951,6 +951,9 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     /* Make sure we start resumed */
     lace_resume();
 
+    /* Wait until all workers have initialized their data */
+    while (workers_running != n_workers) {}
+
     pthread_attr_destroy(&worker_attr);
 }
 
diff --git a/src/lace14.c b/src/lace14.c
index 08af21f..eb61c4a 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -951,6 +951,9 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     /* Make sure we start resumed */
     lace_resume();
 
+    /* Wait until all workers have initialized their data */
+    while (workers_running != n_workers) {}
+
     pthread_attr_destroy(&worker_attr);
 }
 
-- 
2.43.0


From e4a4c6fbe23fd649fc8a934fab5275b9f614ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:24 +0000
Subject: [PATCH 14/24] fix: keep waiting when a signal interrupts sem_wait

RUN returned before its task was executed, and suspended workers woke up.
---
 src/lace.c   | 17 +++++++++++++----
 src/lace14.c | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index cc05a52..516b859 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -49,6 +49,15 @@ typedef semaphore_t sem_t;
 
 #include <lace.h>
 
+/**
+ * Wait for a semaphore, also when signal handlers run in the meantime
+ */
+static inline void
+lace_sem_wait(sem_t *sem)
+{
+    while (sem_wait(sem) == -1 && errno == EINTR) {}
+}
+
 #if LACE_USE_MMAP
 #include <sys/mman.h> // for mmap, etc
 #endif
@@ -590,7 +599,7 @@ lace_run_task(Task *task)
         ExtTask *exp;
         do { exp = 0; } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);
 
-        sem_wait(&et.sem);
+        lace_sem_wait(&et.sem);
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -638,7 +647,7 @@ lace_run_task_exclusive(Task *task)
         ExtTask *exp;
         do { exp = 0; } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);
 
-        sem_wait(&et.sem);
+        lace_sem_wait(&et.sem);
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -747,7 +756,7 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
 
         if (unlikely(atomic_load_explicit(&must_suspend, memory_order_acquire))) {
             workers_running -= 1;
-            sem_wait(&suspend_semaphore);
+            lace_sem_wait(&suspend_semaphore);
             lace_barrier(); // ensure we're all back before continuing
             workers_running += 1;
         }
@@ -770,7 +779,7 @@ lace_worker_thread(void* arg)
     lace_pin_worker();
 
     // Wait for the first time we are resumed
-    sem_wait(&suspend_semaphore);
+    lace_sem_wait(&suspend_semaphore);
 
     // Signal that we are running
     workers_running += 1;
diff --git a/src/lace14.c b/src/lace14.c
index eb61c4a..ed8c0c9 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -49,6 +49,15 @@ typedef semaphore_t sem_t;
 
 #include <lace14.h>
 
+/**
+ * Wait for a semaphore, also when signal handlers run in the meantime
+ */
+static inline void
+lace_sem_wait(sem_t *sem)
+{
+    while (sem_wait(sem) == -1 && errno == EINTR) {}
+}
+
 #if LACE_USE_MMAP
 #include <sys/mman.h> // for mmap, etc
 #endif
@@ -590,7 +599,7 @@ lace_run_task(Task *task)
         ExtTask *exp;
         do { exp = 0; } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);
 
-        sem_wait(&et.sem);
+        lace_sem_wait(&et.sem);
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -638,7 +647,7 @@ lace_run_task_exclusive(Task *task)
         ExtTask *exp;
         do { exp = 0; } while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1);
 
-        sem_wait(&et.sem);
+        lace_sem_wait(&et.sem);
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -747,7 +756,7 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
 
         if (unlikely(atomic_load_explicit(&must_suspend, memory_order_acquire))) {
             workers_running -= 1;
-            sem_wait(&suspend_semaphore);
+            lace_sem_wait(&suspend_semaphore);
             lace_barrier(); // ensure we're all back before continuing
             workers_running += 1;
         }
@@ -770,7 +779,7 @@ lace_worker_thread(void* arg)
     lace_pin_worker();
 
     // Wait for the first time we are resumed
-    sem_wait(&suspend_semaphore);
+    lace_sem_wait(&suspend_semaphore);
 
     // Signal that we are running
     workers_running += 1;
-- 
2.43.0


From 3036ce67ff3438bfdd07e8fe623ec7c5dbb7932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:24 +0000
Subject: [PATCH 15/24] fix: align Task for parameters of every type

Tasks on the stack (RUN, RUNEX, NEWFRAME, TOGETHER) were only aligned to 8
bytes, which is too little for e.g. long double and vector types.
---
 src/lace.h   | 2 +-
 src/lace.sh  | 2 +-
 src/lace14.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lace.h b/src/lace.h
index 0b120f6..17b390b 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -403,7 +403,7 @@ struct __lace_common_fields_only { TASK_COMMON_FIELDS(_Task) };
 
 static_assert((LACE_COMMON_FIELD_SIZE % P_SZ) == 0, "LACE_COMMON_FIELD_SIZE is not a multiple of P_SZ");
 
-typedef struct _Task {
+typedef struct __attribute__((aligned(LINE_SIZE))) _Task {
     TASK_COMMON_FIELDS(_Task)
     char d[LACE_TASKSIZE];
 //    char d[LACE_TASKSIZE];
diff --git a/src/lace.sh b/src/lace.sh
index 775f2e1..ea76b42 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -410,7 +410,7 @@ struct __lace_common_fields_only { TASK_COMMON_FIELDS(_Task) };
 
 static_assert((LACE_COMMON_FIELD_SIZE % P_SZ) == 0, "LACE_COMMON_FIELD_SIZE is not a multiple of P_SZ");
 
-typedef struct _Task {
+typedef struct __attribute__((aligned(LINE_SIZE))) _Task {
     TASK_COMMON_FIELDS(_Task)
     char d[LACE_TASKSIZE];
 //    char d[LACE_TASKSIZE];
diff --git a/src/lace14.h b/src/lace14.h
index 1276a4b..d47ccff 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -403,7 +403,7 @@ struct __lace_common_fields_only { TASK_COMMON_FIELDS(_Task) };
 
 static_assert((LACE_COMMON_FIELD_SIZE % P_SZ) == 0, "LACE_COMMON_FIELD_SIZE is not a multiple of P_SZ");
 
-typedef struct _Task {
+typedef struct __attribute__((aligned(LINE_SIZE))) _Task {
     TASK_COMMON_FIELDS(_Task)
     char d[LACE_TASKSIZE];
 //    char d[LACE_TASKSIZE];
-- 
2.43.0


From 67e025b4b4777cd736c7777b84a3be606613f10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:25 +0000
Subject: [PATCH 16/24] fix: do not start external tasks inside a frame of
 NEWFRAME or TOGETHER

A worker that waits in such a frame picked up tasks offered from outside. When
such a task itself used NEWFRAME or TOGETHER, the frame could end in the
meantime and the barriers of both frames were mixed up.
---
 src/lace.c   | 16 ++++++++++++++--
 src/lace14.c | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 516b859..17e596c 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -152,6 +152,12 @@ static pthread_key_t current_worker_key;
  */
 lace_newframe_t lace_newframe;
 
+/**
+ * Number of frames of NEWFRAME and TOGETHER in progress. Tasks offered from outside do not belong
+ * to such a frame, so the workers leave them alone until the frame is done.
+ */
+static atomic_int lace_frames = 0;
+
 /**
  * Retrieve whether we are running as a Lace worker
  */
@@ -689,7 +695,7 @@ VOID_TASK_0(lace_steal_random)
 {
     YIELD_NEWFRAME();
 
-    if (unlikely(atomic_load_explicit(&external_task, memory_order_acquire) != 0)) {
+    if (unlikely(atomic_load_explicit(&external_task, memory_order_acquire) != 0) && lace_frames == 0) {
         lace_steal_external(__lace_worker, __lace_dq_head);
     } else if (n_workers > 1) {
         Worker *victim = workers[(__lace_worker->worker + 1 + rng(&__lace_worker->seed, n_workers-1)) % n_workers];
@@ -750,7 +756,7 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
 
         YIELD_NEWFRAME();
 
-        if (unlikely(atomic_load_explicit(&external_task, memory_order_acquire) != 0)) {
+        if (unlikely(atomic_load_explicit(&external_task, memory_order_acquire) != 0) && lace_frames == 0) {
             lace_steal_external(__lace_worker, __lace_dq_head);
         }
 
@@ -1272,6 +1278,7 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
         if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_t2)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
+    lace_frames += 1;
 
     // wait until other workers have made a local copy
     lace_barrier();
@@ -1280,6 +1287,8 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     atomic_store_explicit(&lace_newframe.t, NULL, memory_order_relaxed);
 
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t2);
+
+    lace_frames -= 1;
 }
 
 VOID_TASK_2(lace_newframe_root, Task*, t, atomic_int*, done)
@@ -1306,6 +1315,7 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
         if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
+    lace_frames += 1;
 
     // wait until other workers have made a local copy
     lace_barrier();
@@ -1322,6 +1332,8 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     t2->d.args.arg_2 = &done;
 
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t2);
+
+    lace_frames -= 1;
 }
 
 void
diff --git a/src/lace14.c b/src/lace14.c
index ed8c0c9..8574d7d 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -152,6 +152,12 @@ static pthread_key_t current_worker_key;
  */
 lace_newframe_t lace_newframe;
 
+/**
+ * Number of frames of NEWFRAME and TOGETHER in progress. Tasks offered from outside do not belong
+ * to such a frame, so the workers leave them alone until the frame is done.
+ */
+static atomic_int lace_frames = 0;
+
 /**
  * Retrieve whether we are running as a Lace worker
  */
@@ -689,7 +695,7 @@ VOID_TASK_0(lace_steal_random)
 {
     YIELD_NEWFRAME();
 
-    if (unlikely(atomic_load_explicit(&external_task, memory_order_acquire) != 0)) {
+    if (unlikely(atomic_load_explicit(&external_task, memory_order_acquire) != 0) && lace_frames == 0) {
         lace_steal_external(__lace_worker, __lace_dq_head);
     } else if (n_workers > 1) {
         Worker *victim = workers[(__lace_worker->worker + 1 + rng(&__lace_worker->seed, n_workers-1)) % n_workers];
@@ -750,7 +756,7 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
 
         YIELD_NEWFRAME();
 
-        if (unlikely(atomic_load_explicit(&external_task, memory_order_acquire) != 0)) {
+        if (unlikely(atomic_load_explicit(&external_task, memory_order_acquire) != 0) && lace_frames == 0) {
             lace_steal_external(__lace_worker, __lace_dq_head);
         }
 
@@ -1272,6 +1278,7 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
         if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_t2)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
+    lace_frames += 1;
 
     // wait until other workers have made a local copy
     lace_barrier();
@@ -1280,6 +1287,8 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     atomic_store_explicit(&lace_newframe.t, NULL, memory_order_relaxed);
 
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t2);
+
+    lace_frames -= 1;
 }
 
 VOID_TASK_2(lace_newframe_root, Task*, t, atomic_int*, done)
@@ -1306,6 +1315,7 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
         if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
+    lace_frames += 1;
 
     // wait until other workers have made a local copy
     lace_barrier();
@@ -1322,6 +1332,8 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     t2->d.args.arg_2 = &done;
 
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t2);
+
+    lace_frames -= 1;
 }
 
 void
-- 
2.43.0


From bdeaa0c9eec3587481edccb5cef26ae77e90cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:25 +0000
Subject: [PATCH 17/24] fix: destroy the hwloc topology in lace_stop

---
 src/lace.c   | 4 ++++
 src/lace14.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index 17e596c..868401a 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1169,6 +1169,10 @@ void lace_stop()
     workers = 0;
     workers_p = 0;
     workers_memory = 0;
+
+#if LACE_USE_HWLOC
+    hwloc_topology_destroy(topo);
+#endif
 }
 
 /**
diff --git a/src/lace14.c b/src/lace14.c
index 8574d7d..c638b27 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1169,6 +1169,10 @@ void lace_stop()
     workers = 0;
     workers_p = 0;
     workers_memory = 0;
+
+#if LACE_USE_HWLOC
+    hwloc_topology_destroy(topo);
+#endif
 }
 
 /**
-- 
2.43.0


From c6ee0a214e6ac0efdd1929d1995032203a244e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:38 +0000
Subject: [PATCH 18/24] fix: restore the private split point after NEWFRAME and
 TOGETHER

When lace_shrink_shared finds that all tasks are stolen, the public split is
lower than the private split. Restoring the private split from the public split
made stolen tasks look private, so SYNC executed them a second time and DROP did
not wait for them.
---
 src/lace.c   | 6 +++++-
 src/lace14.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 868401a..74eb203 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1187,6 +1187,7 @@ void
 lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
 {
     TailSplitNA old;
+    Task *old_split;
     uint8_t old_as;
 
     // save old tail, split, allstolen and initiate new frame
@@ -1205,6 +1206,9 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         ts_new.ts.split = __lace_dq_head - __lace_worker->dq;
         wt->ts.v = ts_new.v;
 
+        // (if all are stolen, this is not always the same as the public split)
+        old_split = __lace_worker->split;
+
         __lace_worker->split = __lace_dq_head;
         __lace_worker->allstolen = 1;
     }
@@ -1223,7 +1227,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         Worker *wt = __lace_worker->_public;
         wt->allstolen = old_as;
         wt->ts.v = old.v;
-        __lace_worker->split = __lace_worker->dq + old.ts.split;
+        __lace_worker->split = old_split;
         __lace_worker->allstolen = old_as;
     }
 }
diff --git a/src/lace14.c b/src/lace14.c
index c638b27..f0090f7 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1187,6 +1187,7 @@ void
 lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
 {
     TailSplitNA old;
+    Task *old_split;
     uint8_t old_as;
 
     // save old tail, split, allstolen and initiate new frame
@@ -1205,6 +1206,9 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         ts_new.ts.split = __lace_dq_head - __lace_worker->dq;
         wt->ts.v = ts_new.v;
 
+        // (if all are stolen, this is not always the same as the public split)
+        old_split = __lace_worker->split;
+
         __lace_worker->split = __lace_dq_head;
         __lace_worker->allstolen = 1;
     }
@@ -1223,7 +1227,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         Worker *wt = __lace_worker->_public;
         wt->allstolen = old_as;
         wt->ts.v = old.v;
-        __lace_worker->split = __lace_worker->dq + old.ts.split;
+        __lace_worker->split = old_split;
         __lace_worker->allstolen = old_as;
     }
 }
-- 
2.43.0


From 9a7cb04244fa4bb2c833ed68c82226e178af08c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:57 +0000
Subject: [PATCH 19/24] fix: PIE timers when a frame is the first application
 code of a worker

---
 src/lace.h   | 6 +++++-
 src/lace.sh  | 6 +++++-
 src/lace14.h | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/lace.h b/src/lace.h
index 17b390b..91b66ba 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -518,7 +518,11 @@ static void lace_time_event( WorkerP *w, int event )
 
             // Enter sync on stolen
         case 3 :
-            if( w->level /* level */ == 1 ) {
+            if( w->level /* level */ == 0 ) {
+                // first application code of this worker was a frame
+                PR_ADD( w, CTR_init, now - prev );
+                w->level = 1;
+            } else if( w->level /* level */ == 1 ) {
                 PR_ADD( w, CTR_wapp, now - prev );
             } else {
                 PR_ADD( w, CTR_lapp, now - prev );
diff --git a/src/lace.sh b/src/lace.sh
index ea76b42..930219a 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -525,7 +525,11 @@ static void lace_time_event( WorkerP *w, int event )
 
             // Enter sync on stolen
         case 3 :
-            if( w->level /* level */ == 1 ) {
+            if( w->level /* level */ == 0 ) {
+                // first application code of this worker was a frame
+                PR_ADD( w, CTR_init, now - prev );
+                w->level = 1;
+            } else if( w->level /* level */ == 1 ) {
                 PR_ADD( w, CTR_wapp, now - prev );
             } else {
                 PR_ADD( w, CTR_lapp, now - prev );
diff --git a/src/lace14.h b/src/lace14.h
index d47ccff..1ba1eba 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -518,7 +518,11 @@ static void lace_time_event( WorkerP *w, int event )
 
             // Enter sync on stolen
         case 3 :
-            if( w->level /* level */ == 1 ) {
+            if( w->level /* level */ == 0 ) {
+                // first application code of this worker was a frame
+                PR_ADD( w, CTR_init, now - prev );
+                w->level = 1;
+            } else if( w->level /* level */ == 1 ) {
                 PR_ADD( w, CTR_wapp, now - prev );
             } else {
                 PR_ADD( w, CTR_lapp, now - prev );
-- 
2.43.0


From a3eb2b1fed75c0eabe026a88ad05b3bb012ea86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:42 +0000
Subject: [PATCH 20/24] fix: reject a queue size of which the memory size
 overflows

---
 src/lace.c   | 6 +++++-
 src/lace14.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 74eb203..e5c0783 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -904,7 +904,11 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     // Ensure worker array is set to 0 initially
     memset(workers, 0, n_workers*sizeof(Worker*));
 
-    // Compute memory size for each worker
+    // Compute memory size for each worker (and make sure that it can be represented)
+    if (dqsize > (SIZE_MAX - sizeof(worker_data)) / sizeof(Task)) {
+        fprintf(stderr, "Lace error: unable to allocate memory for the workers!\n");
+        exit(1);
+    }
     workers_memory_size = sizeof(worker_data) + sizeof(Task) * dqsize;
 
 #ifndef __linux__
diff --git a/src/lace14.c b/src/lace14.c
index f0090f7..41836a3 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -904,7 +904,11 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     // Ensure worker array is set to 0 initially
     memset(workers, 0, n_workers*sizeof(Worker*));
 
-    // Compute memory size for each worker
+    // Compute memory size for each worker (and make sure that it can be represented)
+    if (dqsize > (SIZE_MAX - sizeof(worker_data)) / sizeof(Task)) {
+        fprintf(stderr, "Lace error: unable to allocate memory for the workers!\n");
+        exit(1);
+    }
     workers_memory_size = sizeof(worker_data) + sizeof(Task) * dqsize;
 
 #ifndef __linux__
-- 
2.43.0


From a402dac27501a8cf720265623a4957737743d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:42 +0000
Subject: [PATCH 21/24] fix: use only the available processors with
 LACE_USE_HWLOC

---
 src/lace.c   | 7 +++++++
 src/lace14.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index e5c0783..7260f4a 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -854,6 +854,13 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     hwloc_topology_init(&topo);
     hwloc_topology_load(topo);
 
+    // Leave out the logical processors that are not available to us
+    hwloc_bitmap_t available = hwloc_bitmap_alloc();
+    if (hwloc_get_cpubind(topo, available, HWLOC_CPUBIND_THREAD) == 0) {
+        hwloc_topology_restrict(topo, available, 0);
+    }
+    hwloc_bitmap_free(available);
+
     n_nodes = hwloc_get_nbobjs_by_type(topo, HWLOC_OBJ_NODE);
     n_cores = hwloc_get_nbobjs_by_type(topo, HWLOC_OBJ_CORE);
     n_pus = hwloc_get_nbobjs_by_type(topo, HWLOC_OBJ_PU);
diff --git a/src/lace14.c b/src/lace14.c
index 41836a3..de2d4c8 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -854,6 +854,13 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     hwloc_topology_init(&topo);
     hwloc_topology_load(topo);
 
+    // Leave out the logical processors that are not available to us
+    hwloc_bitmap_t available = hwloc_bitmap_alloc();
+    if (hwloc_get_cpubind(topo, available, HWLOC_CPUBIND_THREAD) == 0) {
+        hwloc_topology_restrict(topo, available, 0);
+    }
+    hwloc_bitmap_free(available);
+
     n_nodes = hwloc_get_nbobjs_by_type(topo, HWLOC_OBJ_NODE);
     n_cores = hwloc_get_nbobjs_by_type(topo, HWLOC_OBJ_CORE);
     n_pus = hwloc_get_nbobjs_by_type(topo, HWLOC_OBJ_PU);
-- 
2.43.0


From 910c5409a3736442bd947352aeae60a4ac1e2281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:52 +0000
Subject: [PATCH 22/24] fix: workers looked at each other before they were
 initialized

The array of workers and their public data were written by the new
threads without any order with the first steals of the others.
---
 src/lace.c   | 3 +++
 src/lace14.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index 7260f4a..0938368 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -787,6 +787,9 @@ lace_worker_thread(void* arg)
     // Wait for the first time we are resumed
     lace_sem_wait(&suspend_semaphore);
 
+    // Wait until all workers have initialized their data, because we look at it when stealing
+    lace_barrier();
+
     // Signal that we are running
     workers_running += 1;
 
diff --git a/src/lace14.c b/src/lace14.c
index de2d4c8..ded189e 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -787,6 +787,9 @@ lace_worker_thread(void* arg)
     // Wait for the first time we are resumed
     lace_sem_wait(&suspend_semaphore);
 
+    // Wait until all workers have initialized their data, because we look at it when stealing
+    lace_barrier();
+
     // Signal that we are running
     workers_running += 1;
 
-- 
2.43.0


From 7d1bb8080e4f588deb6b87cde3a1f479f6863e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:53 +0000
Subject: [PATCH 23/24] fix: data races on allstolen and movesplit

Both are written and read by different workers, so they have to be
atomic. Relaxed operations suffice, the generated code is the same.
---
 src/lace.c   |  10 +-
 src/lace.h   | 212 ++++++++++++-------------
 src/lace.sh  |  30 ++--
 src/lace14.c |  10 +-
 src/lace14.h | 436 +++++++++++++++++++++++++--------------------------
 5 files changed, 349 insertions(+), 349 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 0938368..fd08e7e 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -461,8 +461,8 @@ lace_init_worker(unsigned int worker)
     // Initialize public worker data
     wt->dq = w->dq;
     wt->ts.v = 0;
-    wt->allstolen = 0;
-    wt->movesplit = 0;
+    atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);
+    atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);
 
     // Initialize private worker data
     w->_public = wt;
@@ -1208,8 +1208,8 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
     {
         Worker *wt = __lace_worker->_public;
 
-        old_as = wt->allstolen;
-        wt->allstolen = 1;
+        old_as = atomic_load_explicit(&wt->allstolen, memory_order_relaxed);
+        atomic_store_explicit(&wt->allstolen, 1, memory_order_relaxed);
         old.ts.split = wt->ts.ts.split;
         wt->ts.ts.split = 0;
         atomic_thread_fence(memory_order_seq_cst);
@@ -1239,7 +1239,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
     // restore tail, split, allstolen
     {
         Worker *wt = __lace_worker->_public;
-        wt->allstolen = old_as;
+        atomic_store_explicit(&wt->allstolen, old_as, memory_order_relaxed);
         wt->ts.v = old.v;
         __lace_worker->split = old_split;
         __lace_worker->allstolen = old_as;
diff --git a/src/lace.h b/src/lace.h
index 91b66ba..da76a92 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -432,11 +432,11 @@ typedef union {
 typedef struct _Worker {
     Task *dq;
     TailSplit ts;
-    uint8_t allstolen;
+    _Atomic(uint8_t) allstolen;
 
     char pad1[PAD(P_SZ+sizeof(TailSplit)+1, LINE_SIZE)];
 
-    uint8_t movesplit;
+    _Atomic(uint8_t) movesplit;
 } Worker;
 
 typedef struct _WorkerP {
@@ -583,7 +583,7 @@ static void lace_time_event( WorkerP *w, int event )
 static Worker* __attribute__((noinline))
 lace_steal(WorkerP *self, Task *__dq_head, Worker *victim)
 {
-    if (victim != NULL && !victim->allstolen) {
+    if (victim != NULL && !atomic_load_explicit(&victim->allstolen, memory_order_relaxed)) {
         TailSplitNA ts;
         ts.v = victim->ts.v;
         if (ts.ts.tail < ts.ts.split) {
@@ -606,8 +606,8 @@ lace_steal(WorkerP *self, Task *__dq_head, Worker *victim)
             return LACE_BUSY;
         }
 
-        if (victim->movesplit == 0) {
-            victim->movesplit = 1;
+        if (atomic_load_explicit(&victim->movesplit, memory_order_relaxed) == 0) {
+            atomic_store_explicit(&victim->movesplit, 1, memory_order_relaxed);
             PR_COUNTSPLITS(self, CTR_split_req);
         }
     }
@@ -641,7 +641,7 @@ lace_shrink_shared(WorkerP *w)
         }
     }
 
-    wt->allstolen = 1;
+    atomic_store_explicit(&wt->allstolen, 1, memory_order_relaxed);
     w->allstolen = 1;
     return 1;
 }
@@ -683,7 +683,7 @@ lace_leapfrog(WorkerP *__lace_worker, Task *__lace_dq_head)
             /* Assume: tail = split = head (pre-pop) */
             /* Now we do a real pop ergo either decrease tail,split,head or declare allstolen */
             Worker *wt = __lace_worker->_public;
-            wt->allstolen = 1;
+            atomic_store_explicit(&wt->allstolen, 1, memory_order_relaxed);
             __lace_worker->allstolen = 1;
         }
     }
@@ -707,7 +707,7 @@ void lace_drop_slow(WorkerP *w, Task *__dq_head)
 static inline __attribute__((unused))
 void lace_drop(WorkerP *w, Task *__dq_head)
 {
-    if (likely(0 == w->_public->movesplit)) {
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {
         if (likely(w->split <= __dq_head)) {
             atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
@@ -754,22 +754,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head )
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -835,14 +835,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -858,7 +858,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -926,22 +926,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head )
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -1007,14 +1007,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -1030,7 +1030,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -1101,22 +1101,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1)
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -1182,14 +1182,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -1205,7 +1205,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -1273,22 +1273,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1)
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -1354,14 +1354,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -1377,7 +1377,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -1448,22 +1448,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2)
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -1529,14 +1529,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -1552,7 +1552,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -1620,22 +1620,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2)
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -1701,14 +1701,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -1724,7 +1724,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -1795,22 +1795,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -1876,14 +1876,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -1899,7 +1899,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -1967,22 +1967,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -2048,14 +2048,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -2071,7 +2071,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -2142,22 +2142,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -2223,14 +2223,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -2246,7 +2246,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -2314,22 +2314,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -2395,14 +2395,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -2418,7 +2418,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -2489,22 +2489,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -2570,14 +2570,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -2593,7 +2593,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -2661,22 +2661,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -2742,14 +2742,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -2765,7 +2765,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -2836,22 +2836,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -2917,14 +2917,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -2940,7 +2940,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -3008,22 +3008,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -3089,14 +3089,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -3112,7 +3112,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
diff --git a/src/lace.sh b/src/lace.sh
index 930219a..2e3d682 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -439,11 +439,11 @@ typedef union {
 typedef struct _Worker {
     Task *dq;
     TailSplit ts;
-    uint8_t allstolen;
+    _Atomic(uint8_t) allstolen;
 
     char pad1[PAD(P_SZ+sizeof(TailSplit)+1, LINE_SIZE)];
 
-    uint8_t movesplit;
+    _Atomic(uint8_t) movesplit;
 } Worker;
 
 typedef struct _WorkerP {
@@ -590,7 +590,7 @@ static void lace_time_event( WorkerP *w, int event )
 static Worker* __attribute__((noinline))
 lace_steal(WorkerP *self, Task *__dq_head, Worker *victim)
 {
-    if (victim != NULL && !victim->allstolen) {
+    if (victim != NULL && !atomic_load_explicit(&victim->allstolen, memory_order_relaxed)) {
         TailSplitNA ts;
         ts.v = victim->ts.v;
         if (ts.ts.tail < ts.ts.split) {
@@ -613,8 +613,8 @@ lace_steal(WorkerP *self, Task *__dq_head, Worker *victim)
             return LACE_BUSY;
         }
 
-        if (victim->movesplit == 0) {
-            victim->movesplit = 1;
+        if (atomic_load_explicit(&victim->movesplit, memory_order_relaxed) == 0) {
+            atomic_store_explicit(&victim->movesplit, 1, memory_order_relaxed);
             PR_COUNTSPLITS(self, CTR_split_req);
         }
     }
@@ -648,7 +648,7 @@ lace_shrink_shared(WorkerP *w)
         }
     }
 
-    wt->allstolen = 1;
+    atomic_store_explicit(&wt->allstolen, 1, memory_order_relaxed);
     w->allstolen = 1;
     return 1;
 }
@@ -690,7 +690,7 @@ lace_leapfrog(WorkerP *__lace_worker, Task *__lace_dq_head)
             /* Assume: tail = split = head (pre-pop) */
             /* Now we do a 'real pop' ergo either decrease tail,split,head or declare allstolen */
             Worker *wt = __lace_worker->_public;
-            wt->allstolen = 1;
+            atomic_store_explicit(&wt->allstolen, 1, memory_order_relaxed);
             __lace_worker->allstolen = 1;
         }
     }
@@ -714,7 +714,7 @@ void lace_drop_slow(WorkerP *w, Task *__dq_head)
 static inline __attribute__((unused))
 void lace_drop(WorkerP *w, Task *__dq_head)
 {
-    if (likely(0 == w->_public->movesplit)) {
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {
         if (likely(w->split <= __dq_head)) {
             atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
@@ -812,22 +812,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head $FUN_ARGS)
 
     Worker *wt = w->_public;
     if (unlikely(w->allstolen)) {
-        if (wt->movesplit) wt->movesplit = 0;
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);
         head = __dq_head - w->dq;
         ts = (TailSplitNA){{head,head+1}};
         wt->ts.v = ts.v;
         /*compiler_barrier();*/
-        wt->allstolen = 0;
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);
         w->split = __dq_head+1;
         w->allstolen = 0;
-    } else if (unlikely(wt->movesplit)) {
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {
         head = __dq_head - w->dq;
         split = w->split - w->dq;
         newsplit = (split + head + 2)/2;
         wt->ts.ts.split = newsplit;
         w->split = w->dq + newsplit;
         /*compiler_barrier();*/
-        wt->movesplit = 0;
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);
         PR_COUNTSPLITS(w, CTR_split_grow);
     }
 }
@@ -893,14 +893,14 @@ $RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/
 
     Worker *wt = w->_public;
-    if (wt->movesplit) {
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {
         Task *t = w->split;
         size_t diff = __dq_head - t;
         diff = (diff + 1) / 2;
         w->split = t + diff;
         wt->ts.ts.split += diff;
         /*compiler_barrier();*/
-        wt->movesplit = 0;
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);
         PR_COUNTSPLITS(w, CTR_split_grow);
     }
 
@@ -916,7 +916,7 @@ $RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */
 
-    if (likely(0 == w->_public->movesplit)) {
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {
         if (likely(w->split <= __dq_head)) {
             TD_##NAME *t = (TD_##NAME *)__dq_head;
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);
diff --git a/src/lace14.c b/src/lace14.c
index ded189e..a1a92ad 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -461,8 +461,8 @@ lace_init_worker(unsigned int worker)
     // Initialize public worker data
     wt->dq = w->dq;
     wt->ts.v = 0;
-    wt->allstolen = 0;
-    wt->movesplit = 0;
+    atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);
+    atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);
 
     // Initialize private worker data
     w->_public = wt;
@@ -1208,8 +1208,8 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
     {
         Worker *wt = __lace_worker->_public;
 
-        old_as = wt->allstolen;
-        wt->allstolen = 1;
+        old_as = atomic_load_explicit(&wt->allstolen, memory_order_relaxed);
+        atomic_store_explicit(&wt->allstolen, 1, memory_order_relaxed);
         old.ts.split = wt->ts.ts.split;
         wt->ts.ts.split = 0;
         atomic_thread_fence(memory_order_seq_cst);
@@ -1239,7 +1239,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
     // restore tail, split, allstolen
     {
         Worker *wt = __lace_worker->_public;
-        wt->allstolen = old_as;
+        atomic_store_explicit(&wt->allstolen, old_as, memory_order_relaxed);
         wt->ts.v = old.v;
         __lace_worker->split = old_split;
         __lace_worker->allstolen = old_as;
diff --git a/src/lace14.h b/src/lace14.h
index 1ba1eba..e15eb40 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -432,11 +432,11 @@ typedef union {
 typedef struct _Worker {
     Task *dq;
     TailSplit ts;
-    uint8_t allstolen;
+    _Atomic(uint8_t) allstolen;
 
     char pad1[PAD(P_SZ+sizeof(TailSplit)+1, LINE_SIZE)];
 
-    uint8_t movesplit;
+    _Atomic(uint8_t) movesplit;
 } Worker;
 
 typedef struct _WorkerP {
@@ -583,7 +583,7 @@ static void lace_time_event( WorkerP *w, int event )
 static Worker* __attribute__((noinline))
 lace_steal(WorkerP *self, Task *__dq_head, Worker *victim)
 {
-    if (victim != NULL && !victim->allstolen) {
+    if (victim != NULL && !atomic_load_explicit(&victim->allstolen, memory_order_relaxed)) {
         TailSplitNA ts;
         ts.v = victim->ts.v;
         if (ts.ts.tail < ts.ts.split) {
@@ -606,8 +606,8 @@ lace_steal(WorkerP *self, Task *__dq_head, Worker *victim)
             return LACE_BUSY;
         }
 
-        if (victim->movesplit == 0) {
-            victim->movesplit = 1;
+        if (atomic_load_explicit(&victim->movesplit, memory_order_relaxed) == 0) {
+            atomic_store_explicit(&victim->movesplit, 1, memory_order_relaxed);
             PR_COUNTSPLITS(self, CTR_split_req);
         }
     }
@@ -641,7 +641,7 @@ lace_shrink_shared(WorkerP *w)
         }
     }
 
-    wt->allstolen = 1;
+    atomic_store_explicit(&wt->allstolen, 1, memory_order_relaxed);
     w->allstolen = 1;
     return 1;
 }
@@ -683,7 +683,7 @@ lace_leapfrog(WorkerP *__lace_worker, Task *__lace_dq_head)
             /* Assume: tail = split = head (pre-pop) */
             /* Now we do a real pop ergo either decrease tail,split,head or declare allstolen */
             Worker *wt = __lace_worker->_public;
-            wt->allstolen = 1;
+            atomic_store_explicit(&wt->allstolen, 1, memory_order_relaxed);
             __lace_worker->allstolen = 1;
         }
     }
@@ -707,7 +707,7 @@ void lace_drop_slow(WorkerP *w, Task *__dq_head)
 static inline __attribute__((unused))
 void lace_drop(WorkerP *w, Task *__dq_head)
 {
-    if (likely(0 == w->_public->movesplit)) {
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {
         if (likely(w->split <= __dq_head)) {
             atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
@@ -754,22 +754,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head )
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -835,14 +835,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -858,7 +858,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -926,22 +926,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head )
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -1007,14 +1007,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -1030,7 +1030,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -1101,22 +1101,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1)
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -1182,14 +1182,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -1205,7 +1205,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -1273,22 +1273,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1)
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -1354,14 +1354,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -1377,7 +1377,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -1448,22 +1448,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2)
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -1529,14 +1529,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -1552,7 +1552,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -1620,22 +1620,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2)
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -1701,14 +1701,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -1724,7 +1724,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -1795,22 +1795,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -1876,14 +1876,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -1899,7 +1899,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -1967,22 +1967,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -2048,14 +2048,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -2071,7 +2071,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -2142,22 +2142,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -2223,14 +2223,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -2246,7 +2246,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -2314,22 +2314,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -2395,14 +2395,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -2418,7 +2418,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -2489,22 +2489,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -2570,14 +2570,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -2593,7 +2593,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -2661,22 +2661,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -2742,14 +2742,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -2765,7 +2765,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -2836,22 +2836,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -2917,14 +2917,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -2940,7 +2940,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -3008,22 +3008,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -3089,14 +3089,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -3112,7 +3112,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -3183,22 +3183,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -3264,14 +3264,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -3287,7 +3287,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -3355,22 +3355,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -3436,14 +3436,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -3459,7 +3459,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -3530,22 +3530,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -3611,14 +3611,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -3634,7 +3634,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -3702,22 +3702,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -3783,14 +3783,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -3806,7 +3806,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -3877,22 +3877,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -3958,14 +3958,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -3981,7 +3981,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -4049,22 +4049,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -4130,14 +4130,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -4153,7 +4153,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -4224,22 +4224,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -4305,14 +4305,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -4328,7 +4328,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -4396,22 +4396,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -4477,14 +4477,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -4500,7 +4500,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -4571,22 +4571,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -4652,14 +4652,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -4675,7 +4675,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -4743,22 +4743,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -4824,14 +4824,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -4847,7 +4847,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -4918,22 +4918,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -4999,14 +4999,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -5022,7 +5022,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -5090,22 +5090,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -5171,14 +5171,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -5194,7 +5194,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -5265,22 +5265,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -5346,14 +5346,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -5369,7 +5369,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -5437,22 +5437,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -5518,14 +5518,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -5541,7 +5541,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -5612,22 +5612,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -5693,14 +5693,14 @@ RTYPE NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -5716,7 +5716,7 @@ RTYPE NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
@@ -5784,22 +5784,22 @@ void NAME##_SPAWN(WorkerP *w, Task *__dq_head , ATYPE_1 arg_1, ATYPE_2 arg_2, AT
                                                                                       \
     Worker *wt = w->_public;                                                          \
     if (unlikely(w->allstolen)) {                                                     \
-        if (wt->movesplit) wt->movesplit = 0;                                         \
+        if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);\
         head = __dq_head - w->dq;                                                     \
         ts = (TailSplitNA){{head,head+1}};                                            \
         wt->ts.v = ts.v;                                                              \
         /*compiler_barrier();*/                                                       \
-        wt->allstolen = 0;                                                            \
+        atomic_store_explicit(&wt->allstolen, 0, memory_order_relaxed);               \
         w->split = __dq_head+1;                                                       \
         w->allstolen = 0;                                                             \
-    } else if (unlikely(wt->movesplit)) {                                             \
+    } else if (unlikely(atomic_load_explicit(&wt->movesplit, memory_order_relaxed))) {\
         head = __dq_head - w->dq;                                                     \
         split = w->split - w->dq;                                                     \
         newsplit = (split + head + 2)/2;                                              \
         wt->ts.ts.split = newsplit;                                                   \
         w->split = w->dq + newsplit;                                                  \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
 }                                                                                     \
@@ -5865,14 +5865,14 @@ void NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)
     /*compiler_barrier();*/                                                           \
                                                                                       \
     Worker *wt = w->_public;                                                          \
-    if (wt->movesplit) {                                                              \
+    if (atomic_load_explicit(&wt->movesplit, memory_order_relaxed)) {                 \
         Task *t = w->split;                                                           \
         size_t diff = __dq_head - t;                                                  \
         diff = (diff + 1) / 2;                                                        \
         w->split = t + diff;                                                          \
         wt->ts.ts.split += diff;                                                      \
         /*compiler_barrier();*/                                                       \
-        wt->movesplit = 0;                                                            \
+        atomic_store_explicit(&wt->movesplit, 0, memory_order_relaxed);               \
         PR_COUNTSPLITS(w, CTR_split_grow);                                            \
     }                                                                                 \
                                                                                       \
@@ -5888,7 +5888,7 @@ void NAME##_SYNC(WorkerP *w, Task *__dq_head)
 {                                                                                     \
     /* assert (__dq_head > 0); */  /* Commented out because we assume contract */     \
                                                                                       \
-    if (likely(0 == w->_public->movesplit)) {                                         \
+    if (likely(0 == atomic_load_explicit(&w->_public->movesplit, memory_order_relaxed))) {\
         if (likely(w->split <= __dq_head)) {                                          \
             TD_##NAME *t = (TD_##NAME *)__dq_head;                                    \
             atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);      \
-- 
2.43.0


From 92d93f2e625afed5be2caaada82b68043acf8287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:19 +0000
Subject: [PATCH 24/24] fix: pkg-config files of builds with hwloc do not name
 it

---
 src/lace.pc.in   | 2 +-
 src/lace14.pc.in | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lace.pc.in b/src/lace.pc.in
index f86fc50..7a82ab3 100644
--- a/src/lace.pc.in
+++ b/src/lace.pc.in
@@ -6,4 +6,4 @@ Description: @PROJECT_DESCRIPTION@
 URL: @PROJECT_HOMEPAGE_URL@
 Version: @PROJECT_VERSION@
 Cflags: -I${includedir}
-Libs: -L${libdir} -lpthread -llace
+Libs: -L${libdir} -llace -lpthread @HWLOC_LIBRARIES@
diff --git a/src/lace14.pc.in b/src/lace14.pc.in
index 31c9cff..e825554 100644
--- a/src/lace14.pc.in
+++ b/src/lace14.pc.in
@@ -6,4 +6,4 @@ Description: @PROJECT_DESCRIPTION@
 URL: @PROJECT_HOMEPAGE_URL@
 Version: @PROJECT_VERSION@
 Cflags: -I${includedir}
-Libs: -L${libdir} -lpthread -llace14
+Libs: -L${libdir} -llace14 -lpthread @HWLOC_LIBRARIES@
-- 
2.43.0


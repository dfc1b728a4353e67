From f61e0567ab52837f9b899639343e8db5444b5d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:32 +0000
Subject: [PATCH 01/15] fix: DROP marks the task slot empty so that
 lace_get_head stays correct

---
 src/lace.h   | 2 ++
 src/lace.sh  | 2 ++
 src/lace14.h | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/lace.h b/src/lace.h
index fe99dea..19ec73d 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -694,6 +694,7 @@ static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
     if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
 }
 
 static inline __attribute__((unused))
@@ -701,6 +702,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
diff --git a/src/lace.sh b/src/lace.sh
index b534023..8c82a4c 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -701,6 +701,7 @@ static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
     if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
 }
 
 static inline __attribute__((unused))
@@ -708,6 +709,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
diff --git a/src/lace14.h b/src/lace14.h
index 085fb59..53dba42 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -694,6 +694,7 @@ static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
     if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
 }
 
 static inline __attribute__((unused))
@@ -701,6 +702,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
-- 
2.43.0


From daa122763fdce3497fd8e450dd35970146fd57b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:32 +0000
Subject: [PATCH 02/15] fix: lace_barrier orders what workers did before it
 before what they do after it

---
 src/lace.c   | 4 ++--
 src/lace14.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 29019f6..db434fd 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -255,12 +255,12 @@ void
 lace_barrier()
 {
     int wait = lace_bar.wait;
-    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_relaxed))) {
+    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel))) {
         // we know for sure no other thread can be here
         atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);
         atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);
         // flip wait
-        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_relaxed);
+        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);
     } else {
         while (wait == lace_bar.wait) {} // wait
     }
diff --git a/src/lace14.c b/src/lace14.c
index deb232b..3f5eb55 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -255,12 +255,12 @@ void
 lace_barrier()
 {
     int wait = lace_bar.wait;
-    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_relaxed))) {
+    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel))) {
         // we know for sure no other thread can be here
         atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);
         atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);
         // flip wait
-        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_relaxed);
+        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);
     } else {
         while (wait == lace_bar.wait) {} // wait
     }
-- 
2.43.0


From fad184e27ef09d4de3ab2d22503c865fadaa3b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:01 +0000
Subject: [PATCH 03/15] fix: TOGETHER runs a private copy of the task on every
 worker

---
 src/lace.c   | 6 +++++-
 src/lace14.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index db434fd..258fcca 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1206,8 +1206,12 @@ lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head)
  */
 VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
 {
+    // every worker runs its own copy (the result may overwrite the parameters)
+    Task _t;
+    memcpy(&_t, t, sizeof(Task));
+
     // run the root task
-    t->f(__lace_worker, __lace_dq_head, t);
+    _t.f(__lace_worker, __lace_dq_head, &_t);
 
     // signal out completion
     *finished -= 1;
diff --git a/src/lace14.c b/src/lace14.c
index 3f5eb55..41cc0cc 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1206,8 +1206,12 @@ lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head)
  */
 VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
 {
+    // every worker runs its own copy (the result may overwrite the parameters)
+    Task _t;
+    memcpy(&_t, t, sizeof(Task));
+
     // run the root task
-    t->f(__lace_worker, __lace_dq_head, t);
+    _t.f(__lace_worker, __lace_dq_head, &_t);
 
     // signal out completion
     *finished -= 1;
-- 
2.43.0


From 522d48588e36c44ae16974738ff3f0845dd0abef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:28 +0000
Subject: [PATCH 04/15] fix: a spurious failure to claim lace_newframe no
 longer yields to a missing frame

---
 src/lace.c   | 4 ++--
 src/lace14.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 258fcca..2440727 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1236,7 +1236,7 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_t2)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_t2)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
@@ -1270,7 +1270,7 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_s)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
diff --git a/src/lace14.c b/src/lace14.c
index 41cc0cc..da1363f 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1236,7 +1236,7 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_t2)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_t2)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
@@ -1270,7 +1270,7 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_s)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
-- 
2.43.0


From 7f58dcbcacd1b11a84f1e78183ff0c72c066536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:59 +0000
Subject: [PATCH 05/15] fix: concurrent RUNs no longer overwrite a waiting
 external task

---
 src/lace.c   | 4 ++--
 src/lace14.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 2440727..7e9bac9 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -578,7 +578,7 @@ lace_run_task(Task *task)
         pthread_mutex_unlock(&external_task_lock);
 
         ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
@@ -625,7 +625,7 @@ lace_run_task_exclusive(Task *task)
         pthread_mutex_unlock(&external_task_lock);
 
         ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
diff --git a/src/lace14.c b/src/lace14.c
index da1363f..b03abcb 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -578,7 +578,7 @@ lace_run_task(Task *task)
         pthread_mutex_unlock(&external_task_lock);
 
         ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
@@ -625,7 +625,7 @@ lace_run_task_exclusive(Task *task)
         pthread_mutex_unlock(&external_task_lock);
 
         ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
-- 
2.43.0


From 32e4403b095de1ec25b58382142a2ea1d37867c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:59 +0000
Subject: [PATCH 06/15] fix: semaphore waits are repeated when a signal
 interrupts them

---
 src/lace.c   | 8 ++++----
 src/lace14.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 7e9bac9..267c69b 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -580,7 +580,7 @@ lace_run_task(Task *task)
         ExtTask *exp = 0;
         while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
-        sem_wait(&et.sem);
+        while (sem_wait(&et.sem) != 0) {} // again if interrupted by a signal
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -627,7 +627,7 @@ lace_run_task_exclusive(Task *task)
         ExtTask *exp = 0;
         while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
-        sem_wait(&et.sem);
+        while (sem_wait(&et.sem) != 0) {} // again if interrupted by a signal
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -736,7 +736,7 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
 
         if (unlikely(atomic_load_explicit(&must_suspend, memory_order_acquire))) {
             workers_running -= 1;
-            sem_wait(&suspend_semaphore);
+            while (sem_wait(&suspend_semaphore) != 0) {} // again if interrupted by a signal
             lace_barrier(); // ensure we're all back before continuing
             workers_running += 1;
         }
@@ -759,7 +759,7 @@ lace_worker_thread(void* arg)
     lace_pin_worker();
 
     // Wait for the first time we are resumed
-    sem_wait(&suspend_semaphore);
+    while (sem_wait(&suspend_semaphore) != 0) {} // again if interrupted by a signal
 
     // Signal that we are running
     workers_running += 1;
diff --git a/src/lace14.c b/src/lace14.c
index b03abcb..4516a3f 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -580,7 +580,7 @@ lace_run_task(Task *task)
         ExtTask *exp = 0;
         while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
-        sem_wait(&et.sem);
+        while (sem_wait(&et.sem) != 0) {} // again if interrupted by a signal
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -627,7 +627,7 @@ lace_run_task_exclusive(Task *task)
         ExtTask *exp = 0;
         while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
-        sem_wait(&et.sem);
+        while (sem_wait(&et.sem) != 0) {} // again if interrupted by a signal
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -736,7 +736,7 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
 
         if (unlikely(atomic_load_explicit(&must_suspend, memory_order_acquire))) {
             workers_running -= 1;
-            sem_wait(&suspend_semaphore);
+            while (sem_wait(&suspend_semaphore) != 0) {} // again if interrupted by a signal
             lace_barrier(); // ensure we're all back before continuing
             workers_running += 1;
         }
@@ -759,7 +759,7 @@ lace_worker_thread(void* arg)
     lace_pin_worker();
 
     // Wait for the first time we are resumed
-    sem_wait(&suspend_semaphore);
+    while (sem_wait(&suspend_semaphore) != 0) {} // again if interrupted by a signal
 
     // Signal that we are running
     workers_running += 1;
-- 
2.43.0


From d051f1ecce36d37e04664834b8cfeddb402711d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:33 +0000
Subject: [PATCH 07/15] fix: worker threads are detached, so that their
 resources are released when they end

---
 src/lace.c   | 3 +++
 src/lace14.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index 267c69b..a1b3b72 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -887,6 +887,9 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     pthread_attr_t worker_attr;
     pthread_attr_init(&worker_attr);
 
+    // Nobody joins the worker threads, so let them give back their resources when they end
+    pthread_attr_setdetachstate(&worker_attr, PTHREAD_CREATE_DETACHED);
+
     // Set the stack size
     if (stacksize != 0) {
         pthread_attr_setstacksize(&worker_attr, stacksize);
diff --git a/src/lace14.c b/src/lace14.c
index 4516a3f..dbfd2fb 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -887,6 +887,9 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     pthread_attr_t worker_attr;
     pthread_attr_init(&worker_attr);
 
+    // Nobody joins the worker threads, so let them give back their resources when they end
+    pthread_attr_setdetachstate(&worker_attr, PTHREAD_CREATE_DETACHED);
+
     // Set the stack size
     if (stacksize != 0) {
         pthread_attr_setstacksize(&worker_attr, stacksize);
-- 
2.43.0


From 8c6c53320ab35195ee08b9b9e67bfa04d4774af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:08 +0000
Subject: [PATCH 08/15] fix: a new frame restores the worker's own split point,
 so stolen tasks are not run again

---
 src/lace.c   | 4 +++-
 src/lace14.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index a1b3b72..df84619 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1146,6 +1146,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
 {
     TailSplitNA old;
     uint8_t old_as;
+    Task *old_split;
 
     // save old tail, split, allstolen and initiate new frame
     {
@@ -1153,6 +1154,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
 
         old_as = wt->allstolen;
         wt->allstolen = 1;
+        old_split = __lace_worker->split; // not always dq+ts.split when all is stolen
         old.ts.split = wt->ts.ts.split;
         wt->ts.ts.split = 0;
         atomic_thread_fence(memory_order_seq_cst);
@@ -1181,7 +1183,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         Worker *wt = __lace_worker->_public;
         wt->allstolen = old_as;
         wt->ts.v = old.v;
-        __lace_worker->split = __lace_worker->dq + old.ts.split;
+        __lace_worker->split = old_split;
         __lace_worker->allstolen = old_as;
     }
 }
diff --git a/src/lace14.c b/src/lace14.c
index dbfd2fb..a8c2f42 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1146,6 +1146,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
 {
     TailSplitNA old;
     uint8_t old_as;
+    Task *old_split;
 
     // save old tail, split, allstolen and initiate new frame
     {
@@ -1153,6 +1154,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
 
         old_as = wt->allstolen;
         wt->allstolen = 1;
+        old_split = __lace_worker->split; // not always dq+ts.split when all is stolen
         old.ts.split = wt->ts.ts.split;
         wt->ts.ts.split = 0;
         atomic_thread_fence(memory_order_seq_cst);
@@ -1181,7 +1183,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         Worker *wt = __lace_worker->_public;
         wt->allstolen = old_as;
         wt->ts.v = old.v;
-        __lace_worker->split = __lace_worker->dq + old.ts.split;
+        __lace_worker->split = old_split;
         __lace_worker->allstolen = old_as;
     }
 }
-- 
2.43.0


From f7358c33ffaf677b281d96bf10e0fc0c9aa69222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:31 +0000
Subject: [PATCH 09/15] fix: lace_get_head no longer reads past the end of a
 task deque of fewer than four slots

---
 src/lace.c   | 12 ++++++------
 src/lace14.c | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index df84619..da2b6ec 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -164,15 +164,15 @@ lace_get_head(WorkerP *self)
     Task *dq = self->dq;
 
     /* First check the first tasks linearly */
-    if (dq[0].thief == 0) return dq;
-    if (dq[1].thief == 0) return dq+1;
-    if (dq[2].thief == 0) return dq+2;
-    if (dq[3].thief == 0) return dq+3;
-
-    /* Then fast search for a low/high bound using powers of 2: 4, 8, 16... */
     size_t low = 2;
     size_t high = self->end - self->dq;
 
+    for (size_t i = 0; i < 4; i++) {
+        if (i == high || dq[i].thief == 0) return dq+i;
+    }
+
+    /* Then fast search for a low/high bound using powers of 2: 4, 8, 16... */
+
     for (;;) {
         if (low*2 >= high) {
             break;
diff --git a/src/lace14.c b/src/lace14.c
index a8c2f42..f839cbf 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -164,15 +164,15 @@ lace_get_head(WorkerP *self)
     Task *dq = self->dq;
 
     /* First check the first tasks linearly */
-    if (dq[0].thief == 0) return dq;
-    if (dq[1].thief == 0) return dq+1;
-    if (dq[2].thief == 0) return dq+2;
-    if (dq[3].thief == 0) return dq+3;
-
-    /* Then fast search for a low/high bound using powers of 2: 4, 8, 16... */
     size_t low = 2;
     size_t high = self->end - self->dq;
 
+    for (size_t i = 0; i < 4; i++) {
+        if (i == high || dq[i].thief == 0) return dq+i;
+    }
+
+    /* Then fast search for a low/high bound using powers of 2: 4, 8, 16... */
+
     for (;;) {
         if (low*2 >= high) {
             break;
-- 
2.43.0


From 37f61027d0e3f303dcdb6469a56f7bc103668b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:59 +0000
Subject: [PATCH 10/15] fix: a deque size of 0 means the default size, whatever
 an earlier lace_start used

---
 src/lace.c   | 7 ++++---
 src/lace14.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index da2b6ec..489840d 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -72,7 +72,8 @@ static Worker **workers = NULL;
  * Default sizes for program stack and task deque
  */
 static size_t stacksize = 0; // 0 means just take default
-static size_t default_dqsize = 100000;
+#define LACE_DEFAULT_DQSIZE 100000
+static size_t default_dqsize = LACE_DEFAULT_DQSIZE;
 
 /**
  * Verbosity flag, set with lace_set_verbosity
@@ -835,8 +836,8 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     // Initialize globals
     n_workers = _n_workers == 0 ? n_pus : _n_workers;
-    if (dqsize != 0) default_dqsize = dqsize;
-    else dqsize = default_dqsize;
+    if (dqsize == 0) dqsize = LACE_DEFAULT_DQSIZE; // also if an earlier start used another size
+    default_dqsize = dqsize;
     lace_quits = 0;
     atomic_store_explicit(&workers_running, 0, memory_order_relaxed);
 
diff --git a/src/lace14.c b/src/lace14.c
index f839cbf..0d9277b 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -72,7 +72,8 @@ static Worker **workers = NULL;
  * Default sizes for program stack and task deque
  */
 static size_t stacksize = 0; // 0 means just take default
-static size_t default_dqsize = 100000;
+#define LACE_DEFAULT_DQSIZE 100000
+static size_t default_dqsize = LACE_DEFAULT_DQSIZE;
 
 /**
  * Verbosity flag, set with lace_set_verbosity
@@ -835,8 +836,8 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     // Initialize globals
     n_workers = _n_workers == 0 ? n_pus : _n_workers;
-    if (dqsize != 0) default_dqsize = dqsize;
-    else dqsize = default_dqsize;
+    if (dqsize == 0) dqsize = LACE_DEFAULT_DQSIZE; // also if an earlier start used another size
+    default_dqsize = dqsize;
     lace_quits = 0;
     atomic_store_explicit(&workers_running, 0, memory_order_relaxed);
 
-- 
2.43.0


From fc50b252a38cdbd05b600454d3cef5eed984261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 11/15] fix: time accounting is not restarted in a new frame,
 so no time is lost

---
 src/lace.c   | 7 +++----
 src/lace14.c | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 489840d..1b4d222 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -698,10 +698,6 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
     Worker ** const self = &workers[worker_id];
     Worker ** victim = self;
 
-#if LACE_PIE_TIMES
-    __lace_worker->time = gethrtime();
-#endif
-
     uint32_t seed = worker_id;
     unsigned int n = n_workers;
     int i=0;
@@ -768,6 +764,9 @@ lace_worker_thread(void* arg)
     // Run the steal loop
     WorkerP *__lace_worker = lace_get_worker();
     Task *__lace_dq_head = lace_get_head(__lace_worker);
+#if LACE_PIE_TIMES
+    __lace_worker->time = gethrtime();
+#endif
     lace_steal_loop_WORK(__lace_worker, __lace_dq_head, &lace_quits);
 
     // Time worker exit event
diff --git a/src/lace14.c b/src/lace14.c
index 0d9277b..56f3af0 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -698,10 +698,6 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
     Worker ** const self = &workers[worker_id];
     Worker ** victim = self;
 
-#if LACE_PIE_TIMES
-    __lace_worker->time = gethrtime();
-#endif
-
     uint32_t seed = worker_id;
     unsigned int n = n_workers;
     int i=0;
@@ -768,6 +764,9 @@ lace_worker_thread(void* arg)
     // Run the steal loop
     WorkerP *__lace_worker = lace_get_worker();
     Task *__lace_dq_head = lace_get_head(__lace_worker);
+#if LACE_PIE_TIMES
+    __lace_worker->time = gethrtime();
+#endif
     lace_steal_loop_WORK(__lace_worker, __lace_dq_head, &lace_quits);
 
     // Time worker exit event
-- 
2.43.0


From 86acf9d129dd49344374e1db84a4b21aa5a17586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:10 +0000
Subject: [PATCH 12/15] fix: the time report does not divide by zero when less
 than a millisecond has passed

---
 src/lace.c   | 7 ++++---
 src/lace14.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 1b4d222..0782bb6 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1040,15 +1040,16 @@ lace_count_report_file(FILE *file)
 #if LACE_PIE_TIMES
     count_at_end = gethrtime();
 
-    uint64_t count_per_ms = (count_at_end - count_at_start) / (us_elapsed() / 1000);
-    double dcpm = (double)count_per_ms;
+    uint64_t us = us_elapsed(); // may be less than one ms, even 0
+    double dcpm = (double)(count_at_end - count_at_start) * 1000.0 / (double)(us > 0 ? us : 1);
+    if (dcpm == 0) dcpm = 1;
 
     uint64_t sum_count;
     sum_count = ctr_all[CTR_init] + ctr_all[CTR_wapp] + ctr_all[CTR_lapp] + ctr_all[CTR_wsteal] + ctr_all[CTR_lsteal]
               + ctr_all[CTR_close] + ctr_all[CTR_wstealsucc] + ctr_all[CTR_lstealsucc] + ctr_all[CTR_wsignal]
               + ctr_all[CTR_lsignal];
 
-    fprintf(file, "Measured clock (tick) frequency: %.2f GHz\n", count_per_ms / 1000000.0);
+    fprintf(file, "Measured clock (tick) frequency: %.2f GHz\n", dcpm / 1000000.0);
     fprintf(file, "Aggregated time per pie slice, total time: %.2f CPU seconds\n\n", sum_count / (1000*dcpm));
 
     for (i=0;i<n_workers;i++) {
diff --git a/src/lace14.c b/src/lace14.c
index 56f3af0..c369329 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1040,15 +1040,16 @@ lace_count_report_file(FILE *file)
 #if LACE_PIE_TIMES
     count_at_end = gethrtime();
 
-    uint64_t count_per_ms = (count_at_end - count_at_start) / (us_elapsed() / 1000);
-    double dcpm = (double)count_per_ms;
+    uint64_t us = us_elapsed(); // may be less than one ms, even 0
+    double dcpm = (double)(count_at_end - count_at_start) * 1000.0 / (double)(us > 0 ? us : 1);
+    if (dcpm == 0) dcpm = 1;
 
     uint64_t sum_count;
     sum_count = ctr_all[CTR_init] + ctr_all[CTR_wapp] + ctr_all[CTR_lapp] + ctr_all[CTR_wsteal] + ctr_all[CTR_lsteal]
               + ctr_all[CTR_close] + ctr_all[CTR_wstealsucc] + ctr_all[CTR_lstealsucc] + ctr_all[CTR_wsignal]
               + ctr_all[CTR_lsignal];
 
-    fprintf(file, "Measured clock (tick) frequency: %.2f GHz\n", count_per_ms / 1000000.0);
+    fprintf(file, "Measured clock (tick) frequency: %.2f GHz\n", dcpm / 1000000.0);
     fprintf(file, "Aggregated time per pie slice, total time: %.2f CPU seconds\n\n", sum_count / (1000*dcpm));
 
     for (i=0;i<n_workers;i++) {
-- 
2.43.0


From 6a5bcde94c864babaf787b27632158ea094bd111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:19 +0000
Subject: [PATCH 13/15] fix: TOGETHER accounts for the time of its copies, also
 on a worker that had no task before

---
 src/lace.c   | 6 ++++++
 src/lace14.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index 0782bb6..cb94b3b 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1217,7 +1217,9 @@ VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
     memcpy(&_t, t, sizeof(Task));
 
     // run the root task
+    lace_time_event(__lace_worker, 1);
     _t.f(__lace_worker, __lace_dq_head, &_t);
+    lace_time_event(__lace_worker, 2);
 
     // signal out completion
     *finished -= 1;
@@ -1228,6 +1230,8 @@ VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
 
 VOID_TASK_1(lace_wrap_together, Task*, task)
 {
+    lace_time_event(__lace_worker, 2);
+
     /* synchronization integer (decrease by 1 when done...) */
     atomic_int done = n_workers;
 
@@ -1253,6 +1257,8 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     atomic_store_explicit(&lace_newframe.t, NULL, memory_order_relaxed);
 
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t2);
+
+    lace_time_event(__lace_worker, 1);
 }
 
 VOID_TASK_2(lace_newframe_root, Task*, t, atomic_int*, done)
diff --git a/src/lace14.c b/src/lace14.c
index c369329..92e9769 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1217,7 +1217,9 @@ VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
     memcpy(&_t, t, sizeof(Task));
 
     // run the root task
+    lace_time_event(__lace_worker, 1);
     _t.f(__lace_worker, __lace_dq_head, &_t);
+    lace_time_event(__lace_worker, 2);
 
     // signal out completion
     *finished -= 1;
@@ -1228,6 +1230,8 @@ VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
 
 VOID_TASK_1(lace_wrap_together, Task*, task)
 {
+    lace_time_event(__lace_worker, 2);
+
     /* synchronization integer (decrease by 1 when done...) */
     atomic_int done = n_workers;
 
@@ -1253,6 +1257,8 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     atomic_store_explicit(&lace_newframe.t, NULL, memory_order_relaxed);
 
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t2);
+
+    lace_time_event(__lace_worker, 1);
 }
 
 VOID_TASK_2(lace_newframe_root, Task*, t, atomic_int*, done)
-- 
2.43.0


From b541f3a7fcdb887b1a23effd1c267ea6077af62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 14/15] fix: the counters can be reset and reported right after
 lace_start

---
 src/lace.c   | 18 ++++++++++++++++++
 src/lace14.c | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index cb94b3b..637ec9e 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -400,6 +400,10 @@ lace_pin_worker(void)
 #endif
 }
 
+#if LACE_COUNT_EVENTS
+static atomic_uint workers_ready = 0; // number of workers that have counters
+#endif
+
 void
 lace_init_worker(unsigned int worker)
 {
@@ -463,6 +467,10 @@ lace_init_worker(unsigned int worker)
     w->time = gethrtime();
     w->level = 0;
 #endif
+
+#if LACE_COUNT_EVENTS
+    workers_ready += 1;
+#endif
 }
 
 static atomic_int must_suspend = 0;
@@ -929,6 +937,10 @@ lace_start(unsigned int _n_workers, size_t dqsize)
         fprintf(stdout, "Lace startup, creating %d worker threads with program stack %zu bytes.\n", n_workers, stacksize);
     }
 
+#if LACE_COUNT_EVENTS
+    workers_ready = 0;
+#endif
+
     /* Spawn all workers */
     for (unsigned int i=0; i<n_workers; i++) {
         pthread_t res;
@@ -956,6 +968,9 @@ lace_count_reset()
     unsigned int i;
     size_t j;
 
+    // Every worker must have set up its counters
+    while (workers_ready < n_workers) {}
+
     for (i=0;i<n_workers;i++) {
         for (j=0;j<CTR_MAX;j++) {
             workers_p[i]->ctr[j] = 0;
@@ -984,6 +999,9 @@ lace_count_report_file(FILE *file)
     unsigned int i;
     size_t j;
 
+    // Every worker must have set up its counters
+    while (workers_ready < n_workers) {}
+
     for (j=0;j<CTR_MAX;j++) ctr_all[j] = 0;
     for (i=0;i<n_workers;i++) {
         uint64_t *wctr = workers_p[i]->ctr;
diff --git a/src/lace14.c b/src/lace14.c
index 92e9769..248d382 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -400,6 +400,10 @@ lace_pin_worker(void)
 #endif
 }
 
+#if LACE_COUNT_EVENTS
+static atomic_uint workers_ready = 0; // number of workers that have counters
+#endif
+
 void
 lace_init_worker(unsigned int worker)
 {
@@ -463,6 +467,10 @@ lace_init_worker(unsigned int worker)
     w->time = gethrtime();
     w->level = 0;
 #endif
+
+#if LACE_COUNT_EVENTS
+    workers_ready += 1;
+#endif
 }
 
 static atomic_int must_suspend = 0;
@@ -929,6 +937,10 @@ lace_start(unsigned int _n_workers, size_t dqsize)
         fprintf(stdout, "Lace startup, creating %d worker threads with program stack %zu bytes.\n", n_workers, stacksize);
     }
 
+#if LACE_COUNT_EVENTS
+    workers_ready = 0;
+#endif
+
     /* Spawn all workers */
     for (unsigned int i=0; i<n_workers; i++) {
         pthread_t res;
@@ -956,6 +968,9 @@ lace_count_reset()
     unsigned int i;
     size_t j;
 
+    // Every worker must have set up its counters
+    while (workers_ready < n_workers) {}
+
     for (i=0;i<n_workers;i++) {
         for (j=0;j<CTR_MAX;j++) {
             workers_p[i]->ctr[j] = 0;
@@ -984,6 +999,9 @@ lace_count_report_file(FILE *file)
     unsigned int i;
     size_t j;
 
+    // Every worker must have set up its counters
+    while (workers_ready < n_workers) {}
+
     for (j=0;j<CTR_MAX;j++) ctr_all[j] = 0;
     for (i=0;i<n_workers;i++) {
         uint64_t *wctr = workers_p[i]->ctr;
-- 
2.43.0


From 16641c046d0646a4c8b7d499a234823e2cc04930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:57 +0000
Subject: [PATCH 15/15] fix: the total time of the report counts the overhead
 of stealing once

---
 src/lace.c   | 4 ++--
 src/lace14.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 637ec9e..39b16a5 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1063,9 +1063,9 @@ lace_count_report_file(FILE *file)
     if (dcpm == 0) dcpm = 1;
 
     uint64_t sum_count;
+    // (wsteal and lsteal include the time in stealsucc and signal)
     sum_count = ctr_all[CTR_init] + ctr_all[CTR_wapp] + ctr_all[CTR_lapp] + ctr_all[CTR_wsteal] + ctr_all[CTR_lsteal]
-              + ctr_all[CTR_close] + ctr_all[CTR_wstealsucc] + ctr_all[CTR_lstealsucc] + ctr_all[CTR_wsignal]
-              + ctr_all[CTR_lsignal];
+              + ctr_all[CTR_close];
 
     fprintf(file, "Measured clock (tick) frequency: %.2f GHz\n", dcpm / 1000000.0);
     fprintf(file, "Aggregated time per pie slice, total time: %.2f CPU seconds\n\n", sum_count / (1000*dcpm));
diff --git a/src/lace14.c b/src/lace14.c
index 248d382..8b9f071 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1063,9 +1063,9 @@ lace_count_report_file(FILE *file)
     if (dcpm == 0) dcpm = 1;
 
     uint64_t sum_count;
+    // (wsteal and lsteal include the time in stealsucc and signal)
     sum_count = ctr_all[CTR_init] + ctr_all[CTR_wapp] + ctr_all[CTR_lapp] + ctr_all[CTR_wsteal] + ctr_all[CTR_lsteal]
-              + ctr_all[CTR_close] + ctr_all[CTR_wstealsucc] + ctr_all[CTR_lstealsucc] + ctr_all[CTR_wsignal]
-              + ctr_all[CTR_lsignal];
+              + ctr_all[CTR_close];
 
     fprintf(file, "Measured clock (tick) frequency: %.2f GHz\n", dcpm / 1000000.0);
     fprintf(file, "Aggregated time per pie slice, total time: %.2f CPU seconds\n\n", sum_count / (1000*dcpm));
-- 
2.43.0


#!/usr/bin/env python3
"""mutants.py DIR ID: applies a small fault to the copy of the repository in DIR; mutants.py list: ids with the property each one breaks"""
import sys
H = 'lace.sh'; C = 'lace.c'
M = {}
def m(id, *edits): M[id] = edits
# C01
m('C01-nofence', (H, "        atomic_thread_fence(memory_order_seq_cst);\n        tail = wt->ts.ts.tail;", "        tail = wt->ts.ts.tail;"))
m('C01-norecheck', (H, "            if (unlikely(tail > newsplit)) {", "            if (unlikely(tail > split)) {"))
m('C01-nore2', (H, "        if (tail != split) {\n            if (unlikely", "        if (1) {\n            if (unlikely"))
m('C01-grow4', (H, "newsplit = (split + head + 2)/2;", "newsplit = (split + head + 4)/2;"))
m('C01-diff2', (H, "diff = (diff + 1) / 2;", "diff = (diff + 2) / 2;"))
m('C01-postleap', (H, "            wt->allstolen = 1;\n            __lace_worker->allstolen = 1;\n        }\n    }", "            wt->allstolen = 1;\n        }\n    }"))
m('C01-synclt', (H, "        if (likely(w->split <= __dq_head)) {\n            TD_##NAME", "        if (likely(w->split <= __dq_head + 1)) {\n            TD_##NAME"))
m('C01-order', (H, "        wt->ts.v = ts.v;\n        /*compiler_barrier();*/\n        wt->allstolen = 0;\n        w->split = __dq_head+1;", "        wt->allstolen = 0;\n        w->split = __dq_head+1;\n        wt->ts.ts.split = head+1; wt->ts.ts.tail = head;"))
m('C01-shrinkhalf', (H, "        if (tail != split) {\n            if (unlikely(tail > newsplit)) {\n                newsplit = (tail + split) / 2;", "        if (tail != split) {\n            if (unlikely(tail > newsplit)) {\n                newsplit = (tail + split + 1) / 2;"))
m('C01-wsplit', (H, "            w->split = w->dq + newsplit;\n            PR_COUNTSPLITS(w, CTR_split_shrink);", "            PR_COUNTSPLITS(w, CTR_split_shrink);"))
# C02
m('C02-leapempty', (H, "    while ((size_t)thief <= 1) thief = t->thief;", "    if ((size_t)thief <= 1) thief = t->thief;"))
m('C02-nopre', (H, "        __lace_dq_head += 1;\n", ""))
m('C02-resorder', (H, "                t->f(self, __dq_head, t);\n                lace_time_event(self, 2);\n                atomic_store_explicit(&t->thief, THIEF_COMPLETED, memory_order_release);", "                Task c = *t;\n                c.f(self, __dq_head, &c);\n                atomic_store_explicit(&t->thief, THIEF_COMPLETED, memory_order_release);\n                memcpy(t->d, c.d, sizeof c.d);"))
# C03
m('C03-pub', (H, "        wt->ts.v = ts.v;\n        /*compiler_barrier();*/\n        wt->allstolen = 0;", "        atomic_store_explicit(&wt->ts.v, ts.v, memory_order_relaxed);\n        wt->allstolen = 0;"))
m('C03-grow', (H, "        wt->ts.ts.split = newsplit;\n", "        atomic_store_explicit(&wt->ts.ts.split, newsplit, memory_order_relaxed);\n"))
m('C03-growsync', (H, "        wt->ts.ts.split += diff;\n", "        atomic_fetch_add_explicit(&wt->ts.ts.split, diff, memory_order_relaxed);\n"))
m('C03-cas', (H, "            if (atomic_compare_exchange_weak(&victim->ts.v, &ts.v, ts_new.v)) {", "            if (atomic_compare_exchange_weak_explicit(&victim->ts.v, &ts.v, ts_new.v, memory_order_relaxed, memory_order_relaxed)) {"), (H, "        ts.v = victim->ts.v;\n", "        ts.v = atomic_load_explicit(&victim->ts.v, memory_order_relaxed);\n"))
m('C03-bar', (C, "1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel))", "1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_release))"))
m('C03-bar2', (C, "1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel))", "1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acquire))"))
m('C03-bar3', (C, "atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);", "atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_relaxed);"))
m('C03-bar4', (C, "        while (wait == lace_bar.wait) {} // wait", "        while (wait == atomic_load_explicit(&lace_bar.wait, memory_order_relaxed)) {} // wait"))
m('C03-ext', (C, "    ExtTask *stolen_task = atomic_exchange(&external_task, NULL);", "    ExtTask *stolen_task = atomic_exchange_explicit(&external_task, NULL, memory_order_relaxed);"), (C, "atomic_load_explicit(&external_task, memory_order_acquire)", "atomic_load_explicit(&external_task, memory_order_relaxed)", 2))
m('C03-extcas', (C, "        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;", "        while (atomic_compare_exchange_weak_explicit(&external_task, &exp, &et, memory_order_relaxed, memory_order_relaxed) != 1) exp = 0;", 2))
m('C03-leapacq', (H, "        atomic_thread_fence(memory_order_acquire);\n        /*compiler_barrier();*/\n        if (__lace_worker->allstolen == 0) {", "        if (__lace_worker->allstolen == 0) {"), (H, "            atomic_thread_fence(memory_order_acquire);\n            thief = t->thief;\n", "            thief = atomic_load_explicit(&t->thief, memory_order_relaxed);\n"), (H, "    Worker *thief = t->thief;\n    if", "    Worker *thief = atomic_load_explicit(&t->thief, memory_order_relaxed);\n    if"), (H, "thief <= 1) thief = t->thief;", "thief <= 1) thief = atomic_load_explicit(&t->thief, memory_order_relaxed);"), (H, "    /*compiler_barrier();*/\n    atomic_thread_fence(memory_order_acquire);\n    atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);\n    lace_time_event(__lace_worker, 4);", "    atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);\n    lace_time_event(__lace_worker, 4);"))
# C04
m('C04-noleap', (H, "    if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);\n    else atomic", "    if (w->split > __dq_head && (w->allstolen || lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);\n    else atomic"))
m('C04-noempty', (H, "    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);\n}", "}"))
m('C04-fast', (H, "        if (likely(w->split <= __dq_head)) {\n            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);\n            return;", "        if (likely(w->split <= __dq_head)) {\n            return;"))
# C05
m('C05-gt', (H, "    if (__dq_head == w->end) lace_abort_stack_overflow();", "    if (__dq_head > w->end) lace_abort_stack_overflow();"))
m('C05-late', (H, "    if (__dq_head == w->end) lace_abort_stack_overflow();\n\n    t = (TD_##NAME *)__dq_head;\n    t->f = &NAME##_WRAP;", "    t = (TD_##NAME *)__dq_head;\n    t->f = &NAME##_WRAP;\n    if (__dq_head == w->end) lace_abort_stack_overflow();"))
m('C05-head', (C, "        if (i == high || dq[i].thief == 0) return dq+i;", "        if (dq[i].thief == 0 || i == high) return dq+i;"))
m('C05-small', (C, "        if (i == high || dq[i].thief == 0) return dq+i;", "        if (dq[i].thief == 0) return dq+i;"))
# C06
m('C06-frame', (C, "    Task _t;\n    memcpy(&_t, t, sizeof(Task));\n\n    // run the root task", "    Task _t;\n    memcpy(&_t, t, sizeof(Task)-8);\n\n    // run the root task"))
m('C06-yield', (C, "    memcpy(&_t, lace_newframe.t, sizeof(Task));", "    memcpy(&_t, lace_newframe.t, sizeof(TD_lace_newframe_root));"))
# C07
m('C07-low', (C, "        else low = mid + 1;", "        else low = mid;  if (high - low <= 1) break;"))
m('C07-ge', (C, "        if (low*2 >= high) {", "        if (low*2 > high) {"))
# C08
m('C08-nocount', (C, "        atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);\n        atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);\n        // flip wait\n        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);", "        atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);\n        // flip wait\n        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);\n        atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);"))
m('C08-waitafter', (C, "    int wait = lace_bar.wait;\n    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel))) {", "    int arrived = atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel);\n    int wait = lace_bar.wait;\n    if ((int)n_workers == 1+arrived) {"))
m('C08-nowaitleave', (C, "    while (lace_bar.leaving != 0) continue;", ""))
m('C08-leaveorder', (C, "        atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);\n        // flip wait\n        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);", "        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);\n        atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);"))
# C09
m('C09-done', (C, "    // run the root task\n    lace_time_event(__lace_worker, 1);\n    _t.f(__lace_worker, __lace_dq_head, &_t);\n    lace_time_event(__lace_worker, 2);\n\n    // signal out completion\n    *finished -= 1;", "    *finished -= 1;\n    // run the root task\n    lace_time_event(__lace_worker, 1);\n    _t.f(__lace_worker, __lace_dq_head, &_t);\n    lace_time_event(__lace_worker, 2);"))
m('C09-bar2', (C, "    // wait until all workers are back (else they may steal from previous frame)\n    lace_barrier();\n", ""))
m('C09-bar1', (C, "    // wait until all workers are ready\n    lace_barrier();\n", ""))
m('C09-copy', (C, "    Task _t;\n    memcpy(&_t, t, sizeof(Task));\n\n    // run the root task\n    lace_time_event(__lace_worker, 1);\n    _t.f(__lace_worker, __lace_dq_head, &_t);", "    // run the root task\n    lace_time_event(__lace_worker, 1);\n    t->f(__lace_worker, __lace_dq_head, t);"))
m('C09-reset', (C, "    // wait until other workers have made a local copy\n    lace_barrier();\n\n    // reset the newframe struct\n    atomic_store_explicit(&lace_newframe.t, NULL, memory_order_relaxed);\n\n    lace_exec", "    // wait until other workers have made a local copy\n    lace_barrier();\n\n    lace_exec"), (C, "    lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t2);\n\n    lace_time_event(__lace_worker, 1);\n}", "    lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t2);\n    atomic_store_explicit(&lace_newframe.t, NULL, memory_order_relaxed);\n\n    lace_time_event(__lace_worker, 1);\n}"))
# C10
m('C10-as', (C, "        __lace_worker->split = old_split;\n        __lace_worker->allstolen = old_as;", "        __lace_worker->split = old_split;\n        __lace_worker->allstolen = 0;"))
m('C10-tail', (C, "        wt->ts.ts.split = 0;\n        atomic_thread_fence(memory_order_seq_cst);\n        old.ts.tail = wt->ts.ts.tail;", "        old.ts.tail = wt->ts.ts.tail;\n        wt->ts.ts.split = 0;\n        atomic_thread_fence(memory_order_seq_cst);"))
m('C10-split', (C, "        old_split = __lace_worker->split; // not always dq+ts.split when all is stolen\n", ""), (C, "        __lace_worker->split = old_split;\n", "        __lace_worker->split = __lace_worker->dq + old.ts.split;\n"), (C, "    Task *old_split;\n", ""))
m('C10-order', (C, "        wt->allstolen = old_as;\n        wt->ts.v = old.v;", "        wt->ts.v = old.v;\n        wt->allstolen = old_as;"))
m('C10-donelate', (C, "    t->f(__lace_worker, __lace_dq_head, t);\n    *done = 1;", "    *done = 1;\n    t->f(__lace_worker, __lace_dq_head, t);"))
m('C10-fence', (C, "        wt->ts.ts.split = 0;\n        atomic_thread_fence(memory_order_seq_cst);\n        old.ts.tail = wt->ts.ts.tail;", "        atomic_store_explicit(&wt->ts.ts.split, 0, memory_order_relaxed);\n        old.ts.tail = wt->ts.ts.tail;"))
m('C10-retry', (C, "        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;\n        lace_yield(__lace_worker, __lace_dq_head);", "        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;\n        while (lace_newframe.t != 0) lace_yield(__lace_worker, __lace_dq_head);"))
# C11
m('C11-store', (C, "        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;", "        while (external_task != exp) {}\n        atomic_store(&external_task, &et);", 2))
m('C11-intr', (C, "        while (sem_wait(&et.sem) != 0) {} // again if interrupted by a signal", "        sem_wait(&et.sem);", 2))
m('C11-load', (C, "    ExtTask *stolen_task = atomic_exchange(&external_task, NULL);\n", "    ExtTask *stolen_task = atomic_load(&external_task);\n    if (stolen_task != 0) atomic_store(&external_task, NULL);\n"))
m('C11-in', (C, "    if (self != 0) {\n        task->f(self, lace_get_head(self), task);\n    } else {\n        // if needed, wake up the workers\n        lace_resume();\n\n        ExtTask et;\n        et.task = task;\n        atomic_store_explicit(&et.task->thief, 0, memory_order_relaxed);\n        sem_init(&et.sem, 0, 0);\n\n        pthread_mutex_lock(&external_task_lock);\n        while (external_task_exclusive) {\n            // if \"exclusive\" is set, then we wait until we can continue\n            pthread_cond_wait(&external_task_cond, &external_task_lock);\n        }\n        external_task_counter++;", "    if (self != 0) {\n        task->f(self, self->dq, task);\n    } else {\n        // if needed, wake up the workers\n        lace_resume();\n\n        ExtTask et;\n        et.task = task;\n        atomic_store_explicit(&et.task->thief, 0, memory_order_relaxed);\n        sem_init(&et.sem, 0, 0);\n\n        pthread_mutex_lock(&external_task_lock);\n        while (external_task_exclusive) {\n            // if \"exclusive\" is set, then we wait until we can continue\n            pthread_cond_wait(&external_task_cond, &external_task_lock);\n        }\n        external_task_counter++;"))
# C12
m('C12-if', (C, "        while (external_task_exclusive) {", "        if (external_task_exclusive) {", 2))
m('C12-signal', (C, "        // wake up any waiters\n        pthread_cond_broadcast(&external_task_cond);", "        // wake up any waiters\n        pthread_cond_signal(&external_task_cond);"))
m('C12-nowake', (C, "        if (external_task_exclusive && external_task_counter == 0) {", "        if (external_task_exclusive && external_task_counter == 1) {"))
m('C12-if2', (C, "        while (external_task_counter > 0) {", "        if (external_task_counter > 0) {"))
m('C12-exclorder', (C, "        external_task_exclusive = 1;\n        while (external_task_counter > 0) {\n            // wait until all other tasks are done\n            pthread_cond_wait(&external_task_cond, &external_task_lock);\n        }\n", "        while (external_task_counter > 0) {\n            // wait until all other tasks are done\n            pthread_cond_wait(&external_task_cond, &external_task_lock);\n        }\n        external_task_exclusive = 1;\n"))
# C13
m('C13-nowait', (C, "                while (workers_running != n_workers) {} // they must first run, to avoid rare condition\n", ""))
m('C13-early0', (C, "                while (workers_running != 0) {}\n                atomic_thread_fence(memory_order_seq_cst);\n", ""))
m('C13-bar', (C, "            lace_barrier(); // ensure we're all back before continuing\n", ""))
m('C13-post', (C, "for (unsigned int i=0; i<n_workers; i++) sem_post(&suspend_semaphore);\n                atomic_store_explicit(&lace_awaken_count, 1", "for (unsigned int i=0; i<n_workers; i++) sem_post(&suspend_semaphore);\n                atomic_store_explicit(&lace_awaken_count, 1 + (workers_running == n_workers)"))
m('C13-neg', (C, "                int next = -1; // intermediate state\n            if (atomic_compare_exchange_weak(&lace_awaken_count, &state, next) == 1) {\n                for", "", 0))
m('C13-inter', (C, "            int next = -1; // intermediate state\n            if (atomic_compare_exchange_weak(&lace_awaken_count, &state, next) == 1) {\n                for (unsigned int i=0; i<n_workers; i++) sem_post(&suspend_semaphore);\n                atomic_store_explicit(&lace_awaken_count, 1, memory_order_release);", "            if (atomic_compare_exchange_weak(&lace_awaken_count, &state, 1) == 1) {\n                for (unsigned int i=0; i<n_workers; i++) sem_post(&suspend_semaphore);"))
m('C13-order', (C, "                atomic_store_explicit(&must_suspend, 0, memory_order_relaxed);\n                atomic_store_explicit(&lace_awaken_count, 0, memory_order_release);", "                atomic_store_explicit(&lace_awaken_count, 0, memory_order_release);\n                atomic_store_explicit(&must_suspend, 0, memory_order_relaxed);"))
m('C13-runorder', (C, "            lace_barrier(); // ensure we're all back before continuing\n            workers_running += 1;", "            workers_running += 1;\n            lace_barrier(); // ensure we're all back before continuing"))
# C14
m('C14-noresume', (C, "    // Workers need to be awake for this\n    lace_resume();\n", ""))
m('C14-nowait', (C, "    // Do not stop if not all workers are running yet\n    while (workers_running != n_workers) {}\n", ""))
m('C14-leak', (C, "    free(workers_p);\n    free(workers_memory);", "    free(workers_memory);"))
m('C14-quits', (C, "    lace_quits = 0;\n", ""))
m('C14-awaken', (C, "    lace_awaken_count = 0;\n", ""))
m('C14-detach', (C, "    pthread_attr_setdetachstate(&worker_attr, PTHREAD_CREATE_DETACHED);\n", ""))
m('C14-sem', (C, "    sem_destroy(&suspend_semaphore);\n", ""))
m('C14-ctr', (C, "    external_task_counter--;", "    external_task_counter--;", 1))
# C15
m('C15-round', (C, "    to_allocate = (to_allocate+LINE_SIZE-1) & (~(LINE_SIZE-1));", "    to_allocate = (to_allocate+LINE_SIZE/2-1) & (~(LINE_SIZE-1)); if (to_allocate == 0) to_allocate = LINE_SIZE;"))
m('C15-dq', (C, "workers_memory_size = sizeof(worker_data) + sizeof(Task) * dqsize;", "workers_memory_size = sizeof(worker_data) + sizeof(Task) * (uint32_t)dqsize;"))
m('C15-def', (C, "    if (dqsize == 0) dqsize = LACE_DEFAULT_DQSIZE; // also if an earlier start used another size\n    default_dqsize = dqsize;", "    if (dqsize != 0) default_dqsize = dqsize; else dqsize = default_dqsize;"))
# C16
m('C16-all', (C, "% n_workers];", "% (n_workers & ~1u)];"))
m('C16-idle', (C, "                if (victim == self) victim++;\n                if (victim >= workers + n) victim = workers;\n                if (victim == self) victim++;", "                if (victim == self) victim++;\n                if (victim >= workers + n) victim = workers;"))
m('C16-n1', (C, "    } else if (n_workers > 1) {", "    } else {"))
# C17
m('C17-noyield', (H, "            if (res == LACE_NOWORK) {\n                YIELD_NEWFRAME();\n", "            if (res == LACE_NOWORK) {\n"))
m('C17-noyield2', (C, "{\n    YIELD_NEWFRAME();\n\n    if (unlikely", "{\n    if (unlikely"))
m('C17-noyield3', (C, "        YIELD_NEWFRAME();\n\n        if (unlikely(atomic_load_explicit(&external_task", "        if (unlikely(atomic_load_explicit(&external_task"))
m('C17-lr', (H, "                if ((LACE_LEAP_RANDOM) && (--attempts == 0)) { lace_steal_random(); attempts = 32; }\n", ""))
# C18
m('C18-shrink', (H, "    if (tail != split) {\n        uint32_t newsplit", "    while (tail != split && wt->movesplit) { ts.v = wt->ts.v; tail = ts.ts.tail; }\n    if (tail != split) {\n        uint32_t newsplit"))
m('C18-steal', (H, "            lace_time_event(self, 7);\n            return LACE_BUSY;", "            return lace_steal(self, __dq_head, victim);"))
m('C18-tail', (H, "            ts_new.v = ts.v;\n            ts_new.ts.tail++;\n            if (atomic", "            ts_new.v = ts.v;\n            ts_new.ts.tail++;\n            if (victim->movesplit) return LACE_BUSY;\n            if (atomic"))
# C19
m('C19-nogrow', (H, "newsplit = (split + head + 2)/2;", "newsplit = (split + head + 1)/2;"))
m('C19-nosync', (H, "    if (likely(0 == w->_public->movesplit)) {\n        if (likely(w->split <= __dq_head)) {\n            TD_##NAME *t = (TD_##NAME *)__dq_head;", "    {\n        if (likely(w->split <= __dq_head)) {\n            TD_##NAME *t = (TD_##NAME *)__dq_head;"))
m('C19-all', (H, "        w->_public->ts.ts.split = __lace_dq_head - w->dq;", "        w->_public->ts.ts.split = __lace_dq_head - w->dq - 1;"))
m('C19-first', (H, "        if (wt->movesplit) wt->movesplit = 0;\n        head", "        head"))
m('C19-noreq', (H, "        if (victim->movesplit == 0) {\n            victim->movesplit = 1;", "        if (victim->movesplit == 0 && ts.ts.tail == 0) {\n            victim->movesplit = 1;"))
# C20
m('C20-leapbusy', (H, "                PR_COUNTSTEALS(__lace_worker, CTR_leap_busy);", "                PR_COUNTSTEALS(__lace_worker, CTR_leaps);"))
m('C20-void', (H, "    PR_COUNTTASK(w);\n", "    if (!w->allstolen) PR_COUNTTASK(w);\n"))
m('C20-rnd', (C, "            PR_COUNTSTEALS(__lace_worker, CTR_steals);\n        } else if (res == LACE_BUSY) {\n            PR_COUNTSTEALS(__lace_worker, CTR_steal_busy);\n        }\n    }\n}", "            PR_COUNTSTEALS(__lace_worker, CTR_steal_busy);\n        } else if (res == LACE_BUSY) {\n            PR_COUNTSTEALS(__lace_worker, CTR_steal_busy);\n        }\n    }\n}"))
m('C20-sum', (C, "    for (j=0;j<CTR_MAX;j++) ctr_all[j] = 0;\n", ""))
m('C20-reset', (C, "    for (i=0;i<n_workers;i++) {\n        for (j=0;j<CTR_MAX;j++) {\n            workers_p[i]->ctr[j] = 0;", "    for (i=0;i<n_workers;i++) {\n        for (j=0;j<CTR_MAX-1;j++) {\n            workers_p[i]->ctr[j] = 0;"))
m('C20-grow', (H, "        wt->movesplit = 0;\n        PR_COUNTSPLITS(w, CTR_split_grow);\n    }\n\n    /*comp", "        wt->movesplit = 0;\n        PR_COUNTSPLITS(w, CTR_split_shrink);\n    }\n\n    /*comp"))
# C21
m('C21-lev', (H, "    atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);\n    lace_time_event(__lace_worker, 4);", "    atomic_store_explicit(&t->thief, THIEF_EMPTY, memory_order_relaxed);\n    if (thief != THIEF_COMPLETED) lace_time_event(__lace_worker, 4);"))
m('C21-slice', (H, "                PR_ADD( w, CTR_lsignal, now - prev );\n                PR_ADD( w, CTR_lsteal, now - prev );", "                PR_ADD( w, CTR_lsignal, now - prev );"))
m('C21-time', (H, "        default: return;\n    }\n\n    w->time = now;", "        default: return;\n    }\n\n    if (event != 7) w->time = now;"))
m('C21-tog', (C, "    lace_time_event(__lace_worker, 1);\n    _t.f(__lace_worker, __lace_dq_head, &_t);\n    lace_time_event(__lace_worker, 2);", "    lace_time_event(__lace_worker, 3);\n    _t.f(__lace_worker, __lace_dq_head, &_t);\n    lace_time_event(__lace_worker, 2);"))
m('C21-exit', (C, "    lace_time_event(__lace_worker, 9);\n", "    lace_time_event(__lace_worker, 4);\n"))
# C22
m('C22-is', (C, "    w->worker = worker;\n", "    w->worker = worker & 0x7f;\n"))
m('C22-n0', (C, "n_workers = _n_workers == 0 ? n_pus : _n_workers;", "n_workers = _n_workers == 0 ? (n_workers ? n_workers : n_pus) : _n_workers;"))
m('C22-tls', (C, "    current_worker = w;\n", "    if (!current_worker) current_worker = w;\n"))
m('C18-loop', (H, "            lace_time_event(self, 7);\n            return LACE_BUSY;", "            goto again;"), (H, "        ts.v = victim->ts.v;\n        if (ts.ts.tail < ts.ts.split) {\n            TailSplitNA ts_new;", "        again:\n        ts.v = victim->ts.v;\n        if (ts.ts.tail < ts.ts.split) {\n            TailSplitNA ts_new;"))
m('C18-casloop', (H, "        atomic_store_explicit(&wt->ts.ts.split, newsplit, memory_order_relaxed); /* emit normal write */\n        atomic_thread_fence(memory_order_seq_cst);\n        tail = wt->ts.ts.tail;\n        if (tail != split) {\n            if (unlikely(tail > newsplit)) {\n                newsplit = (tail + split) / 2;\n                atomic_store_explicit(&wt->ts.ts.split, newsplit, memory_order_relaxed); /* emit normal write */\n            }\n            w->split", "        TailSplitNA nw; int ok = 1; do { nw.v = ts.v; tail = ts.ts.tail; if (tail == split) { ok = 0; break; } newsplit = (tail + split) / 2; nw.ts.split = newsplit; } while (!atomic_compare_exchange_weak(&wt->ts.v, &ts.v, nw.v));\n        if (ok) {\n            w->split"))
if __name__ == '__main__':
    if sys.argv[1] == 'list': print('\n'.join(M)); sys.exit()
    for f, a, b, *cnt in M[sys.argv[2]]:
        p = sys.argv[1] + '/src/' + f; s = open(p).read(); n = cnt[0] if cnt else 1
        if s.count(a) != n: print('BAD EDIT', sys.argv[2], f, s.count(a), repr(a[:60])); sys.exit(3)
        open(p, 'w').write(s.replace(a, b))

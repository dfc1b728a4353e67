#!/usr/bin/env python3
"""neutral.py DIR NAME: applies a behaviour-preserving rewrite to the copy of the repository in DIR (checks must stay quiet)."""
import sys, re
H = 'lace.sh'; C = 'lace.c'
N = {}
def neutral(id, *edits): N[id] = edits
neutral('barrier', (C, """    int wait = lace_bar.wait;
    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel))) {
        // we know for sure no other thread can be here
        atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);
        atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);
        // flip wait
        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);
    } else {
        while (wait == lace_bar.wait) {} // wait
    }
    lace_bar.leaving -= 1;
""", """    const int phase = atomic_load_explicit(&lace_bar.wait, memory_order_seq_cst);
    const int arrived = atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel) + 1;
    if (arrived != (int)n_workers) {
        for (;;) {
            if (lace_bar.wait != phase) break;
        }
    } else {
        lace_barrier_open(phase);
    }
    atomic_fetch_sub(&lace_bar.leaving, 1);
"""), (C, """/**
 * Enter the Lace barrier and wait until all""", """static void lace_barrier_open(int phase)
{
    atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);
    atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);
    atomic_store_explicit(&lace_bar.wait, !phase, memory_order_release);
}

/**
 * Enter the Lace barrier and wait until all"""))
neutral('gethead', (C, re.compile(r"    size_t (low|.*?)\n.*?return dq\+low;\n", re.S), None))
neutral('random', (C, """        Worker *victim = workers[(__lace_worker->worker + 1 + rng(&__lace_worker->seed, n_workers-1)) % n_workers];

        PR_COUNTSTEALS(__lace_worker, CTR_steal_tries);
        Worker *res = lace_steal(__lace_worker, __lace_dq_head, victim);
        if (res == LACE_STOLEN) {
            PR_COUNTSTEALS(__lace_worker, CTR_steals);
        } else if (res == LACE_BUSY) {
            PR_COUNTSTEALS(__lace_worker, CTR_steal_busy);
        }
""", """        lace_attempt(__lace_worker, __lace_dq_head, lace_pick(__lace_worker));
"""), (C, """/**
 * (Try to) steal and execute a task from a random worker.
 */
""", """static Worker *lace_pick(WorkerP *w)
{
    unsigned int k = w->worker + 1 + rng(&w->seed, n_workers-1);
    while (k >= n_workers) k -= n_workers;
    return workers[k];
}

static void lace_attempt(WorkerP *w, Task *head, Worker *victim)
{
    PR_COUNTSTEALS(w, CTR_steal_tries);
    Worker *res = lace_steal(w, head, victim);
    switch ((uintptr_t)res) {
    case (uintptr_t)LACE_STOLEN: PR_COUNTSTEALS(w, CTR_steals); break;
    case (uintptr_t)LACE_BUSY: PR_COUNTSTEALS(w, CTR_steal_busy); break;
    default: break;
    }
}

/**
 * (Try to) steal and execute a task from a random worker.
 */
"""), (C, """            PR_COUNTSTEALS(__lace_worker, CTR_steal_tries);
            Worker *res = lace_steal(__lace_worker, __lace_dq_head, *victim);
            if (res == LACE_STOLEN) {
                PR_COUNTSTEALS(__lace_worker, CTR_steals);
            } else if (res == LACE_BUSY) {
                PR_COUNTSTEALS(__lace_worker, CTR_steal_busy);
            }
""", """            lace_attempt(__lace_worker, __lace_dq_head, *victim);
"""))
neutral('stop', (C, "    for (unsigned int i=0; i<n_workers; i++) {\n#if LACE_USE_MMAP\n        munmap", "    for (unsigned int k=n_workers; k>0; k--) {\n        unsigned int i = k-1;\n#if LACE_USE_MMAP\n        munmap"),
 (C, """    free(workers);
    free(workers_p);
    free(workers_memory);
#endif

    workers = 0;
    workers_p = 0;
    workers_memory = 0;
""", """    lace_give_back((void**)&workers_memory);
    lace_give_back((void**)&workers_p);
    lace_give_back((void**)&workers);
#endif
"""), (C, """/**
 * End Lace. All Workers are signaled to quit.""", """static void lace_give_back(void **p) { free(*p); *p = 0; }

/**
 * End Lace. All Workers are signaled to quit."""), (C, "    while (workers_running != 0) {}\n\n#if", "    do {} while (workers_running > 0);\n\n#if"))
neutral('report', (C, """    for (i=0;i<n_workers;i++) {
        fprintf(file, "Tasks (%d): %zu\\n", i, workers_p[i]->ctr[CTR_tasks]);
    }
    fprintf(file, "Tasks (sum): %zu\\n", ctr_all[CTR_tasks]);
    fprintf(file, "\\n");
""", """    for (i=0;i<=n_workers;i++) {
        uint64_t *c = i == n_workers ? ctr_all : workers_p[i]->ctr;
        fputs("Tasks (", file);
        if (i == n_workers) fprintf(file, "%s", "sum"); else fprintf(file, "%d", i);
        fprintf(file, "): %zu\\n", c[CTR_tasks]);
    }
    fputc('\\n', file);
"""), (C, re.compile(r"#if LACE_COUNT_STEALS\n    for \(i=0.*?#endif\n", re.S), """#if LACE_COUNT_STEALS
    for (i=0;i<n_workers;i++) {
        fprintf(file, "Steals (%d): ", i);
        lace_report_steals(file, workers_p[i]->ctr);
    }
    fprintf(file, "Steals (%s): ", "sum");
    lace_report_steals(file, ctr_all);
    fprintf(file, "\\n");
#endif
"""), (C, """/**
 * Report counters to the given file.
 */
""", """#if LACE_COUNT_STEALS
static void lace_report_steals(FILE *file, const uint64_t *c)
{
    fprintf(file, "%zu good/%zu busy of %zu tries; ", c[CTR_steals], c[CTR_steal_busy], c[CTR_steal_tries]);
    fprintf(file, "leaps: %zu good/%zu busy of %zu tries\\n", c[CTR_leaps], c[CTR_leap_busy], c[CTR_leap_tries]);
}
#endif

/**
 * Report counters to the given file.
 */
"""), (C, """    for (j=0;j<CTR_MAX;j++) ctr_all[j] = 0;
    for (i=0;i<n_workers;i++) {
        uint64_t *wctr = workers_p[i]->ctr;
        for (j=0;j<CTR_MAX;j++) {
            ctr_all[j] += wctr[j];
        }
    }
""", """    for (j=0;j<CTR_MAX;j++) {
        uint64_t total = 0;
        for (i=0;i<n_workers;i++) total += workers_p[i]->ctr[j];
        ctr_all[j] = total;
    }
"""), (C, """        for (j=0;j<CTR_MAX;j++) {
            workers_p[i]->ctr[j] = 0;
        }
""", """        memset(workers_p[i]->ctr, 0, sizeof(workers_p[i]->ctr));
"""), (C, """        uint64_t *c = i ==""", """        const uint64_t *c = i =="""))
neutral('init', (C, """    // Initialize public worker data
    wt->dq = w->dq;
    wt->ts.v = 0;
    wt->allstolen = 0;
    wt->movesplit = 0;

    // Initialize private worker data
    w->_public = wt;
    w->end = w->dq + default_dqsize;
    w->split = w->dq;
    w->allstolen = 0;
    w->worker = worker;
""", """    Task *dq = w->dq;
    w->worker = (int16_t)worker;
    w->_public = wt;
    w->split = dq;
    w->end = &dq[default_dqsize];
    wt->dq = dq;
    wt->movesplit = w->allstolen = wt->allstolen = 0;
    atomic_store(&wt->ts.v, 0);
"""), (C, "    to_allocate = (to_allocate+LINE_SIZE-1) & (~(LINE_SIZE-1));\n", "    if (to_allocate % LINE_SIZE != 0) to_allocate += LINE_SIZE - to_allocate % LINE_SIZE;\n"),
 (C, """    /* Spawn all workers */
    for (unsigned int i=0; i<n_workers; i++) {
        pthread_t res;
        pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i);
    }
""", """    /* Spawn all workers */
    unsigned int started = 0;
    do {
        pthread_t res;
        pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)started);
    } while (++started < n_workers);
"""))
neutral('frame', (C, """    TailSplitNA old;
    uint8_t old_as;
    Task *old_split;
""", """    struct lace_saved s;
"""), (C, re.compile(r"    // save old tail, split, allstolen and initiate new frame\n    \{.*?\n    \}\n", re.S), "    lace_save(__lace_worker, __lace_dq_head, &s);\n"),
 (C, re.compile(r"    // restore tail, split, allstolen\n    \{.*?\n    \}\n", re.S), "    lace_restore(__lace_worker, &s);\n"),
 (C, """/**
 * Execute the given <root> task in a new frame""", """struct lace_saved { TailSplitNA ts; Task *split; uint8_t allstolen; };

static void lace_save(WorkerP *w, Task *head, struct lace_saved *s)
{
    Worker *wt = w->_public;
    const uint32_t pos = (uint32_t)(head - w->dq);

    s->allstolen = wt->allstolen;
    s->split = w->split;
    wt->allstolen = 1;
    s->ts.ts.split = wt->ts.ts.split;
    wt->ts.ts.split = 0;
    atomic_thread_fence(memory_order_seq_cst);
    s->ts.ts.tail = wt->ts.ts.tail;

    w->allstolen = 1;
    w->split = head;
    wt->ts.v = ((TailSplitNA){.ts = {.tail = pos, .split = pos}}).v;
}

static void lace_restore(WorkerP *w, const struct lace_saved *s)
{
    Worker *wt = w->_public;
    w->allstolen = s->allstolen;
    w->split = s->split;
    wt->allstolen = s->allstolen;
    wt->ts.v = s->ts.v;
}

/**
 * Execute the given <root> task in a new frame"""), (C, """    Task _t;
    memcpy(&_t, lace_newframe.t, sizeof(Task));
""", """    Task _t = *lace_newframe.t;
"""), (C, """    // every worker runs its own copy (the result may overwrite the parameters)
    Task _t;
    memcpy(&_t, t, sizeof(Task));
""", """    Task _t;
    for (size_t k=0; k<sizeof(Task); k++) ((char*)&_t)[k] = ((const char*)t)[k];
"""))
neutral('external', (C, re.compile(r"        ExtTask et;\n        et.task = task;.*?sem_init\(&et.sem, 0, 0\);\n", re.S), "        ExtTask et;\n        lace_ext_init(&et, task);\n", 2),
 (C, """        ExtTask *exp = 0;
        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;

        while (sem_wait(&et.sem) != 0) {} // again if interrupted by a signal
        sem_destroy(&et.sem);
""", """        lace_ext_offer(&et);
""", 2), (C, """void
lace_run_task(Task *task)
""", """static void lace_ext_init(ExtTask *et, Task *task)
{
    sem_init(&et->sem, 0, 0);
    et->task = task;
    atomic_store_explicit(&task->thief, 0, memory_order_relaxed);
}

static void lace_ext_offer(ExtTask *et)
{
    for (;;) {
        ExtTask *none = NULL;
        if (atomic_compare_exchange_strong(&external_task, &none, et)) break;
    }
    int res;
    do { res = sem_wait(&et->sem); } while (res == -1);
    sem_destroy(&et->sem);
}

void
lace_run_task(Task *task)
"""), (C, """        external_task_counter--;
        if (external_task_exclusive && external_task_counter == 0) {
            // if counter is 0 and exclusive is set, then we should wake up the threads
            pthread_cond_broadcast(&external_task_cond);
        }
""", """        if (--external_task_counter == 0) {
            if (external_task_exclusive) pthread_cond_broadcast(&external_task_cond);
        }
"""))
neutral('suspend', (C, re.compile(r"void\nlace_suspend\(\)\n\{.*?\n\}\n", re.S), """static void lace_put_to_sleep(void)
{
    while (workers_running != n_workers) {}
    atomic_thread_fence(memory_order_seq_cst);
    atomic_store(&must_suspend, 1);
    for (;;) { if (workers_running == 0) break; }
    atomic_thread_fence(memory_order_seq_cst);
    atomic_store(&must_suspend, 0);
}

void
lace_suspend()
{
    for (;;) {
        int state = atomic_load_explicit(&lace_awaken_count, memory_order_acquire);
        if (state <= 0) continue;
        const int last = state == 1;
        if (!atomic_compare_exchange_weak(&lace_awaken_count, &state, last ? -1 : state - 1)) continue;
        if (last) {
            lace_put_to_sleep();
            atomic_store_explicit(&lace_awaken_count, 0, memory_order_release);
        }
        return;
    }
}
"""), (C, """                for (unsigned int i=0; i<n_workers; i++) sem_post(&suspend_semaphore);
""", """                unsigned int todo = n_workers;
                while (todo-- > 0) sem_post(&suspend_semaphore);
"""))
neutral('steal', (H, """        if (ts.ts.tail < ts.ts.split) {
            TailSplitNA ts_new;
            ts_new.v = ts.v;
            ts_new.ts.tail++;
            if (atomic_compare_exchange_weak(&victim->ts.v, &ts.v, ts_new.v)) {
                // Stolen
                Task *t = &victim->dq[ts.ts.tail];
                atomic_store_explicit(&t->thief, self->_public, memory_order_relaxed);
                lace_time_event(self, 1);
                t->f(self, __dq_head, t);
                lace_time_event(self, 2);
                atomic_store_explicit(&t->thief, THIEF_COMPLETED, memory_order_release);
                lace_time_event(self, 8);
                return LACE_STOLEN;
            }

            lace_time_event(self, 7);
            return LACE_BUSY;
        }
""", """        const uint32_t at = ts.ts.tail;
        if (!(at >= ts.ts.split)) {
            TailSplitNA ts_new = ts;
            ts_new.ts.tail = at + 1;
            if (!atomic_compare_exchange_strong(&victim->ts.v, &ts.v, ts_new.v)) {
                lace_time_event(self, 7);
                return LACE_BUSY;
            }
            lace_run_stolen(self, __dq_head, victim->dq + at);
            return LACE_STOLEN;
        }
"""), (H, "        if (victim->movesplit == 0) {\n            victim->movesplit = 1;\n", "        if (!victim->movesplit) {\n            victim->movesplit = 1;\n"),
 (H, re.compile(r"static[^\n]*\n?lace_steal\(WorkerP \*self"), lambda m: """static inline void
lace_run_stolen(WorkerP *self, Task *head, Task *t)
{
    atomic_store_explicit(&t->thief, self->_public, memory_order_relaxed);
    lace_time_event(self, 1);
    t->f(self, head, t);
    lace_time_event(self, 2);
    atomic_store_explicit(&t->thief, THIEF_COMPLETED, memory_order_release);
    lace_time_event(self, 8);
}

""" + m.group(0)))
neutral('shrink', (H, """    if (tail != split) {
        uint32_t newsplit = (tail + split)/2;
""", """    if (tail < split) {
        uint32_t newsplit = tail + (split - tail)/2;
"""), (H, "                newsplit = (tail + split) / 2;\n                atomic", "                newsplit = tail + ((split - tail) >> 1);\n                atomic"),
 (H, "            w->split = w->dq + newsplit;\n            PR_COUNTSPLITS(w, CTR_split_shrink);", "            PR_COUNTSPLITS(w, CTR_split_shrink);\n            w->split = &w->dq[newsplit];"))
neutral('spawn', (H, """        if (wt->movesplit) wt->movesplit = 0;
        head = __dq_head - w->dq;
        ts = (TailSplitNA){{head,head+1}};
        wt->ts.v = ts.v;
        /*compiler_barrier();*/
        wt->allstolen = 0;
        w->split = __dq_head+1;
        w->allstolen = 0;
    } else if (unlikely(wt->movesplit)) {
        head = __dq_head - w->dq;
        split = w->split - w->dq;
        newsplit = (split + head + 2)/2;
        wt->ts.ts.split = newsplit;
        w->split = w->dq + newsplit;
        /*compiler_barrier();*/
        wt->movesplit = 0;
        PR_COUNTSPLITS(w, CTR_split_grow);
    }
""", """        lace_publish_first(w, __dq_head);
    } else if (unlikely(wt->movesplit)) {
        lace_publish_more(w, __dq_head);
    }
"""), (H, """    TailSplitNA ts;
    uint32_t head, split, newsplit;

    if (__dq_head == w->end) lace_abort_stack_overflow();
""", """    if (w->end == __dq_head) lace_abort_stack_overflow();
"""), (H, """static __attribute__((noinline))
void lace_drop_slow(""", """static inline __attribute__((unused))
void lace_publish_first(WorkerP *w, Task *__dq_head)
{
    Worker *wt = w->_public;
    const uint32_t head = (uint32_t)(__dq_head - w->dq);
    TailSplitNA ts;
    ts.ts.tail = head;
    ts.ts.split = head + 1;
    if (wt->movesplit != 0) wt->movesplit = 0;
    wt->ts.v = ts.v;
    wt->allstolen = 0;
    w->allstolen = 0;
    w->split = &__dq_head[1];
}

static inline __attribute__((unused))
void lace_publish_more(WorkerP *w, Task *__dq_head)
{
    const uint32_t head = (uint32_t)(__dq_head - w->dq) + 2;
    const uint32_t split = (uint32_t)(w->split - w->dq);
    const uint32_t newsplit = (head + split) >> 1;
    w->_public->ts.ts.split = newsplit;
    w->_public->movesplit = 0;
    w->split = &w->dq[newsplit];
    PR_COUNTSPLITS(w, CTR_split_grow);
}

static __attribute__((noinline))
void lace_drop_slow("""))
neutral('sync', (H, """    if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) {
        lace_leapfrog(w, __dq_head);
        t = (TD_##NAME *)__dq_head;
        return $RETURN_RES;
    }

    /*compiler_barrier();*/

    Worker *wt = w->_public;
    if (wt->movesplit) {
        Task *t = w->split;
        size_t diff = __dq_head - t;
        diff = (diff + 1) / 2;
        w->split = t + diff;
        wt->ts.ts.split += diff;
        /*compiler_barrier();*/
        wt->movesplit = 0;
        PR_COUNTSPLITS(w, CTR_split_grow);
    }

    /*compiler_barrier();*/

    t = (TD_##NAME *)__dq_head;
""", """    t = (TD_##NAME *)__dq_head;
    if (lace_is_stolen(w, __dq_head)) {
        lace_leapfrog(w, __dq_head);
        return $RETURN_RES;
    }
    lace_grow_shared(w, __dq_head);
"""), (H, """    if (likely(0 == w->_public->movesplit)) {
        if (likely(w->split <= __dq_head)) {
            TD_##NAME *t = (TD_##NAME *)__dq_head;
""", """    if (likely(0 == w->_public->movesplit)) {
        TD_##NAME * const t = (TD_##NAME *)__dq_head;
        if (likely(!(w->split > __dq_head))) {
"""), (H, """static __attribute__((noinline))
void lace_drop_slow(WorkerP *w, Task *__dq_head)
{
    if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
}
""", """static inline __attribute__((unused))
int lace_is_stolen(WorkerP *w, Task *__dq_head)
{
    if (w->allstolen != 0) return 1;
    if (w->split <= __dq_head) return 0;
    return lace_shrink_shared(w);
}

static inline __attribute__((unused))
void lace_grow_shared(WorkerP *w, Task *__dq_head)
{
    Worker *wt = w->_public;
    if (!wt->movesplit) return;
    const size_t half = (size_t)(__dq_head - w->split + 1) >> 1;
    wt->ts.ts.split += half;
    w->split += half;
    wt->movesplit = 0;
    PR_COUNTSPLITS(w, CTR_split_grow);
}

static __attribute__((noinline))
void lace_drop_slow(WorkerP *w, Task *__dq_head)
{
    if (lace_is_stolen(w, __dq_head)) {
        lace_leapfrog(w, __dq_head);
        return;
    }
    atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
}
"""))
neutral('leap', (H, """    if (thief != THIEF_COMPLETED) {
        while ((size_t)thief <= 1) thief = t->thief;
""", """    if (thief != THIEF_COMPLETED) {
        while (thief == THIEF_EMPTY || thief == THIEF_TASK) {
            thief = t->thief;
        }
"""), (H, """        while (thief != THIEF_COMPLETED) {
            PR_COUNTSTEALS(__lace_worker, CTR_leap_tries);
            Worker *res = lace_steal(__lace_worker, __lace_dq_head, thief);
            if (res == LACE_NOWORK) {
                YIELD_NEWFRAME();
                if ((LACE_LEAP_RANDOM) && (--attempts == 0)) { lace_steal_random(); attempts = 32; }
            } else if (res == LACE_STOLEN) {
                PR_COUNTSTEALS(__lace_worker, CTR_leaps);
            } else if (res == LACE_BUSY) {
                PR_COUNTSTEALS(__lace_worker, CTR_leap_busy);
            }
            atomic_thread_fence(memory_order_acquire);
            thief = t->thief;
        }
""", """        for (; thief != THIEF_COMPLETED; thief = t->thief) {
            Worker * const res = lace_steal(__lace_worker, __lace_dq_head, thief);
            PR_COUNTSTEALS(__lace_worker, CTR_leap_tries);
            if (res == LACE_STOLEN) {
                PR_COUNTSTEALS(__lace_worker, CTR_leaps);
            } else if (res == LACE_BUSY) {
                PR_COUNTSTEALS(__lace_worker, CTR_leap_busy);
            } else {
                YIELD_NEWFRAME();
                if (LACE_LEAP_RANDOM) {
                    attempts--;
                    if (attempts == 0) {
                        attempts = 32;
                        lace_steal_random();
                    }
                }
            }
            atomic_thread_fence(memory_order_acquire);
        }
"""), (H, """            Worker *wt = __lace_worker->_public;
            wt->allstolen = 1;
            __lace_worker->allstolen = 1;
""", """            __lace_worker->allstolen = 1;
            __lace_worker->_public->allstolen = 1;
"""))
neutral('loop', (C, """            // Select victim
            if( i>0 ) {
                i--;
                victim++;
                if (victim == self) victim++;
                if (victim >= workers + n) victim = workers;
                if (victim == self) victim++;
            } else {
                i = rng(&seed, 40); // compute random i 0..40
                victim = workers + (rng(&seed, n-1) + worker_id + 1) % n;
            }

""", """            if (i <= 0) {
                i = rng(&seed, 40); // compute random i 0..40
                victim = workers + (rng(&seed, n-1) + worker_id + 1) % n;
            } else {
                i -= 1;
                victim = lace_next_victim(victim, self, n);
            }

"""), (C, """        if (unlikely(atomic_load_explicit(&must_suspend, memory_order_acquire))) {
            workers_running -= 1;
            while (sem_wait(&suspend_semaphore) != 0) {} // again if interrupted by a signal
            lace_barrier(); // ensure we're all back before continuing
            workers_running += 1;
        }
""", """        if (unlikely(atomic_load_explicit(&must_suspend, memory_order_acquire))) lace_sleep();
"""), (C, """    while(*quit == 0) {
""", """    for (;;) {
        if (*quit != 0) break;
"""), (C, """/**
 * Main Lace worker implementation.
""", """static Worker **lace_next_victim(Worker **victim, Worker **self, unsigned int n)
{
    unsigned int at = victim - workers;
    const unsigned int me = self - workers;
    at++;
    if (at == me) at++;
    if (at >= n) at = 0;
    if (at == me) at++;
    return &workers[at];
}

static void lace_sleep(void)
{
    atomic_fetch_sub(&workers_running, 1);
    int r;
    do { r = sem_wait(&suspend_semaphore); } while (r != 0);
    lace_barrier();
    atomic_fetch_add(&workers_running, 1);
}

/**
 * Main Lace worker implementation.
"""))
neutral('together', (C, re.compile(r"""    /\* now try to be the one who sets it! \*/
    while \(1\) \{
        Task \*expected = 0;
        if \(atomic_compare_exchange_strong\(&lace_newframe.t, &expected, &(_\w+)\)\) break;
        lace_yield\(__lace_worker, __lace_dq_head\);
    \}
"""), lambda m: "    lace_claim_newframe(__lace_worker, __lace_dq_head, &%s);\n" % m.group(1), 2), (C, """/**
 * Root task for the TOGETHER method.
""", """static void lace_claim_newframe(WorkerP *self, Task *head, Task *t)
{
    Task *expected = NULL;
    while (!atomic_compare_exchange_strong(&lace_newframe.t, &expected, t)) {
        expected = NULL;
        lace_yield(self, head);
    }
}

/**
 * Root task for the TOGETHER method.
"""), (C, """    // signal out completion
    *finished -= 1;

    // while threads aren't done, steal randomly
    while (*finished != 0) STEAL_RANDOM();
""", """    // signal out completion
    atomic_fetch_sub(finished, 1);

    // while threads aren't done, steal randomly
    for (;;) {
        if (atomic_load(finished) == 0) break;
        STEAL_RANDOM();
    }
"""), (C, """    Task _t;
    memcpy(&_t, t, sizeof(Task));

    // run the root task
    lace_time_event(__lace_worker, 1);
    _t.f(__lace_worker, __lace_dq_head, &_t);
""", """    Task mine = *t;

    // run the root task
    lace_time_event(__lace_worker, 1);
    mine.f(__lace_worker, __lace_dq_head, &mine);
"""), (C, """    t2->f = lace_newframe_root_WRAP;
    atomic_store_explicit(&t2->thief, THIEF_TASK, memory_order_relaxed);
    t2->d.args.arg_1 = task;
    t2->d.args.arg_2 = &done;
""", """    t2->d.args.arg_2 = &done;
    t2->d.args.arg_1 = task;
    t2->f = lace_newframe_root_WRAP;
    atomic_store_explicit(&t2->thief, THIEF_TASK, memory_order_relaxed);
"""))
neutral('run', (H, """    Task _t;
    TD_##NAME *t = (TD_##NAME *)&_t;
    t->f = &NAME##_WRAP;
    atomic_store_explicit(&t->thief, THIEF_TASK, memory_order_relaxed);
    $TASK_INIT
""", """    Task _t;
    TD_##NAME *t = (TD_##NAME *)(void *)&_t;
    $TASK_INIT
    atomic_store_explicit(&t->thief, THIEF_TASK, memory_order_relaxed);
    t->f = NAME##_WRAP;
""", 4), (H, """    t = (TD_##NAME *)__dq_head;
    t->f = &NAME##_WRAP;
    atomic_store_explicit(&t->thief, THIEF_TASK, memory_order_relaxed);
    $TASK_INIT
""", """    t = (TD_##NAME *)__dq_head;
    $TASK_INIT
    t->f = &NAME##_WRAP;
    atomic_store_explicit(&t->thief, THIEF_TASK, memory_order_relaxed);
"""))
neutral('worker', (C, """    // Signal that we are running
    workers_running += 1;

    // Run the steal loop
    WorkerP *__lace_worker = lace_get_worker();
    Task *__lace_dq_head = lace_get_head(__lace_worker);
""", """    WorkerP * const __lace_worker = lace_get_worker();
    Task * const __lace_dq_head = lace_get_head(__lace_worker);

    // Signal that we are running
    atomic_fetch_add(&workers_running, 1);
"""), (C, """    // Workers need to be awake for this
    lace_resume();

    // Do not stop if not all workers are running yet
    while (workers_running != n_workers) {}

    lace_quits = 1;

    while (workers_running != 0) {}
""", """    lace_resume();
    do {} while (workers_running != n_workers);
    atomic_store(&lace_quits, 1);
    while (workers_running > 0) {
        continue;
    }
"""), (C, """    workers = 0;
    workers_p = 0;
    workers_memory = 0;
}
""", """    workers_memory = NULL;
    workers_p = NULL;
    workers = NULL;
}
"""))
# second batch
neutral('steal2', (H, re.compile(r"    if \(victim != NULL && !victim->allstolen\) \{\n        TailSplitNA ts;.*?    lace_time_event\(self, 7\);\n    return LACE_NOWORK;\n", re.S), """    Worker *result = LACE_NOWORK;
    TailSplitNA seen, want;
    uint32_t tail;
    if (victim == NULL) goto failed;
    if (victim->allstolen) goto failed;
    seen.v = victim->ts.v;
    tail = seen.ts.tail;
    if (!(tail < seen.ts.split)) {
        lace_ask_for_work(self, victim);
        goto failed;
    }
    want.ts.split = seen.ts.split;
    want.ts.tail = tail + 1;
    if (atomic_compare_exchange_weak(&victim->ts.v, &seen.v, want.v)) {
        lace_run_stolen(self, __dq_head, victim->dq + tail);
        return LACE_STOLEN;
    }
    result = LACE_BUSY;
failed:
    lace_time_event(self, 7);
    return result;
"""), (H, """static Worker* __attribute__((noinline))
lace_steal(WorkerP *self""", """static inline __attribute__((unused))
void lace_ask_for_work(WorkerP *self, Worker *victim)
{
    if (victim->movesplit) return;
    victim->movesplit = 1;
    PR_COUNTSPLITS(self, CTR_split_req);
    (void)self;
}

static inline __attribute__((unused))
void lace_run_stolen(WorkerP *self, Task *head, Task *task)
{
    atomic_store_explicit(&task->thief, self->_public, memory_order_relaxed);
    lace_time_event(self, 1);
    task->f(self, head, task);
    lace_time_event(self, 2);
    atomic_store_explicit(&task->thief, THIEF_COMPLETED, memory_order_release);
    lace_time_event(self, 8);
}

static Worker* __attribute__((noinline))
lace_steal(WorkerP *self"""))
neutral('submit', (C, re.compile(r"        ExtTask et;\n        et\.task = task;\n        atomic_store_explicit\(&et\.task->thief, 0, memory_order_relaxed\);\n        sem_init\(&et\.sem, 0, 0\);\n"), "        ExtTask et;\n        lace_external_init(&et, task);\n", 2),
 (C, re.compile(r"        ExtTask \*exp = 0;\n        while \(atomic_compare_exchange_weak\(&external_task, &exp, &et\) != 1\) exp = 0;\n\n        while \(sem_wait.*?\n        sem_destroy\(&et\.sem\);\n"), "        lace_external_wait(&et);\n", 2),
 (C, """void
lace_run_task(Task *task)
""", """static void lace_external_init(ExtTask *et, Task *task)
{
    sem_init(&et->sem, 0, 0);
    et->task = task;
    atomic_store_explicit(&task->thief, 0, memory_order_relaxed);
}

static void lace_external_wait(ExtTask *et)
{
    for (;;) {
        ExtTask *none = NULL;
        if (atomic_compare_exchange_strong(&external_task, &none, et)) break;
    }
    int r;
    do r = sem_wait(&et->sem); while (r != 0);
    sem_destroy(&et->sem);
}

void
lace_run_task(Task *task)
"""), (C, """        external_task_counter--;
        if (external_task_exclusive && external_task_counter == 0) {
""", """        const int left = --external_task_counter;
        if (left == 0 && external_task_exclusive) {
"""))
neutral('claim', (C, """    while (1) {
        Task *expected = 0;
        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_t2)) break;
        lace_yield(__lace_worker, __lace_dq_head);
    }

    // wait until other workers have made a local copy
    lace_barrier();

    // reset the newframe struct
    atomic_store_explicit(&lace_newframe.t, NULL, memory_order_relaxed);
""", """    lace_claim_frame(__lace_worker, __lace_dq_head, &_t2);
"""), (C, """    while (1) {
        Task *expected = 0;
        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;
        lace_yield(__lace_worker, __lace_dq_head);
    }

    // wait until other workers have made a local copy
    lace_barrier();

    // reset the newframe struct, then wrap and run ours
    atomic_store_explicit(&lace_newframe.t, NULL, memory_order_relaxed);
""", """    lace_claim_frame(__lace_worker, __lace_dq_head, &_s);
"""), (C, """/**
 * Root task for the TOGETHER method.""", """/* become the one who interrupts everyone; on return all others have their copy */
static void lace_claim_frame(WorkerP *w, Task *head, Task *t)
{
    Task *expected = NULL;
    while (!atomic_compare_exchange_strong(&lace_newframe.t, &expected, t)) {
        lace_yield(w, head);
        expected = NULL;
    }
    lace_barrier();
    atomic_store_explicit(&lace_newframe.t, NULL, memory_order_relaxed);
}

/**
 * Root task for the TOGETHER method."""), (C, "    Task _t;\n    memcpy(&_t, lace_newframe.t, sizeof(Task));\n", "    Task _t = *lace_newframe.t;\n"),
 (C, "    while (*finished != 0) STEAL_RANDOM();\n", "    for (;;) {\n        if (*finished == 0) break;\n        STEAL_RANDOM();\n    }\n"),
 (C, "    *finished -= 1;\n", "    atomic_fetch_sub(finished, 1);\n"))
neutral('save', (C, re.compile(r"    TailSplitNA old;\n    uint8_t old_as;\n    Task \*old_split;\n.*?    // wait until all workers are ready\n", re.S), """    Worker * const pub = __lace_worker->_public;
    TailSplitNA saved, mine;
    const uint8_t saved_allstolen = pub->allstolen;
    Task * const saved_split = __lace_worker->split;
    const uint32_t head = (uint32_t)(__lace_dq_head - __lace_worker->dq);

    // no more steals from here on
    pub->allstolen = 1;
    saved.ts.split = pub->ts.ts.split;
    pub->ts.ts.split = 0;
    atomic_thread_fence(memory_order_seq_cst);
    saved.ts.tail = pub->ts.ts.tail;

    mine.ts.tail = mine.ts.split = head;
    __lace_worker->allstolen = 1;
    __lace_worker->split = __lace_dq_head;
    pub->ts.v = mine.v;

    // wait until all workers are ready
"""), (C, """    {
        Worker *wt = __lace_worker->_public;
        wt->allstolen = old_as;
        wt->ts.v = old.v;
        __lace_worker->split = old_split;
        __lace_worker->allstolen = old_as;
    }
""", """    __lace_worker->split = saved_split;
    __lace_worker->allstolen = saved_allstolen;
    pub->ts.v = saved.v;
    pub->allstolen = saved_allstolen;
"""))
neutral('reset2', (C, """        for (j=0;j<CTR_MAX;j++) {
            workers_p[i]->ctr[j] = 0;
        }
""", """        uint64_t *ctr = workers_p[i]->ctr;
        j = CTR_MAX;
        while (j > 0) ctr[--j] = 0;
"""), (C, re.compile(r"    for \(i=0;i<n_workers;i\+\+\) \{\n        fprintf\(file, \"Startup time \(%d.*?        fprintf\(file, \"\\n\"\);\n    \}\n", re.S), """    for (i=0;i<n_workers;i++) {
        const uint64_t *c = workers_p[i]->ctr;
        const double per = 1.0 / dcpm;
        fprintf(file, "Startup time (%d):    %10.2f ms\\n", i, c[CTR_init] * per);
        fprintf(file, "Steal work (%d):      %10.2f ms\\n", i, c[CTR_wapp] * per);
        fprintf(file, "Leap work (%d):       %10.2f ms\\n", i, c[CTR_lapp] * per);
        fprintf(file, "Steal overhead (%d):  %10.2f ms\\n", i, (c[CTR_wstealsucc]+c[CTR_wsignal]) * per);
        fprintf(file, "Leap overhead (%d):   %10.2f ms\\n", i, (c[CTR_lstealsucc]+c[CTR_lsignal]) * per);
        fprintf(file, "Steal search (%d):    %10.2f ms\\n", i, (c[CTR_wsteal]-c[CTR_wstealsucc]-c[CTR_wsignal]) * per);
        fprintf(file, "Leap search (%d):     %10.2f ms\\n", i, (c[CTR_lsteal]-c[CTR_lstealsucc]-c[CTR_lsignal]) * per);
        fprintf(file, "Exit time (%d):       %10.2f ms\\n", i, c[CTR_close] * per);
        fprintf(file, "\\n");
    }
"""))
neutral('event2', (H, re.compile(r"    switch\( event \) \{\n\n        // Enter application code.*?    w->time = now;\n", re.S), """    const uint64_t d = now - prev;
    const int outer = w->level == 1;

    if (event == 1 || event == 7 || event == 8) {
        if (w->level == 0 && event != 8) {
            PR_ADD( w, CTR_init, d );
            if (event == 1) w->level = 1;
        } else {
            w->ctr[outer ? CTR_wsteal : CTR_lsteal] += d;
            if (event == 1) w->ctr[outer ? CTR_wstealsucc : CTR_lstealsucc] += d;
            if (event == 8) w->ctr[outer ? CTR_wsignal : CTR_lsignal] += d;
        }
    } else if (event == 2 || event == 3) {
        if (outer) PR_ADD( w, CTR_wapp, d );
        else PR_ADD( w, CTR_lapp, d );
        if (event == 3) w->level += 1;
    } else if (event == 4) {
        if (outer) fprintf( stderr, "This should not happen, level = %d\\n", w->level );
        else PR_ADD( w, CTR_lsteal, d );
        w->level -= 1;
    } else if (event == 9) {
        w->ctr[w->level == 0 ? CTR_init : CTR_close] += d;
    } else {
        return;
    }

    w->time = now;
"""))
neutral('start2', (C, re.compile(r"    if \(workers == 0 \|\| workers_p == 0 \|\| workers_memory == 0\) \{\n        fprintf\(stderr, \"(.*?)\"\);\n        exit\(1\);\n    \}\n"), """    if (!(workers && workers_p && workers_memory)) {
        fputs("Lace error: unable to allocate memory for the workers!\\n", stderr);
        exit(1);
    }
"""), (C, "    size_t to_allocate = n_workers * sizeof(void*);\n    to_allocate = (to_allocate+LINE_SIZE-1) & (~(LINE_SIZE-1));\n", "    const size_t lines = (n_workers * sizeof(void*) + LINE_SIZE - 1) / LINE_SIZE;\n    const size_t to_allocate = lines * LINE_SIZE;\n"),
 (C, """    /* Spawn all workers */
    for (unsigned int i=0; i<n_workers; i++) {
        pthread_t res;
        pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i);
    }
""", """    /* Spawn all workers */
    unsigned int started = 0;
    while (started != n_workers) {
        pthread_t thread;
        void *arg = (void*)(size_t)started++;
        pthread_create(&thread, &worker_attr, &lace_worker_thread, arg);
    }
"""), (C, "    n_workers = _n_workers == 0 ? n_pus : _n_workers;\n", "    n_workers = _n_workers;\n    if (n_workers == 0) n_workers = n_pus;\n"),
 (C, "    w->_public = wt;\n    w->end = w->dq + default_dqsize;\n    w->split = w->dq;\n", "    w->split = w->dq;\n    w->end = &w->dq[default_dqsize];\n    w->_public = wt;\n"))
neutral('susp2', (C, re.compile(r"        if \(state <= 0\) \{\n            continue; // \?\?\?\n        \} else if \(state == 1\) \{\n            int next = -1; // intermediate state\n            if \(atomic.*?        \} else \{\n            int next = state - 1;\n            if \(.*?\) break;\n        \}\n", re.S), """        if (state <= 0) continue;
        const int last = state == 1;
        if (!atomic_compare_exchange_strong(&lace_awaken_count, &state, last ? -1 : state - 1)) continue;
        if (last) lace_put_to_sleep();
        return;
"""), (C, """void
lace_suspend()
{
""", """static void lace_put_to_sleep(void)
{
    while (workers_running != n_workers) {} // they must first run, to avoid rare condition
    atomic_thread_fence(memory_order_seq_cst);
    atomic_store_explicit(&must_suspend, 1, memory_order_relaxed);
    while (workers_running != 0) {}
    atomic_thread_fence(memory_order_seq_cst);
    atomic_store_explicit(&must_suspend, 0, memory_order_relaxed);
    atomic_store_explicit(&lace_awaken_count, 0, memory_order_release);
}

void
lace_suspend()
{
"""))
if __name__ == '__main__':
    d, ids = sys.argv[1], sys.argv[2:]
    for id in ids:
        for f, a, b, *cnt in N[id]:
            p = d + '/src/' + f; s = open(p).read(); n = cnt[0] if cnt else 1
            if id == 'gethead' and b is None:
                i = s.index('lace_get_head('); i = s.index('{', i); j = s.index('\n}\n', i)
                s = s[:i] + """{
    Task *p = self->dq;
    while (p < self->end) {
        if (p->thief == THIEF_EMPTY) break;
        p++;
    }
    return p;""" + s[j:]
                open(p, 'w').write(s); continue
            k = len(a.findall(s)) if hasattr(a, 'findall') else s.count(a)
            assert k == n, (id, f, k, a)
            s = a.sub(b if callable(b) else (lambda m: b), s) if hasattr(a, 'findall') else s.replace(a, b)
            open(p, 'w').write(s)

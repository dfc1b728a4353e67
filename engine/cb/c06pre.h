/* the real lace.c, except that the functions that hand a task to the workers are replaced by their contract "the task is
   executed once, somewhere" (their own behaviour: C09 to C12), and that nothing exits */
#define _GNU_SOURCE
#include <stdio.h>
#include <time.h>
#include <string.h>
#include <errno.h>
#include <sched.h>
#include <stdlib.h>
#include <pthread.h>
#include <stdatomic.h>
#include <semaphore.h>
#include <assert.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include "cb.h"
static void vp_exit(void) { ASSERT(0, "C05: no overflow with free slots"); for (;;) {} }
#define exit(c) vp_exit()
#define abort() vp_exit()
#define fprintf(...) 0
#define lace_run_task vpo_run_task
#define lace_run_task_exclusive vpo_run_task_exclusive
#define lace_run_newframe vpo_run_newframe
#define lace_run_together vpo_run_together
#define lace_get_worker vpo_get_worker
#include LACE_C
#undef exit
#undef abort
#undef fprintf
#undef lace_run_task
#undef lace_run_task_exclusive
#undef lace_run_newframe
#undef lace_run_together
#undef lace_get_worker
#define NDQ 4
static Task dq0[NDQ], dq1[NDQ];
static Worker pub0, pub1;
static WorkerP w0, w1;
static int n_run, n_runex, n_nf, n_tog;
static void lace_run_task(Task *t) { n_run++; t->f(&w1, dq1, t); }
static void lace_run_task_exclusive(Task *t) { n_runex++; t->f(&w1, dq1, t); }
static void lace_run_newframe(Task *t) { n_nf++; t->f(&w1, dq1, t); }
static void lace_run_together(Task *t) { n_tog++; Task a = *t, b = *t; a.f(&w0, dq0, &a); b.f(&w1, dq1, &b); }
static WorkerP *lace_get_worker(void) { return &w0; }

/* Environment models for lacesym: POSIX threads, semaphores, allocation, exit.
 * Included before lace.c; the same models are used for the native replay. */
#ifndef VP_ENV_H
#define VP_ENV_H
#define _GNU_SOURCE
#include <errno.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <pthread.h>
#include <stdatomic.h>
#include <semaphore.h>
#include <assert.h>
#include <unistd.h>
#include <stdint.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/mman.h>

/* engine intrinsics */
void vp_assert(int c, const char *msg);
void vp_assume(int c);
int  vp_choice(int n);              /* any value 0..n-1 */
void vp_symbolic(void);             /* from here on, schedules are symbolic */
void vp_atomic_begin(void *obj);    /* obj: synchronisation object (NULL: ghost) */
void vp_atomic_end(void *obj);
int  vp_self(void);
void vp_thread_start(int slot, void *(*fn)(void *), void *arg);
void vp_reach(const char *label);   /* vacuity witness */
int  vp_finished(int slot);
void *vp_alloc(size_t align, size_t size);
void vp_free(void *p);
int  vp_heaplive(void);
void vp_stop_thread(void);
void vp_hb_acq(void *obj); void vp_hb_rel(void *obj);
void vp_hb_write(int id);            /* the watched object id is written */
void vp_hb_read(int id, const char *msg); /* ... and must be visible here */
void vp_point(void);                /* a scheduling point */

#ifndef VP_MAXTHR
#define VP_MAXTHR 8
#endif
#ifndef VP_EINTR
#define VP_EINTR 0                  /* how many interrupted waits */
#endif
#ifndef VP_SPURIOUS
#define VP_SPURIOUS 0               /* how many spurious condition wake-ups */
#endif
#ifndef VP_NCPU
#define VP_NCPU 2
#endif

int vp_nthreads, vp_eintr = VP_EINTR, vp_spurious = VP_SPURIOUS;
int vp_thr_state[VP_MAXTHR];        /* 0 none 1 joinable 2 detached 3 joined */
int vp_sems;                        /* live semaphores */
int vp_detach_attr;
static __thread int vp_errno_v;
static int *vp_errno_loc(void) { return &vp_errno_v; }
#undef errno
#define errno (*vp_errno_loc())

typedef struct { int v; int live; } vp_sem_t;
static int vp_sem_init(vp_sem_t *s, int shared, unsigned v)
{ vp_atomic_begin(s); s->v = (int)v; s->live = 0x5e3a; vp_sems++; vp_atomic_end(s); return 0; }
static int vp_sem_destroy(vp_sem_t *s)
{ vp_atomic_begin(s); vp_assert(s->live == 0x5e3a, "sem_destroy on a live semaphore"); s->live = 0; vp_sems--; vp_atomic_end(s); return 0; }
static int vp_sem_post(vp_sem_t *s)
{ vp_atomic_begin(s); vp_assert(s->live == 0x5e3a, "sem_post on a live semaphore"); s->v++; vp_hb_rel(s); vp_atomic_end(s); return 0; }
int vp_inwait[VP_MAXTHR];           /* the thread is blocked in a semaphore or condition wait */
static int vp_sem_wait(vp_sem_t *s)
{
    int me = vp_self();
    for (;;) {
        int r = 1;
        vp_atomic_begin(s);
        vp_assert(s->live == 0x5e3a, "sem_wait on a live semaphore");
        if (s->v > 0) { s->v--; r = 0; vp_inwait[me] = 0; vp_hb_acq(s); }
        else { vp_inwait[me] = 1; if (vp_eintr > 0) { if (vp_choice(2)) { vp_eintr--; vp_inwait[me] = 0; r = -1; } } }
        vp_atomic_end(s);
        if (r == 0) return 0;
        if (r < 0) { errno = EINTR; return -1; }
    }
}
static int vp_sem_trywait(vp_sem_t *s)
{
    int r = 0;
    vp_atomic_begin(s);
    vp_assert(s->live == 0x5e3a, "sem_trywait on a live semaphore");
    if (s->v > 0) { s->v--; vp_hb_acq(s); } else r = -1;
    vp_atomic_end(s);
    if (r) errno = EAGAIN;
    return r;
}
static int vp_sem_getvalue(vp_sem_t *s, int *v) { vp_atomic_begin(s); *v = s->v; vp_atomic_end(s); return 0; }
#define sem_t vp_sem_t
#define sem_init vp_sem_init
#define sem_destroy vp_sem_destroy
#define sem_post vp_sem_post
#define sem_wait vp_sem_wait
#define sem_trywait vp_sem_trywait
#define sem_getvalue vp_sem_getvalue

typedef struct { int owner; } vp_mutex_t;
typedef struct { unsigned waiting; } vp_cond_t;
static int vp_mutex_init(vp_mutex_t *m, const void *a) { vp_atomic_begin(m); m->owner = 0; vp_atomic_end(m); return 0; }
static int vp_mutex_destroy(vp_mutex_t *m) { vp_atomic_begin(m); vp_assert(m->owner == 0, "mutex destroyed while unlocked"); vp_atomic_end(m); return 0; }
static int vp_mutex_lock(vp_mutex_t *m)
{
    for (;;) {
        int r = 0;
        vp_atomic_begin(m);
        vp_assert(m->owner != 1 + vp_self(), "mutex not locked recursively");
        if (m->owner == 0) { m->owner = 1 + vp_self(); r = 1; vp_hb_acq(m); }
        vp_atomic_end(m);
        if (r) return 0;
    }
}
static int vp_mutex_trylock(vp_mutex_t *m)
{ int r = EBUSY; vp_atomic_begin(m); if (m->owner == 0) { m->owner = 1 + vp_self(); r = 0; vp_hb_acq(m); } vp_atomic_end(m); return r; }
static int vp_mutex_unlock(vp_mutex_t *m)
{ vp_atomic_begin(m); vp_assert(m->owner == 1 + vp_self(), "mutex unlocked by its owner"); m->owner = 0; vp_hb_rel(m); vp_atomic_end(m); return 0; }
static int vp_cond_init(vp_cond_t *c, const void *a) { vp_atomic_begin(c); c->waiting = 0; vp_atomic_end(c); return 0; }
static int vp_cond_destroy(vp_cond_t *c) { return 0; }
static int vp_cond_wait(vp_cond_t *c, vp_mutex_t *m)
{
    unsigned bit = 1u << vp_self();
    vp_atomic_begin(m);
    vp_assert(m->owner == 1 + vp_self(), "cond_wait holds the mutex");
    m->owner = 0; c->waiting |= bit; vp_inwait[vp_self()] = 1; vp_hb_rel(m);
    vp_atomic_end(m);
    for (;;) {
        int r = 0;
        vp_atomic_begin(m);
        if (c->waiting & bit) {
            if (vp_spurious > 0) { if (vp_choice(2)) { vp_spurious--; c->waiting &= ~bit; } }
        }
        if (!(c->waiting & bit) && m->owner == 0) { m->owner = 1 + vp_self(); r = 1; vp_inwait[vp_self()] = 0; vp_hb_acq(m); }
        vp_atomic_end(m);
        if (r) return 0;
    }
}
static int vp_cond_broadcast(vp_cond_t *c) { vp_atomic_begin(c); c->waiting = 0; vp_atomic_end(c); return 0; }
static int vp_cond_signal(vp_cond_t *c)
{
    vp_atomic_begin(c);
    for (int i = 0; i < VP_MAXTHR; i++) if (c->waiting & (1u << i)) { c->waiting &= ~(1u << i); break; }
    vp_atomic_end(c);
    return 0;
}
#define pthread_mutex_t vp_mutex_t
#define pthread_cond_t vp_cond_t
#undef PTHREAD_MUTEX_INITIALIZER
#define PTHREAD_MUTEX_INITIALIZER {0}
#undef PTHREAD_COND_INITIALIZER
#define PTHREAD_COND_INITIALIZER {0}
#define pthread_mutex_init vp_mutex_init
#define pthread_mutex_destroy vp_mutex_destroy
#define pthread_mutex_lock vp_mutex_lock
#define pthread_mutex_trylock vp_mutex_trylock
#define pthread_mutex_unlock vp_mutex_unlock
#define pthread_cond_init vp_cond_init
#define pthread_cond_destroy vp_cond_destroy
#define pthread_cond_wait vp_cond_wait
#define pthread_cond_signal vp_cond_signal
#define pthread_cond_broadcast vp_cond_broadcast

static int vp_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    int k = ++vp_nthreads;
    vp_thr_state[k] = (a && vp_detach_attr) ? 2 : 1;
    *t = (pthread_t)k;
#ifdef VP_THREAD_FN
    fn = VP_THREAD_FN;
#endif
    vp_thread_start(k, fn, arg);
    return 0;
}
static int vp_pthread_join(pthread_t t, void **r)
{ while (!vp_finished((int)t)) vp_point(); vp_hb_acq((void *)(0x7f000000 + (size_t)t)); vp_thr_state[(int)t] = 3; return 0; }
static int vp_pthread_detach(pthread_t t) { vp_thr_state[(int)t] = 2; return 0; }
static pthread_t vp_pthread_self(void) { return (pthread_t)vp_self(); }
static int vp_attr_init(pthread_attr_t *a) { vp_detach_attr = 0; return 0; }
static int vp_attr_destroy(pthread_attr_t *a) { vp_detach_attr = 0; return 0; }
static int vp_attr_setstacksize(pthread_attr_t *a, size_t s) { return 0; }
static int vp_attr_setdetachstate(pthread_attr_t *a, int s) { vp_detach_attr = (s == PTHREAD_CREATE_DETACHED); return 0; }
#define pthread_create vp_pthread_create
#define pthread_join vp_pthread_join
#define pthread_detach vp_pthread_detach
#define pthread_self vp_pthread_self
#define pthread_attr_init vp_attr_init
#define pthread_attr_destroy vp_attr_destroy
#define pthread_attr_setstacksize vp_attr_setstacksize
#define pthread_attr_setdetachstate vp_attr_setdetachstate

static void *vp_aligned_alloc(size_t al, size_t n) { return vp_alloc(al, n); }
static void *vp_malloc(size_t n) { return vp_alloc(16, n); }
static void *vp_calloc(size_t k, size_t n) { void *p = vp_alloc(16, k*n); memset(p, 0, k*n); return p; }
static int vp_posix_memalign(void **p, size_t al, size_t n) { *p = vp_alloc(al, n); return 0; }
static void *vp_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { void *r = vp_alloc(4096, n); memset(r, 0, n); return r; }
static int vp_munmap(void *p, size_t n) { vp_free(p); return 0; }
#define aligned_alloc vp_aligned_alloc
#define malloc vp_malloc
#define calloc vp_calloc
#define posix_memalign vp_posix_memalign
#define free vp_free
#define mmap vp_mmap
#define munmap vp_munmap

static int vp_getrlimit(int r, struct rlimit *l) { l->rlim_cur = 8*1024*1024; l->rlim_max = 8*1024*1024; return 0; }
static long vp_sysconf(int n) { return VP_NCPU; }
static int vp_rand(void) { return 12345; }
static int vp_yield_(void) { vp_point(); return 0; }
static int vp_usleep(unsigned u) { vp_point(); return 0; }
static int vp_nanosleep(const struct timespec *a, struct timespec *b) { vp_point(); return 0; }
#define getrlimit vp_getrlimit
#define sysconf vp_sysconf
#define rand vp_rand
#define sched_yield vp_yield_
#define usleep vp_usleep
#define nanosleep vp_nanosleep

#ifndef VP_EXIT
#define VP_EXIT(c) vp_assert(0, "program terminated by exit()")
#endif
static void __attribute__((noreturn)) vp_exit(int c) { VP_EXIT(c); vp_stop_thread(); __builtin_unreachable(); }
#define exit vp_exit
static void __attribute__((noreturn)) vp_abort(void) { VP_EXIT(134); vp_stop_thread(); __builtin_unreachable(); }
#define abort vp_abort

/* let the workers reach their idle loop */
static void vp_settle(void) { for (int i = 0; i < 24; i++) vp_point(); }
#endif

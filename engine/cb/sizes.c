/* lace_start and lace_init_worker: every block is large enough and aligned for what is stored in it.
   Inputs: number of workers, deque size, and those of an earlier start (AGAIN). Blocks are not really allocated at
   full size: allocation and clearing calls are recorded and compared with what the structures need. */
#define _GNU_SOURCE
#include <errno.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <pthread.h>
#include <stdatomic.h>
#include <semaphore.h>
#include <assert.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include "cb.h"
#ifndef MAXW
#define MAXW 20
#endif
#define NB (8 + 8)
/* a block: address in a private arena, requested size */
static struct { char *p; size_t size, al, cleared; int live, kind; } blk[NB]; static int nblk;
static int created; static int quiet;
/* pointer arrays and worker blocks are separate small objects; only their heads are touched here */
static void *pa0[MAXW + 4], *pa1[MAXW + 4], *pa2[MAXW + 4], *pa3[MAXW + 4], *pa4[MAXW + 4], *pa5[MAXW + 4];
static uint64_t wb0[160], wb1[160]; static int npa, nwb, inwork;
static char *give(void)
{
    if (inwork) return nwb++ ? (char *)wb1 : (char *)wb0;
    switch (npa++) { case 0: return (char *)pa0; case 1: return (char *)pa1; case 2: return (char *)pa2; case 3: return (char *)pa3; case 4: return (char *)pa4; }
    return (char *)pa5;
}
static void *my_alloc(size_t al, size_t size, int kind)
{
    ASSERT(al != 0 && (al & (al - 1)) == 0, "C15: alignment is a power of two");
    if (kind == 1) ASSERT(size % al == 0, "C15: aligned_alloc gets a multiple of the alignment");
    char *p = give();
    blk[nblk].p = p; blk[nblk].size = size; blk[nblk].al = al; blk[nblk].live = 1; blk[nblk].cleared = kind == 2 ? size : 0; blk[nblk].kind = kind; nblk++;
    return p;
}
static int find(const void *p) { for (int i = nblk - 1; i >= 0; i--) if (blk[i].live && blk[i].p == (const char *)p) return i; return -1; }
static void *my_memset(void *p, int c, size_t n)
{
    int b = find(p);
    if (b >= 0) {
        ASSERT(n <= blk[b].size, "C15: clearing stays inside the block");
        ASSERT(c == 0, "C15: blocks are cleared with 0");
        blk[b].cleared = n;
    } else for (size_t i = 0; i < n; i++) ((char *)p)[i] = c;
    return p;
}
static void my_free(void *p) { int b = find(p); ASSERT(b >= 0, "C14,C15: a live block is freed"); if (b >= 0) { ASSERT(blk[b].kind == 1, "C15: allocation and release match"); blk[b].live = 0; } }
static int my_munmap(void *p, size_t n) { int b = find(p); ASSERT(b >= 0, "C14,C15: a live mapping is unmapped"); if (b >= 0) { ASSERT(blk[b].kind == 2 && n == blk[b].size, "C15: the whole mapping is unmapped"); blk[b].live = 0; } return 0; }
static size_t attrstack, tstack, stack_in;
#define aligned_alloc(a, n) my_alloc(a, n, 1)
#define malloc(n) my_alloc(16, n, 1)
#define mmap(a, n, b, c, d, e) my_alloc(4096, n, 2)
#define munmap my_munmap
#define free my_free
#define memset my_memset
#define pthread_create(t, a, f, x) (created++, tstack = (a) ? attrstack : 0, 0)
#define pthread_attr_init(a) (attrstack = 0, 0)
#define pthread_attr_setstacksize(a, n) (attrstack = (n), 0)
#define pthread_attr_setdetachstate(a, s) 0
#define pthread_attr_destroy(a) 0
#define sem_init(a, b, c) 0
#define sem_post(a) 0
#define sem_wait(a) 0
#define sem_destroy(a) 0
static size_t rlimit_in; static long ncpu_in;
static int my_getrlimit(int k, struct rlimit *l) { l->rlim_cur = rlimit_in; l->rlim_max = rlimit_in; return 0; }
#define getrlimit my_getrlimit
#define sysconf(n) ncpu_in
#define rand() 1
#define exit(c) ASSERT(0, "C15: start does not end the program")
#define fprintf(...) 0
#include LACE_C
#undef memset
#define DEFAULT_DQ 100000
static void once(unsigned n, uint64_t dq, uint64_t id)
{
    created = 0; nblk = 0;
    unsigned wantn = n ? n : (unsigned)ncpu_in; uint64_t want = dq ? dq : DEFAULT_DQ;
    lace_start(n, dq);
    ASSERT(lace_workers() == wantn, "C22,C15: the number of workers is the one asked for, or the number of processors");
    ASSERT((unsigned)created == wantn, "C15,C14: one thread per worker");
    ASSERT(tstack > 0, "C15: threads get a stack");
    ASSERT(lace_get_stacksize() == stack_in, "C15: the program stack size is the one that was set");
    if (stack_in) ASSERT(tstack == stack_in, "C15: threads get the program stack that was asked for");
    if (!quiet) for (int i = 0; i < nblk; i++) ASSERT(blk[i].size >= (size_t)wantn * sizeof(void *), "C15: an array of pointers has room for one per worker");
    if (id >= wantn) id = wantn - 1;
    int before = nblk;
    inwork = 1;
    lace_init_worker((unsigned)id);
    inwork = 0;
    ASSERT(nblk == before + 1, "C15: one block per worker");
    int b = before;
    WorkerP *w = lace_get_worker();
    Worker *wt = w->_public;
    ASSERT(lace_is_worker() == 1 && w->worker == id, "C22,C15: the identity of the worker");
    char *p = blk[b].p; size_t size = blk[b].size;
    ASSERT((char *)w >= p && (size_t)((char *)w - p) + sizeof(WorkerP) <= size, "C15: private data inside the block");
    ASSERT((char *)wt >= p && (size_t)((char *)wt - p) + sizeof(Worker) <= size, "C15: public data inside the block");
    size_t o = (size_t)((char *)w->dq - p);
    ASSERT(wt->dq == w->dq, "C15: thieves see the same deque");
    ASSERT((uint64_t)(w->end - w->dq) == want, "C15,C05: the deque has as many slots as asked for (or the default for 0)");
    ASSERT((char *)w->dq >= p && size >= o && (size - o) / sizeof(Task) >= want, "C15: the deque fits in the block");
    ASSERT((char *)w + sizeof(WorkerP) <= (char *)w->dq && (char *)wt + sizeof(Worker) <= (char *)w->dq, "C15: the deque does not overlap the administration");
    ASSERT((char *)w + sizeof(WorkerP) <= (char *)wt || (char *)wt + sizeof(Worker) <= (char *)w, "C15: private and public data do not overlap");
    ASSERT(((uintptr_t)o & (LINE_SIZE - 1)) == 0 && (blk[b].al & (LINE_SIZE - 1)) == 0, "C15: task slots are aligned to cache lines");
    ASSERT((((char *)w - p) & 7) == 0 && (((char *)wt - p) & 7) == 0, "C15: worker data is aligned");
    ASSERT(((char *)&wt->ts - p) / LINE_SIZE == ((char *)&wt->ts - p + 7) / LINE_SIZE, "C15: tail and split are in one cache line");
    ASSERT(w->split == w->dq && wt->ts.v == 0 && wt->movesplit == 0 && wt->allstolen == w->allstolen, "C14,C15: a fresh worker starts with an empty deque");
    if (blk[b].cleared) ASSERT(blk[b].cleared == size || (blk[b].cleared >= o && (blk[b].cleared - o) / sizeof(Task) >= want), "C14,C15: all task slots of a fresh worker are empty");
}
void harness(void)
{
    uint64_t n = IN(0), dq = IN(1), id = IN(2), r = IN(3), c = IN(4);
    if (n > MAXW) n = MAXW;
    if (dq > 0xffffffffu) dq = 0xffffffffu;      /* positions in the deque are 32 bit numbers */
    if (r < 16384) r = 16384;
    if (c < 1) c = 1;
    if (c > MAXW) c = MAXW;
    stack_in = IN(7); if (stack_in && stack_in < 16384) stack_in = 16384;
    if (stack_in) lace_set_stacksize(stack_in);
    rlimit_in = r; ncpu_in = (long)c;
#ifdef AGAIN
    uint64_t n0 = IN(5), dq0 = IN(6);
    if (n0 > MAXW) n0 = MAXW;
    if (dq0 > 0xffffffffu) dq0 = 0xffffffffu;
    once((unsigned)n0, dq0, 0);
#endif
    once((unsigned)n, dq, id);
    REACH("end");
}
#ifdef VP_REPLAY
int main(void) { harness(); return 0; }
#endif

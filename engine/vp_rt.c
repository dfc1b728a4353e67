/* Native replay runtime: executes the instrumented program under exactly the
 * schedule, choices and store-buffer flushes found by the solver; afterwards
 * all threads run fairly (round robin) until main returns or a step limit. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#define MAXT 16
typedef struct { int tid, n, tail; char *kind; int *fl; } Ctx;
static Ctx *ctx; static int nctx, cur = 0, pos = 0, freerun = 0, turn = 0;
static int *choice[MAXT], nchoice[MAXT], cpos[MAXT];
static int *weakv[MAXT], nweak[MAXT], wpos[MAXT];
static int started[MAXT], finished[MAXT];
static long freesteps = 0, freelimit = 60000;
static int tso = 0, hbon = 0;
void vp_hb_rel(void *p);
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static __thread int me = -1, atomic_depth = 0, lastkind = 'v';
static __thread struct { char *a; int n; uint64_t v; } sb[64]; static __thread int nsb;

static void done(int code, const char *msg) { fprintf(stderr, "REPLAY %s\n", msg); fflush(stderr); _exit(code); }
static void flush_n(int n) {
    if (n > nsb) n = nsb;
    for (int i = 0; i < n; i++) memcpy(sb[i].a, &sb[i].v, sb[i].n);
    memmove(sb, sb + n, sizeof(sb[0])*(nsb - n)); nsb -= n;
}
void vp_flush(void) { flush_n(nsb); }
static int alive(int t) { return started[t] && !finished[t]; }
static void next_turn(void) {
    for (int k = 1; k <= MAXT; k++) { int t = (turn + k) % MAXT; if (alive(t)) { turn = t; return; } }
}
/* skip contexts that are complete; caller holds mu and owns the baton */
static void advance(void) {
    cur++; pos = 0;
    while (cur < nctx && ctx[cur].n == 0 && ctx[cur].tail == 0) cur++;
    if (cur >= nctx && !freerun) { freerun = 1; turn = me; next_turn(); }
    pthread_cond_broadcast(&cv);
}
static int myturn(void) {
    if (freerun) return turn == me;
    return ctx[cur].tid == me;
}
void vp_hook(void) {
    if (atomic_depth || me < 0) { lastkind = 'i'; return; }
    pthread_mutex_lock(&mu);
    for (;;) {
        while (!myturn()) pthread_cond_wait(&cv, &mu);
        if (freerun) {
            if (++freesteps > freelimit) done(11, "no-progress: main has not returned");
            flush_n(nsb); lastkind = 'f';
            next_turn(); pthread_cond_broadcast(&cv);
            break;
        }
        if (pos < ctx[cur].n) { lastkind = ctx[cur].kind[pos]; flush_n(ctx[cur].fl[pos]); pos++; break; }
        flush_n(ctx[cur].tail);
        advance();
    }
    pthread_mutex_unlock(&mu);
}
static void thread_end(void) {
    vp_flush();
    pthread_mutex_lock(&mu);
    finished[me] = 1; vp_hb_rel((void *)(0x7f000000 + (size_t)me));
    if (freerun) { if (turn == me) next_turn(); pthread_cond_broadcast(&cv); }
    else if (ctx[cur].tid == me) advance();
    pthread_mutex_unlock(&mu);
}
void vp_atomic_begin(void *o) { (void)o; if (!atomic_depth) { vp_hook(); vp_flush(); } atomic_depth++; }
void vp_atomic_end(void *o) { (void)o; atomic_depth--; }
void vp_point(void) { vp_hook(); }
void vp_symbolic(void) { }
int vp_self(void) { return me; }
int vp_choice(int n) {
    int v = 0; if (n <= 1) return 0;
    if (cpos[me] < nchoice[me]) v = choice[me][cpos[me]++];
    return v < n ? v : 0;
}
int vp_weak(void) { return wpos[me] < nweak[me] ? weakv[me][wpos[me]++] : 0; }
void vp_assert(int c, const char *m) { if (!c && !VP_ONLYLIVE) { char b[400]; snprintf(b, sizeof b, "assertion violated: %s", m); done(10, b); } }
void vp_assume(int c) { if (!c) done(12, "assumption false"); }
void vp_reach(const char *l) { fprintf(stderr, "REACHED %s\n", l); }
int vp_finished(int t) { return finished[t]; }
static struct { char *p; int live; } blk[4096]; static int nblk;
void *vp_alloc(size_t al, size_t n) {
    void *p = 0; if (posix_memalign(&p, al < 16 ? 16 : al, n)) abort();
    memset(p, 0xAA, n); blk[nblk].p = p; blk[nblk++].live = 1; return p;
}
void vp_free(void *p) {
    if (!p) return;
    for (int i = nblk-1; i >= 0; i--) if (blk[i].p == p) { if (!blk[i].live) done(13, "double free"); blk[i].live = 0; free(p); return; }
    done(13, "free of a non-heap pointer");
}
int vp_heaplive(void) { for (int i = 0; i < nblk; i++) if (blk[i].live) return 1; return 0; }
typedef struct { int slot; void *(*fn)(void *); void *arg; } TS;
static void entry_wait(void) {
    pthread_mutex_lock(&mu);
    while (!myturn()) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
}
static void *trampoline(void *x) {
    TS s = *(TS *)x; me = s.slot;
    entry_wait();
    s.fn(s.arg);
    thread_end();
    return 0;
}
/* ---- happens-before monitor (two watched objects), see lacesym.hb_* */
#define HBK 4
static int know[MAXT][HBK], frel[MAXT][HBK], facq[MAXT][HBK];
static struct { uintptr_t k; int used; int r[HBK]; } rel[1 << 16];
static int *relof(uintptr_t k) { unsigned h = (unsigned)((k*0x9E3779B97F4A7C15ull) >> 48); while (rel[h].used && rel[h].k != k) h = (h + 1) & 0xffff; rel[h].used = 1; rel[h].k = k; return rel[h].r; }
#define MET (me < 0 ? 0 : me)
static int isacq(int o) { return o == 2 || o == 4 || o == 5; }
static int isrel(int o) { return o == 3 || o == 4 || o == 5; }
#define PARTS(p, n) for (uintptr_t q = (uintptr_t)(p) & ~(uintptr_t)3; q < (uintptr_t)(p) + (n); q += 4)
void vp_hb_ld(void *p, int n, int o) { if (!o) return; PARTS(p, n) { int *r = relof(q); for (int i = 0; i < HBK; i++) if (r[i]) { if (isacq(o)) know[MET][i] = 1; else facq[MET][i] = 1; } } }
void vp_hb_st(void *p, int n, int o) { PARTS(p, n) { int *r = relof(q); for (int i = 0; i < HBK; i++) r[i] = !o ? 0 : (r[i] & 1 << MET) | (isrel(o) ? know[MET][i] : frel[MET][i]) << MET; } }
void vp_hb_rmw(void *p, int n, int o) { vp_hb_ld(p, n, o); PARTS(p, n) { int *r = relof(q); for (int i = 0; i < HBK; i++) r[i] |= (isrel(o) ? know[MET][i] : frel[MET][i]) << MET; } }
void vp_hb_cas(void *p, int n, int so, int fo, int ok) { if (ok) vp_hb_rmw(p, n, so); else vp_hb_ld(p, n, fo); }
void vp_hb_fence(int o) { for (int i = 0; i < HBK; i++) { if (isacq(o)) know[MET][i] |= facq[MET][i]; if (isrel(o)) frel[MET][i] = know[MET][i]; } }
void vp_hb_acq(void *p) { int *r = relof((uintptr_t)p | 1); for (int i = 0; i < HBK; i++) know[MET][i] |= !!r[i]; }
void vp_hb_rel(void *p) { int *r = relof((uintptr_t)p | 1); for (int i = 0; i < HBK; i++) r[i] |= know[MET][i]; }
void vp_hb_write(int i) { for (int u = 0; u < MAXT; u++) { know[u][i] = u == MET; frel[u][i] = facq[u][i] = 0; } for (int h = 0; h < 1 << 16; h++) rel[h].r[i] = 0; }
void vp_hb_read(int i, const char *m) { if (hbon && !know[MET][i]) { char b[400]; snprintf(b, sizeof b, "no happens-before edge from the last write: %s", m); done(10, b); } }
void vp_thread_start(int slot, void *(*fn)(void *), void *arg) {
    TS *s = malloc(sizeof *s); s->slot = slot; s->fn = fn; s->arg = arg;
    started[slot] = 1; finished[slot] = 0; memcpy(know[slot], know[MET], sizeof know[0]);
    pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    pthread_attr_setstacksize(&a, 8 << 20);
    if (pthread_create(&t, &a, trampoline, s)) abort();
}
void vp_stop_thread(void) { thread_end(); for (;;) pause(); }
#define LDST(N, T) \
T vp_ld##N(T *p) { T v; memcpy(&v, p, sizeof v); \
  for (int i = 0; i < nsb; i++) { char *lo = (char *)p, *a = sb[i].a; for (int k = 0; k < (int)sizeof(T); k++) { char *q = lo + k; if (q >= a && q < a + sb[i].n) ((char *)&v)[k] = ((char *)&sb[i].v)[q - a]; } } \
  return v; } \
void vp_st##N(T *p, T v, int sc) { \
  volatile T *chk = p; (void)*chk; \
  if (!atomic_depth && lastkind == 'v' && !sc && tso) { if (nsb >= tso) flush_n(nsb - tso + 1); sb[nsb].a = (char *)p; sb[nsb].n = sizeof v; sb[nsb].v = 0; memcpy(&sb[nsb].v, &v, sizeof v); nsb++; return; } \
  if (sc) vp_flush(); memcpy(p, &v, sizeof v); }
LDST(8, uint8_t) LDST(16, uint16_t) LDST(32, uint32_t) LDST(64, uint64_t)

int vp_main(void);
static void onalarm(int s) { (void)s; done(11, "no-progress: timeout"); }
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r"); if (!f) return 3;
    char w[64]; int t, n;
    int cap = 0;
    while (fscanf(f, "%63s", w) == 1) {
        if (!strcmp(w, "hb")) { if (fscanf(f, "%d", &hbon) != 1) return 3; }
        else if (!strcmp(w, "tso")) { if (fscanf(f, "%d", &tso) != 1) return 3; }
        else if (!strcmp(w, "ctx")) {
            int tail; if (fscanf(f, "%d %d %d", &t, &n, &tail) != 3) return 3;
            if (nctx >= cap) { cap = cap*2 + 16; ctx = realloc(ctx, cap*sizeof *ctx); }
            Ctx *c = &ctx[nctx++]; c->tid = t; c->n = n; c->tail = tail; c->kind = malloc(n+1); c->fl = malloc(sizeof(int)*(n+1));
            for (int i = 0; i < n; i++) { char k; int q; if (fscanf(f, " %c%d", &k, &q) != 2) return 3; c->kind[i] = k; c->fl[i] = q; }
        } else if (!strcmp(w, "choice") || !strcmp(w, "weak")) {
            if (fscanf(f, "%d %d", &t, &n) != 2) return 3;
            int *a = malloc(sizeof(int)*(n+1)); for (int i = 0; i < n; i++) if (fscanf(f, "%d", &a[i]) != 1) return 3;
            if (w[0] == 'c') { choice[t] = a; nchoice[t] = n; } else { weakv[t] = a; nweak[t] = n; }
        }
    }
    fclose(f);
    signal(SIGALRM, onalarm); alarm(60);
    for (int u = 0; u < MAXT; u++) for (int i = 0; i < HBK; i++) know[u][i] = 1;
    me = 0; started[0] = 1;
    cur = -1; advance();
    entry_wait();
    vp_main();
    done(0, "completed without violation");
    return 0;
}

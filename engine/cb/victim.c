/* Victim selection: lace_steal is replaced by a recorder; lace_steal_random and the idle loop choose victims.
   NW workers; the worker's id and the state of its random generators are inputs. MODE 1: lace_steal_random,
   2: the idle loop for STEPS attempts.
   TLIST: for each pair (thief, victim) some state of the generator must lead to it: the assertion that none does has to fail */
#define _GNU_SOURCE
#include "cb.h"
#define lace_steal vp_lace_steal_real
#include LACE_H
#undef lace_steal
static Worker *vp_steal(WorkerP *self, Task *head, Worker *victim);
#define lace_steal(s, h, v) vp_steal(s, h, v)
#include LACE_C
#ifndef STEPS
#define STEPS 60
#endif
static Worker pubs[NW]; static WorkerP priv[NW]; static Worker *wtab[NW + 8]; static Task dummy[2];
static int attempts, who; static atomic_int quit; static unsigned picked[NW];
static Worker *vp_steal(WorkerP *self, Task *head, Worker *victim)
{
    ASSERT(attempts <= STEPS, "C16: one attempt per round");
    attempts++;
    ASSERT(self == &priv[who] && head == dummy, "C16: a thief steals for itself");
    int v = -1;
    for (int i = 0; i < NW; i++) if (victim == &pubs[i]) v = i;
    ASSERT(v >= 0, "C16: the victim is one of the running workers");
    ASSERT(v != who, "C16: the victim is not the thief itself");
    if (v >= 0) picked[v]++;
    if (attempts >= STEPS) quit = 1;
#ifdef RESULTS
    uint64_t r = IN(4 + (attempts % RESULTS));
    return r % 3 == 0 ? LACE_STOLEN : r % 3 == 1 ? LACE_BUSY : LACE_NOWORK;
#else
    return LACE_NOWORK;
#endif
}
void harness(void)
{
    uint64_t id = IN(0), s32 = IN(1), s64 = IN(2);
#ifdef ID
    id = ID;
#endif
    if (id >= NW) id = NW - 1;
    who = (int)id;
    for (int i = 0; i < NW; i++) { wtab[i] = &pubs[i]; priv[i]._public = &pubs[i]; priv[i].worker = (uint16_t)i; priv[i].dq = dummy; priv[i].end = dummy + 2; priv[i].split = dummy; }
    for (int i = 0; i < 8; i++) wtab[NW + i] = 0;
    workers = wtab; n_workers = NW;
    priv[who].seed = (uint32_t)s32; priv[who].rng = s64;
    attempts = 0; quit = 0;
    for (int i = 0; i < NW; i++) picked[i] = 0;
#if MODE == 1
    lace_steal_random_CALL(&priv[who], dummy);
    ASSERT(attempts == (NW > 1 ? 1 : 0), "C16: one attempt, none with a single worker");
    REACH("end");
#ifdef TLIST
#define T(a, b) ASSERT(!(who == a && picked[b]), "TARGET " #a " " #b);
    TLIST
#endif
#else
    lace_steal_loop_CALL(&priv[who], dummy, &quit);
    REACH("end");
    for (int i = 0; i < NW; i++) if (i != who) ASSERT(picked[i] > 0, "C16: the idle loop tries every other worker");
#endif
}
#ifdef VP_REPLAY
#ifdef VP_SAMPLE
/* confirms by sampling that worker ID never picks worker TARGET */
int main(void)
{
    harness();
    for (uint64_t k = 0; k < (1u << 24); k++) { priv[who].seed = (uint32_t)(k * 0x9E3779B1u); attempts = 0; lace_steal_random_CALL(&priv[who], dummy); if (picked[VP_SAMPLE]) return 0; }
    vp_fail("C16: a worker is never picked");
}
#else
int main(void) { harness(); return 0; }
#endif
#endif

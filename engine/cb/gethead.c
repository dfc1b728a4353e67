/* lace_get_head recovers the position of the deque from the slots alone: for a deque of N slots and every number of
   outstanding tasks in it, whatever their state (waiting, stolen, completed); no slot outside the deque is read */
#define _GNU_SOURCE
#include "cb.h"
#include LACE_C
static void one(uint64_t n)
{
    uint64_t head = IN(0);
    if (head > n) head = n;
    Task *dq = malloc(n * sizeof(Task));
    if (dq == NULL) return;
    for (uint64_t i = 0; i < n; i++) {
        uint64_t st = IN(1 + i);
        if (st == 0) st = 1;
        dq[i].thief = i < head ? (struct _Worker *)st : THIEF_EMPTY;
    }
    Worker pub; WorkerP w;
    pub.dq = dq; w.dq = dq; w.end = dq + n; w._public = &pub; w.split = dq; w.worker = 0; w.allstolen = 1;
    Task *h = lace_get_head(&w);
    ASSERT(h == dq + head, "C07: the recovered head is the first empty slot");
    REACH("end");
}
void harness(void) { one(N); }
#ifdef VP_REPLAY
int main(void) { harness(); return 0; }
#endif

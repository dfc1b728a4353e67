/* bookkeeping of task executions used by the scenarios */
#ifndef NID
#define NID 8
#endif
int vp_started[NID], vp_done[NID], vp_gone[NID], vp_by[NID];
#define ST_CHECK(id, P) vp_assert((id) >= 0 && (id) < NID, P ": a task runs with the arguments it was spawned with")
static void t_begin(int id)
{
    ST_CHECK(id, "C01,C02,C06");
    vp_assert(!vp_gone[id], "C01,C04: no task runs after its SYNC or DROP returned");
    vp_assert(vp_started[id] == 0, "C01,C04: no task runs twice");
    vp_started[id]++;
#ifdef POINT
    vp_point();
#endif
}
static void t_end(int id, int w) { vp_by[id] = w; vp_done[id]++; }
static void t_synced(int id, int r, int expect, int owner)
{
    vp_assert(vp_started[id] == 1, "C01,C02: the task of a SYNC was executed exactly once");
    vp_assert(vp_done[id] == 1, "C02: SYNC returns after the task finished");
    vp_assert(r == expect, "C02: SYNC returns the result of its own task");
    vp_gone[id] = 1;
    if (vp_by[id] != owner) vp_reach("stolen"); else vp_reach("own");
}
static void t_dropped(int id, int owner)
{
    vp_assert(vp_started[id] == vp_done[id], "C04: DROP returns after a stolen task finished");
    vp_assert(vp_started[id] <= 1, "C04: a dropped task runs at most once");
    if (vp_started[id]) vp_assert(vp_by[id] != owner, "C04: DROP does not execute the task itself");
    vp_gone[id] = 1;
    if (vp_started[id]) vp_reach("dropstolen"); else vp_reach("dropped");
}

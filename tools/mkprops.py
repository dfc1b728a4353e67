#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

H = ["src/lace.h", "src/lace14.h", "src/lace.sh"]
C = ["src/lace.c", "src/lace14.c"]

p("C01", "Every spawned task is executed exactly once, whoever executes it",
  "Every task created with SPAWN and later matched by SYNC is executed exactly once: either by the worker that spawned it or by exactly one other worker that stole it. No task is lost, none is executed twice, and none is executed after its SYNC has returned, for every interleaving of the spawning worker with the stealing workers.",
  ["schedules", "programs", "histories"],
  "all interleavings (also with delayed stores, as on x86) of one worker running any short SPAWN/SYNC program with one or two workers stealing from it",
  "The ci runs execute large recursions whose totals come out right on the schedules the machine happens to produce; the windows (thief between reading and claiming, owner between moving the split point and re-reading the tail) are a few instructions wide and are hit by no test on purpose.",
  H + C,
  [("SPAWN publishes the task by moving split / resetting tail+split", "src/lace.h NAME_SPAWN"),
   ("thief claims by compare-and-swap on tail+split", "src/lace.h lace_steal"),
   ("owner reclaims shared tasks with store, full fence, re-read", "src/lace.h lace_shrink_shared"),
   ("fast path of SYNC/slow path", "src/lace.h NAME_SYNC, NAME_SYNC_SLOW")],
  [("tail,split", "stolen / shared / private partition of the deque", "src/lace.h Worker.ts"),
   ("allstolen", "all tasks in the deque are stolen", "src/lace.h Worker, WorkerP"),
   ("movesplit", "a thief asks for more shared tasks", "src/lace.h Worker")],
  ["execution count of each task", "return of SYNC"])

p("C02", "SYNC returns the result of its own task, after that task has finished",
  "SYNC pairs with the most recent unsynced SPAWN of the same worker and returns the value which that task computed from the arguments it was spawned with. It returns only after the task has finished, and this holds whether the task was executed locally, was stolen, or was stolen while its owner helped the thief with other work, to any nesting depth within the bounds.",
  ["schedules", "programs", "inputs"],
  "all interleavings of one or two owners with nested SPAWN/SYNC trees and thieves; all argument values",
  "Tests compare one final number; a result taken from the wrong slot or too early needs a specific steal to happen between two owner steps.",
  H + C,
  [("leapfrogging: wait for the thief to mark the task completed while stealing from it", "src/lace.h lace_leapfrog"),
   ("thief stores the result in the task before marking it completed", "src/lace.h lace_steal, NAME_WRAP"),
   ("post-leap pop declares the deque all-stolen", "src/lace.h lace_leapfrog")],
  [("thief", "EMPTY / TASK / thief / COMPLETED per task slot", "src/lace.h Task")],
  ["value of SYNC"])

p("C03", "Steals, results and barriers carry memory visibility (C11 happens-before)",
  "Whatever a worker wrote before SPAWN, RUN, TOGETHER or NEWFRAME happens-before the execution of that task, whatever a task wrote happens-before the return of the matching SYNC or RUN, and whatever any worker wrote before entering lace_barrier happens-before every worker's return from it. This follows from the C11 memory orders in the code alone, not from the strength of one processor.",
  ["schedules"],
  "all interleavings of the scenarios; happens-before is computed from the memory orders that appear in the compiled code",
  "x86 hides missing acquire/release orders, so no test on this machine can fail for them.",
  H + C,
  [("release store of COMPLETED / acquire load in SYNC", "src/lace.h lace_steal, lace_leapfrog"),
   ("sequentially consistent publication of tail+split", "src/lace.h NAME_SPAWN"),
   ("exchange / compare-and-swap of the external task", "src/lace.c lace_steal_external, lace_run_task"),
   ("barrier counter and flag", "src/lace.c lace_barrier")],
  observe=["plain (non-atomic) memory written by one thread and read by another"])

p("C04", "DROP discards a task unless it was stolen",
  "A task removed with DROP is never executed after DROP has returned; if it was stolen before, DROP returns only after the thief has finished it, and it is executed at most once. Dropping leaves the rest of the worker's tasks and everything done afterwards (further SPAWN, SYNC, RUN, NEWFRAME from the same worker) unaffected.",
  ["schedules", "programs", "histories"],
  "all interleavings of an owner doing SPAWN..DROP..(nested RUN/SPAWN/SYNC) with a thief",
  "No test or benchmark uses DROP.",
  H + C,
  [("lace_drop fast path / lace_drop_slow", "src/lace.h lace_drop, lace_drop_slow"),
   ("slot state read back by lace_get_head", "src/lace.c lace_get_head")],
  observe=["execution count of dropped tasks"])

p("C05", "A full task deque aborts the program instead of corrupting memory",
  "A worker's deque holds exactly the number of tasks given to lace_start. Spawning one task more than that ends the program with the task-stack-overflow error before anything is written outside the deque, and no operation of an owner or thief ever reads or writes outside the deque, for every deque size including very small ones.",
  ["inputs", "programs", "histories"],
  "all deque sizes up to the bound, all fill levels, from every entry point that determines the current position (SPAWN, RUN inside a task, NEWFRAME)",
  "Tests use the default of 100000 tasks and never come near the end.",
  H + C,
  [("comparison with the end of the deque in SPAWN", "src/lace.h NAME_SPAWN"),
   ("search bounded by the end of the deque", "src/lace.c lace_get_head"),
   ("lace_abort_stack_overflow", "src/lace.c lace_abort_stack_overflow")],
  observe=["exit of the process", "memory accesses"])

p("C06", "Arguments and results arrive unchanged for every task arity",
  "For every supported number of parameters (0 to 6, and 0 to 14 in the extended version), for tasks with and without a return value and for parameter types of different sizes, a task receives exactly the argument values, in order, whether it is started by CALL, SPAWN+SYNC (executed by the owner or by a thief), RUN, exclusive RUN, NEWFRAME or TOGETHER, and its caller receives exactly the returned value.",
  ["inputs", "programs", "configurations"],
  "all argument and result values, each arity, each way of starting a task, both versions",
  "Tests and benchmarks use a handful of arities and only small argument values; most of the ~40 generated macro families are never compiled.",
  H,
  [("generated TASK_n / VOID_TASK_n macro families", "src/lace.h, src/lace14.h (from src/lace.sh)")],
  observe=["parameters seen by the task body", "returned value"])

p("C07", "The current position in the deque is recovered exactly",
  "When a running task enters Lace without carrying its position along (RUN, NEWFRAME or TOGETHER inside a worker, or LACE_VARS), the position that is recovered is exactly the number of outstanding tasks of the worker, for every deque size and every number of outstanding tasks. Hence new tasks never overwrite outstanding ones and never leave gaps.",
  ["inputs", "histories"],
  "every deque size and fill level within the bound, and every interleaving-produced deque content",
  "test_together uses a fixed recursion depth with few fill levels; off-by-one in the galloping search shows only at particular levels.",
  C,
  [("linear probe, galloping and binary search over the slots", "src/lace.c lace_get_head"),
   ("slot is marked empty when popped", "src/lace.h NAME_SYNC, lace_leapfrog")],
  observe=["lace_get_head", "tasks after nested RUN"])

p("C08", "The barrier releases nobody before everybody has arrived, and is reusable",
  "No worker returns from a use of lace_barrier before every worker has entered that use; every worker returns once all have entered; and the barrier can be used again immediately, any number of times, without a worker being let through early or left behind.",
  ["schedules", "histories"],
  "all interleavings of two and three workers over several consecutive uses of the barrier",
  "The overlap of a slow leaver with a fast re-entering worker is a window of a few instructions.",
  C,
  [("arrival counter, phase flag, leaving counter", "src/lace.c lace_barrier")],
  [("count/wait/leaving", "arrivals, phase, workers still leaving", "src/lace.c barrier_t")],
  ["entry to and return from lace_barrier"])

p("C09", "TOGETHER runs one private copy of the task on every worker, all at once",
  "TOGETHER executes the given task exactly once on each worker, with the arguments that were given, on a copy that no other worker's execution can change; no worker starts its copy before all workers have stopped their previous work, and TOGETHER returns only after all copies and all the tasks they spawned have finished. Tasks that were outstanding before are untouched and continue afterwards.",
  ["schedules", "programs"],
  "all interleavings of two workers (and concurrent TOGETHER/NEWFRAME from both), task with and without result",
  "test_together checks only that the program ends; it uses tasks without a result and checks no counts.",
  C + H,
  [("shared slot for the interrupting task, copied by each worker between two barriers", "src/lace.c lace_wrap_together, lace_yield"),
   ("count-down of finished copies", "src/lace.c lace_together_root"),
   ("new frame", "src/lace.c lace_exec_in_new_frame")],
  observe=["executions per worker", "arguments seen"])

p("C10", "NEWFRAME interrupts everyone, runs the task once, and resumes everyone",
  "NEWFRAME executes the given task exactly once and returns its result; meanwhile no worker executes or steals a task of the interrupted computation, and afterwards every interrupted computation continues with all its outstanding tasks, each still executed exactly once with the right result. Concurrent NEWFRAME and TOGETHER requests from different workers are all served, one after the other.",
  ["schedules", "programs"],
  "all interleavings of two workers with outstanding (stolen, shared and private) tasks, one or both of which request a new frame",
  "test_together runs such programs but checks no execution counts or results and cannot steer the interruption into the middle of a steal or a split-point move.",
  C + H,
  [("save and restore of tail, split and all-stolen", "src/lace.c lace_exec_in_new_frame"),
   ("barriers before and after the frame", "src/lace.c lace_exec_in_new_frame, lace_yield"),
   ("claiming the request slot by compare-and-swap", "src/lace.c lace_wrap_newframe")],
  [("request slot", "task that interrupts all workers", "src/lace.c lace_newframe")],
  ["executions, results, worker that executes"])

p("C11", "RUN from outside executes the task exactly once and returns its result",
  "Each RUN from a thread that is not a worker has its task executed exactly once by one worker and returns, with that task's result, only after the task has finished; this holds for any number of threads calling RUN at the same time, for RUN while the workers are suspended, and when the waiting thread is interrupted by a signal. RUN inside a worker executes the task at once on that worker.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of two concurrent callers with one or two workers; any failure with EINTR of the semaphore wait",
  "The tests call RUN from one thread only, without signals.",
  C,
  [("single slot claimed by compare-and-swap, taken by exchange", "src/lace.c lace_run_task, lace_steal_external"),
   ("semaphore per call", "src/lace.c lace_run_task")],
  [("external task slot", "task offered by a non-worker", "src/lace.c external_task")],
  ["executions and return of RUN"])

p("C12", "Exclusive RUN is never concurrent with any other external task",
  "While a task started by the exclusive form of RUN from outside is being executed, no other task started from outside (exclusive or not) is being executed, and every caller of either form eventually gets its turn and its result.",
  ["schedules"],
  "all interleavings of an exclusive caller with one or two other callers and one or two workers",
  "No test uses the exclusive form.",
  C,
  [("mutex, condition variable, running counter and exclusive flag", "src/lace.c lace_run_task, lace_run_task_exclusive")],
  [("counter/exclusive", "running external tasks; exclusive holder present", "src/lace.c external_task_counter, external_task_exclusive")],
  ["begin and end of external tasks"])

p("C13", "Suspend stops all workers, resume starts them all, requests nest",
  "When lace_suspend returns with no other request keeping Lace awake, every worker has stopped: none executes, steals or polls until a later resume or RUN. After that, every worker comes back, resume and suspend requests of several threads are counted, and no sequence of start, suspend, resume, RUN and stop loses a wake-up or leaves a worker behind.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of two workers with histories of suspend/resume/RUN/stop from one or two outside threads within the bound; EINTR of the semaphore wait",
  "test_suspend does suspend/resume from one thread, one after the other, with no check that the workers have stopped.",
  C,
  [("awake counter with an intermediate state", "src/lace.c lace_suspend, lace_resume"),
   ("running counter, suspend flag, semaphore, barrier after waking", "src/lace.c lace_steal_loop")],
  [("awake count, running count, suspend flag", "how many requests, how many workers run", "src/lace.c lace_awaken_count, workers_running, must_suspend")],
  ["steps of workers after lace_suspend returned"])

p("C14", "Start and stop can be repeated and give everything back",
  "lace_stop returns only after every worker has left the framework for good, and then all memory, threads and semaphores acquired by lace_start have been given back; lace_stop also works while workers are suspended or have not yet started running. Lace can then be started again with any other number of workers and any deque size, and behaves as if started for the first time.",
  ["schedules", "histories", "configurations"],
  "all interleavings of start, RUN and stop, twice in a row, with one and two workers, different sizes, both allocation modes",
  "Tests restart a few times and would not notice a leaked thread, a leaked block, or a late access of a finishing worker.",
  C,
  [("quit flag and running counter", "src/lace.c lace_stop, lace_worker_thread"),
   ("initialisation of all globals", "src/lace.c lace_start")],
  observe=["allocation balance", "accesses of workers to freed memory", "lace_workers()"])

p("C15", "Worker memory is sized and aligned for every worker count and deque size",
  "For every number of workers and every deque size, the blocks that lace_start allocates are large enough for, and aligned as required by, everything that is later stored in them: one pointer per worker, and per worker its administration and as many task slots as requested (the documented default when 0 is given, whatever was used in an earlier start); and every worker thread gets the program stack size that lace_set_stacksize asked for, which lace_get_stacksize reports.",
  ["inputs", "configurations"],
  "all worker counts up to 2^20 and deque sizes up to 2^32, and the sequence of two starts, both versions, both allocation modes, all statistics settings",
  "Tests use one deque size and a few worker counts.",
  C,
  [("size computations", "src/lace.c lace_start, lace_init_worker"),
   ("layout with padding to cache lines", "src/lace.c worker_data, src/lace.h Worker, Task")],
  observe=["arguments of the allocation calls", "end of the deque"])

p("C16", "A worker only tries to steal from other, existing workers, and from all",
  "Whenever a worker picks a victim, at random or in its idle loop, the victim is one of the running workers and not the thief itself, for every number of workers, every worker id and every state of the random generators; and every other worker can be picked, so no worker's tasks are out of reach. With a single worker no steal is attempted.",
  ["inputs", "histories"],
  "all worker counts and ids up to 65535, all generator states; one inductive step of the idle loop",
  "Tests use a few worker counts on one machine; an index beyond the array or a never-picked victim does not change results.",
  C,
  [("random victim", "src/lace.c lace_steal_random, rng"),
   ("victim walk", "src/lace.c lace_steal_loop")],
  observe=["index of the victim"])

p("C17", "No deadlock: SYNC, RUN, barriers, frames and stop always complete",
  "Whatever the interleaving so far, if all threads keep being scheduled, every SYNC, DROP, RUN, TOGETHER, NEWFRAME, lace_barrier, lace_suspend, lace_resume and lace_stop of a program that uses them as documented completes. No wake-up, request or task can get lost.",
  ["schedules", "programs", "histories"],
  "after every symbolic schedule prefix within the bound, a fair continuation completes all calls",
  "A test that hangs once in a million runs passes.",
  C + H,
  [("leapfrogging only waits for a running thief", "src/lace.h lace_leapfrog"),
   ("all waiting loops poll state that someone else will change", "src/lace.c")],
  observe=["completion of every call"])

p("C18", "Spawning is wait-free and a thief never blocks or delays others",
  "SPAWN, and SYNC or DROP of a task that nobody stole, complete within a fixed number of the worker's own steps, whatever the other threads do, and acquire no lock. A steal attempt completes within a fixed number of own steps apart from the stolen task itself, and it fails with work present only if another operation on that deque succeeded meanwhile.",
  ["schedules", "inputs"],
  "every deque state, with arbitrary concurrent changes by other workers between any two steps",
  "Waiting is a matter of schedules; tests only measure throughput.",
  H,
  [("no loops or locks in SPAWN / SYNC fast and shrink paths / steal", "src/lace.h")],
  observe=["number of own steps"])

p("C19", "Work is shared on demand: a hungry thief is served by the next operation",
  "When a thief found nothing to steal although its victim has outstanding tasks that are not stolen, the victim makes at least one task available at its next SPAWN (and at its next SYNC, when other unstolen tasks remain), without ever sharing a task that is not outstanding. LACE_MAKE_ALL_SHARED makes every outstanding unstolen task available for stealing.",
  ["inputs", "histories", "schedules"],
  "every valid deque state within the size bound, every outcome of concurrent steals",
  "Without sharing the program is still correct, only sequential, so tests that check results pass.",
  H,
  [("request flag and split-point moves", "src/lace.h lace_steal, NAME_SPAWN, NAME_SYNC_SLOW, lace_shrink_shared, lace_make_all_shared")],
  observe=["success of the next steal attempt"])

p("C20", "Statistics count every event exactly once",
  "With the counting options on, the number of tasks reported equals the number of SPAWNs executed, the number of steals plus leaps reported equals the number of tasks that were executed by a worker other than their owner, tries are never fewer than successes plus busies, the splits reported are the times a worker took shared tasks back or shared more on request, and resetting sets every counter of every worker to zero. Counting never changes what the program computes.",
  ["schedules", "programs", "configurations"],
  "all interleavings of an owner and a thief, with each counting option",
  "The options are off in every test build.",
  C + H,
  [("PR_INC and friends at each event", "src/lace.h, src/lace.c"),
   ("lace_count_reset, lace_count_report_file", "src/lace.c")],
  observe=["reported counters"])

p("C21", "Time accounting and the report are total: no crash, no lost time",
  "With time accounting on, the report can be produced at any moment after start, however short the run and whatever the clock readings, without crashing; the time between two accounting events of a worker is attributed to the slice of the activity that just ended, and the level of nested waiting returns to where it was after each SYNC. The slices that the report prints for a worker are disjoint, and their sum over the workers is the total that it prints.",
  ["inputs", "histories", "configurations"],
  "all clock readings (monotone) and all sequences of accounting events that the code can produce within the bound",
  "The option is off in every test build.",
  C + H,
  [("lace_time_event", "src/lace.h"), ("us_elapsed, lace_count_report_file", "src/lace.c")],
  observe=["report", "accumulated slices"])

p("C22", "Worker identity: ids are 0..n-1, unique, and only workers are workers",
  "After start with n workers (the number of processors when 0 is given), lace_workers() is n, every task runs on a worker whose id is in 0..n-1, two workers never share an id or a deque, and lace_is_worker() is 1 exactly in threads that are Lace workers, also after stop and restart.",
  ["schedules", "configurations", "histories"],
  "all interleavings of thread creation and first tasks; all worker counts within the bound",
  "Tests print ids and never check them.",
  C,
  [("thread-local worker pointer, lace_init_worker", "src/lace.c"),
   ("lace_start worker count", "src/lace.c")],
  observe=["lace_workers, lace_is_worker, LACE_WORKER_ID"])

p("C23", "What can be asked about a spawned task is the truth",
  "For every outstanding task of a worker: TASK_IS_STOLEN becomes 1 only if another worker executes the task, is 1 once another worker has begun it, and stays 1 until its SYNC or DROP; TASK_IS_COMPLETED is 1 only when that execution has finished, implies TASK_IS_STOLEN, and stays 1; and once it is 1, TASK_RESULT gives exactly the value that SYNC then returns, and what the task wrote is visible. This also holds for a slot of the deque in which an earlier task was stolen, dropped or completed, and for a task taken back by its owner.",
  ["schedules", "histories"],
  "all interleavings of the asking worker with the thieves",
  "No test uses these queries.",
  H,
  [("TASK_IS_STOLEN, TASK_IS_COMPLETED, TASK_RESULT", "src/lace.h"), ("lace_steal, NAME##_SPAWN, NAME##_SYNC_SLOW, lace_drop_slow", "src/lace.h")],
  observe=["TASK_IS_STOLEN, TASK_IS_COMPLETED, TASK_RESULT"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
except ImportError: pass

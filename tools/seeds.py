"""The planted bugs, as edits of lace.sh / lace.c (gen.sh regenerates the headers)."""
SEEDS = []
ASAN = '-fsanitize=address -fno-omit-frame-pointer'
def seed(id, prop, demo, edits, needs, breaks, only=None, args='', cflags='', cc='gcc', files=(), env=''):
    SEEDS.append(dict(id=id, prop=prop, demo=demo, args=args, edits=edits, needs=needs, breaks=breaks, only=only, cflags=cflags, cc=cc, files=tuple(files), env=env))
H = 'lace.sh'; C = 'lace.c'

seed('c04-drop-last-shared', 'C04', 'drop.c', [(H, "if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);", "if ((w->allstolen) || (w->split > __dq_head + 1 && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);")],
 'DROP of a task that is the last shared one and was stolen', 'DROP comes back while the thief still runs the task, and the slot is reused under it')
seed('c05-end', 'C05', 'over.c', [(C, "w->end = w->dq + default_dqsize;", "w->end = w->dq + workers_memory_size / sizeof(Task);")],
 'more tasks outstanding than the deque has slots', 'the overflow is not noticed and the program writes past the worker\'s memory')
def arity12(s):
    i = s.index('#define TASK_DECL_12('); i = s.index('NAME##_SYNC_SLOW(WorkerP *w, Task *__dq_head)', i); i = s.index('NAME##_CALL(w, __dq_head', i)
    j = s.index(');', i); x = s[i:j]
    y = x.replace('arg_11', 'arg_X').replace('arg_12', 'arg_11').replace('arg_X', 'arg_12')
    assert x != y
    return s[:i] + y + s[j:]
seed('c06-arity12', 'C06', 'args12.c', [('lace14.h', arity12, None)], 'a task of arity 12 (lace14.h) that SYNC runs itself on its slow path, while another worker is asking for work',
 'the last two parameters arrive exchanged', only='lace14.h')
seed('c07-power2', 'C07', 'head.c', [(C, "if (low*2 >= high) {", "if (low*2 > high) {")], 'a deque whose size is a power of two with more than half of its slots in use', 'lace_get_head reads the slot after the last one', cflags=ASAN)
seed('c11-post-early', 'C11', 'late.c', [(C, """        atomic_store_explicit(&stolen_task->task->thief, THIEF_COMPLETED, memory_order_relaxed);
        // atomic_thread_fence(memory_order_relaxed);
        sem_post(&stolen_task->sem);
""", """        sem_post(&stolen_task->sem);
        // atomic_thread_fence(memory_order_relaxed);
        atomic_store_explicit(&stolen_task->task->thief, THIEF_COMPLETED, memory_order_relaxed);
""")], 'a caller of RUN that goes on before the worker has stored the completion mark', 'the worker writes into the stack of a RUN that is already back')
seed('c12-counter', 'C12', 'ex.c', [(C, "while (external_task_counter > 0) {", "while (external_task_counter > 1) {")], 'RUNEX while exactly one other external task is running', 'the exclusive task runs together with that task')
seed('c13-order', 'C13', 'susp.c', [(C, """                atomic_store_explicit(&must_suspend, 0, memory_order_relaxed);
                atomic_store_explicit(&lace_awaken_count, 0, memory_order_release);
""", """                atomic_store_explicit(&lace_awaken_count, 0, memory_order_release);
                atomic_store_explicit(&must_suspend, 0, memory_order_relaxed);
""")], 'another thread that resumes between the two stores at the end of lace_suspend', 'the resumed workers go to sleep again and nobody wakes them')
seed('c14-stop-early', 'C14', 'stopnow.c', [(C, """    while (workers_running != n_workers) {}

    lace_quits = 1;
""", """    lace_quits = 1;
""")], 'lace_stop while a worker thread has not come up yet', 'the memory of the worker is freed before the worker uses it', cflags=ASAN)
seed('c15-size', 'C15', 'fill.c', [(C, "workers_memory_size = sizeof(worker_data) + sizeof(Task) * dqsize;", "workers_memory_size = sizeof(worker_data) + sizeof(Task) * (dqsize - 1);")], 'a deque that is filled to its last slot', 'the last task is written past the end of the worker\'s memory', cflags=ASAN)
seed('c16-self', 'C16', 'victim.c', [(C, "Worker *victim = workers[(__lace_worker->worker + 1 + rng(&__lace_worker->seed, n_workers-1)) % n_workers];", "Worker *victim = workers[(__lace_worker->worker + 1 + rng(&__lace_worker->seed, n_workers)) % n_workers];")],
 'STEAL_RANDOM by a worker with shared tasks of its own', 'the worker steals from itself')
seed('c19-newsplit', 'C19', 'share.c', [(H, "newsplit = (split + head + 2)/2;", "newsplit = (split + head + 1)/2;")], 'a request for work answered by a SPAWN when all earlier tasks are shared', 'the request is cleared without any task being shared: the idle worker gets nothing')
seed('c20-again', 'C20', 'count.c', [(C, "    for (j=0;j<CTR_MAX;j++) ctr_all[j] = 0;\n", "")], 'a second report', 'the sums count the first report again', files=['cfg/lace_config.h'])
seed('c22-cap', 'C22', 'nworkers.c', [(C, "n_workers = _n_workers == 0 ? n_pus : _n_workers;", "n_workers = (_n_workers == 0 || _n_workers > n_pus) ? n_pus : _n_workers;")], 'more workers asked for than there are processors', 'Lace runs with fewer workers than asked for')
seed('c03-completed', 'C03', 'tsan.c', [(H, "                atomic_store_explicit(&t->thief, THIEF_COMPLETED, memory_order_release);", "                atomic_store_explicit(&t->thief, THIEF_COMPLETED, memory_order_relaxed);")],
 'a weakly ordered machine or a compiler that moves the store', 'what a stolen task wrote need not be visible after SYNC', cc='clang', cflags='-fsanitize=thread -fsanitize-ignorelist="$d/ignore.txt"', files=['ignore.txt'], env='TSAN_OPTIONS=exitcode=66:halt_on_error=1 ')
seed('c01-norecheck', 'C01', 'crossing.c', [(H, "            if (unlikely(tail > newsplit)) {", "            if (unlikely(tail > split)) {")], 'a thief that takes more than half of the shared tasks while SYNC is taking half of them back', 'a stolen task is executed again by its owner')
seed('c02-nopre', 'C02', 'leapslot.c', [(H, "        /* PRE-LEAP: increase head again */\n        __lace_dq_head += 1;\n", "        /* PRE-LEAP */\n")], 'leapfrogging into a task that spawns tasks of its own', 'the slot of the awaited task is overwritten before its result has been read')
seed('c02-leapempty', 'C02', 'soonsync.c', [(H, "        while ((size_t)thief <= 1) thief = t->thief;", "        if ((size_t)thief <= 1) thief = t->thief;")], 'SYNC of a task whose thief has claimed it but not yet left its mark', 'SYNC leapfrogs a worker that does not exist')
seed('c08-leaveorder', 'C08', 'lastbar.c', [(C, "        atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);\n        // flip wait\n        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);", "        // flip wait\n        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);\n        atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);")], 'a worker that leaves the barrier between the two stores of the worker that opens it, at the last barrier before lace_stop', 'the count of leaving workers never gets back to 0 and lace_stop hangs')
seed('c09-allback', 'C09', 'allback.c', [(C, "    // wait until all workers are back (else they may steal from previous frame)\n    lace_barrier();\n", "")], 'a worker that is still finishing a steal when the last copy of a TOGETHER task is done', 'TOGETHER returns while that worker still looks at the counter in its stack frame, and the worker can stay in the old call')
seed('c10-ready', 'C10', 'oldframe.c', [(C, "    // wait until all workers are ready\n    lace_barrier();\n", "")], 'a worker that enters the new frame before the others have put their tasks away', 'tasks of the interrupted computation are stolen and run inside the new frame')
seed('c17-stealyield', 'C17', 'stealframe.c', [(C, "{\n    YIELD_NEWFRAME();\n\n    if (unlikely", "{\n    if (unlikely")], 'a worker that waits with STEAL_RANDOM while another one asks for a new frame', 'the worker never enters the new frame and everybody waits for it')
seed('c18-tail', 'C18', 'thiefbusy.c', [(H, "            ts_new.ts.tail++;\n            if (atomic", "            ts_new.ts.tail++;\n            if (victim->movesplit) return LACE_BUSY;\n            if (atomic")], 'a thief that asked for work before the victim shared its tasks with LACE_MAKE_ALL_SHARED', 'the steal fails again and again although work is there and nobody else is at it')
seed('c19-framework', 'C19', 'framework.c', [(C, "        __lace_worker->allstolen = old_as;", "        __lace_worker->allstolen = 0;")], 'a new frame that interrupts a worker which knows that all its tasks are stolen', 'what the worker spawns later is never given away')
seed('c21-leapsignal', 'C21', 'pieleap.c', [(H, "                PR_ADD( w, CTR_lsignal, now - prev );\n                PR_ADD( w, CTR_lsteal, now - prev );", "                PR_ADD( w, CTR_lsignal, now - prev );")], 'a task stolen during leapfrogging', 'the time spent signalling is missing from the leap time, and the report shows a wrapped-around slice', files=['cfgpie/lace_config.h'])
seed('c23-completed', 'C23', 'query.c', [(H, "#define TASK_IS_COMPLETED(t) ((size_t)t->thief == 2)", "#define TASK_IS_COMPLETED(t) ((size_t)t->thief >= 2)")], 'asking about a task while its thief is still executing it', 'TASK_IS_COMPLETED is 1 for a task that is still running')
seed('c23-stolen', 'C23', 'query.c', [(H, "#define TASK_IS_STOLEN(t) ((size_t)t->thief > 1)", "#define TASK_IS_STOLEN(t) ((size_t)t->thief > 2)")], 'asking about a task that its thief has finished', 'TASK_IS_STOLEN is 0 again once the thief is done')
seed('c15-stack', 'C15', 'stack.c', [(C, "    if (stacksize != 0) {\n", "    if (stacksize > 1024*1024) {\n")], 'a program stack of at most one megabyte is asked for', 'the request is ignored and the workers run on the default stack')

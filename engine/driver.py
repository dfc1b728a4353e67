"""Runs the jobs of one property: symbolic multi-threaded scenarios (lacesym)
and CBMC harnesses, in parallel, within a time budget; confirms violations
natively; writes the evidence file."""
import os, sys, time, json, re, subprocess, multiprocessing as mp, traceback, resource, hashlib, signal, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)

def ensure_core():
    import glob
    if glob.glob(HERE + '/aigcore*.so'):
        return
    r = subprocess.run([sys.executable, HERE + '/setup_core.py'], capture_output=True, cwd=HERE)
    if r.returncode: raise RuntimeError('cannot build the SAT core: ' + r.stderr.decode()[-800:])

def config_dir(tmp, cfg):
    """lace_config.h from the repository's template"""
    d = os.path.join(tmp, 'cfg_' + '_'.join(cfg) if cfg else 'cfg'); os.makedirs(d, exist_ok=True)
    t = open(REPO + '/src/lace_config.h.in').read()
    t = re.sub(r'#cmakedefine01\s+(\w+)', lambda m: '#define %s %d' % (m.group(1), 1 if m.group(1) in cfg else 0), t)
    t = re.sub(r'#cmakedefine\s+(\w+).*', lambda m: '#define %s 1' % m.group(1) if m.group(1) in cfg else '/* #undef %s */' % m.group(1), t)
    # jobs of the same configuration share the directory: never show another job a half-written file
    f = '%s/lace_config.h.%d' % (d, os.getpid()); open(f, 'w').write(t); os.rename(f, d + '/lace_config.h')
    return d

def shadow_include(tmp, ver):
    """lace14.h is used under its own name; a harness includes LACE_C"""
    return REPO + '/src'

class Sym:
    """a symbolic scenario. levels: list of dicts of engine options
    (rounds, suffix + any Engine option)"""
    kind = 'sym'
    def but(s, **k):
        import copy
        j = copy.copy(s); j.opts = dict(s.opts)
        for a, v in k.items(): setattr(j, a, v)
        return j
    def __init__(s, name, src, flags=(), threads=(1, 2), quick=(), thorough=None, vers=(6, 14), live=True, tags=(), cfg=(), need=('end',), opts=None, order=0, tmo=170):
        s.name = name; s.src = src; s.flags = list(flags); s.threads = list(threads); s.quick = list(quick)
        s.thorough = list(thorough) if thorough is not None else list(quick); s.vers = vers; s.live = live; s.cfg = tuple(cfg); s.need = need
        s.opts = opts or {}; s.order = order; s.tmo = tmo

def unreached(e, label):
    A = e.aig
    return A.and_(A.and_(A.and_(e.reach.get(label, 0) ^ 1, e.ok), e.cut ^ 1), e.dead ^ 1)

def norm_ir(t):
    """IR text without debug information, type layouts and file names, for
    comparing the two library versions"""
    out = []
    for l in t.split('\n'):
        if l.startswith(('!', 'source_filename', '; ModuleID', 'target ', '%struct', '%union', '@.str', '@__const', 'attributes')) or not l.strip(): continue
        l = re.sub(r', !dbg !\d+', '', l); l = re.sub(r' !dbg !\d+', '', l)
        l = re.sub(r'@\.str(\.\d+)?', '@.str', l)
        l = re.sub(r'(!\d+|#\d+)', '', l); l = re.sub(r'line=\d+', '', l)
        l = re.sub(r'\.(size|lace14)', '', l)
        out.append(l)
    return '\n'.join(out)

def run_sym(job, ver, levels, tmp, q, deadline, pid):
    import lacesym, irparse, replay
    res = {'job': job.name + ('/lace14' if ver == 14 else '/lace'), 'kind': 'sym', 'levels': [], 'status': 'none'}
    def put(kind, **kw): q.put((res['job'], kind, kw))
    cdir = config_dir(tmp, job.cfg)
    lc = REPO + '/src/' + ('lace14.c' if ver == 14 else 'lace.c')
    fl = ['-I' + HERE, '-I' + cdir, '-I' + REPO + '/src', '-DLACE_C="%s"' % lc, '-DLACE_VER=%d' % ver] + job.flags
    try:
        ir = lacesym.build_ir(VERIF + '/engine/scen/' + job.src, fl)
    except subprocess.CalledProcessError as e:
        put('error', text='harness does not compile: ' + str((e.stderr or b'').decode('latin1') if isinstance(e.stderr, bytes) else e.stderr)[-1200:]); return
    put('ir', digest=hashlib.sha256(norm_ir(ir).encode()).hexdigest())
    m = irparse.parse(ir)
    for li, lv in enumerate(levels):
        o = dict(B=2, prefixB=4); o.update(job.opts); o.update(lv)
        R = o.pop('rounds'); F = o.pop('suffix'); th = o.pop('threads', job.threads); suf = o.pop('sufthreads', th + [0] if 0 not in th else th)
        t0 = time.time()
        o['timeout'] = max(5, min(deadline - t0, o.pop('tmo', job.tmo)))
        o['stop_on_viol'] = True
        pre = o.pop('pre', [])
        if R < 0: sched = []
        else: sched = pre + th*R
        e = lacesym.Engine(m, o); e.boot()
        unfin = (lambda: unreached(e, job.live)) if isinstance(job.live, str) else e.unfinished
        try:
            e.run(sched, suf*F)
            # a longer fair continuation as long as some schedule is unfinished
            maxF = F*4
            while job.live and not e.viol and F < maxF and e.aig.feasible(unfin()):
                F += 2; e.run([], suf*2)
        except lacesym.EngineError as x:
            put('level', level=li, opts=lv, done=False, why=str(x), wall=time.time() - t0)
            if not e.viol: return
        except (MemoryError, RecursionError) as x:
            put('level', level=li, opts=lv, done=False, why=repr(x), wall=time.time() - t0); return
        A = e.aig
        todo = list(e.viol); live = 0
        if not todo and job.live:
            u = unfin(); live = u
            if u and A.feasible(u): todo.append((u, 'live', 'a schedule after which the program does not complete although all threads keep being scheduled'))
        st = dict(functions=sorted(x[1:] for x in e.fnames if not x.startswith(('@vp_', '@llvm'))), contexts=e.stats['contexts'], configs=e.stats['configs'], instructions=e.nins,
                  visible_ops=e.nvis, nodes=A.nodes(), inputs=A.ninputs(), queries=A.n_sat + A.n_unsat, sat=A.n_sat, unsat=A.n_unsat, simhits=A.n_simhit,
                  conflicts=A.conflicts(), solver_s=round(A.t_sat, 2), wall=round(time.time() - t0, 2))
        if not todo:
            reach = {k: bool(A.feasible(g)) for k, g in e.reach.items()}
            cut = bool(A.feasible(e.cut)); wall = time.time() - t0
            put('level', level=li, opts=lv, done=True, reach=reach, cut=cut, stats=st, wall=wall)
            if li == 0 or li == len(levels) - 1:
                try:
                    xo, xb = xcheck(A, A.unsat_lits, 4 if li == 0 else 12, tmp)
                    put('xcheck', agree=xo, disagree=xb)
                except Exception as x: put('note', text='cross-check: %r' % x)
            if li == 0:
                try: put('witness', w=witness(m, e, o, sched, suf*F, [x for x in job.need if reach.get(x)][:2], job.live, tmp))
                except Exception as x: put('note', text='witness: %r' % x)
            del e, A
            continue
        # confirm natively
        why = []
        seen = {}
        conf = 0; spent = time.time()
        for g, k, t in todo:
            kk = (k, t)
            if seen.get(kk, 0) >= 2 or len(why) >= 12 or time.time() - spent > 120: continue
            seen[kk] = seen.get(kk, 0) + 1
            mo = A.model(g)
            if mo is None: continue
            e2 = lacesym.Engine(m, dict(o, timeout=1e9, stop_on_viol=False), fixed=mo); e2.boot()
            try: e2.run(sched, suf*F)
            except lacesym.EngineError as x: why.append('engine: %s' % x); continue
            if k != 'live' and not e2.viol: why.append('%s: not reproduced symbolically' % t); continue
            tr = replay.trace_text(e2)
            keep = os.path.join(VERIF, 'replays', pid, re.sub(r'\W+', '_', res['job']))
            shutil.rmtree(keep, ignore_errors=True)
            try: rc, err = replay.run_native(m, o.get('tso', 0), o.get('weak', 0), tr, keep=keep, hb=o.get('hb', 0), onlylive=int(bool(o.get('onlylive'))))
            except RuntimeError as x: why.append(str(x)[:400]); continue
            ok = rc == 11 if o.get('onlylive') else rc in replay.CONFIRMED
            if err == 'timeout' and k != 'live': ok = False
            if k == 'live' and (rc == 0 or isinstance(job.live, str) and 'REACHED ' + job.live in err): ok = False
            if ok:
                open(keep + '/README', 'w').write('property %s, scenario %s (%s)\n%s\nlevel %r\nnative exit code %d\n%s\n\nTo replay: sh %s/run.sh\n' % (pid, res['job'], ' '.join(job.flags), t, lv, rc, err, keep))
                open(keep + '/run.sh', 'w').write('cd "$(dirname "$0")" && clang -w -O0 -g -fsanitize=address p.ll rt.c -o /tmp/vp_replay_bin.$$ -lpthread -lm && ASAN_OPTIONS=exitcode=99:detect_leaks=0 /tmp/vp_replay_bin.$$ t.txt; r=$?; rm -f /tmp/vp_replay_bin.$$; echo "exit code $r (0 would mean: not reproduced)"; exit $r\n')
                put('violation', level=li, opts=lv, text=t, vkind=k, rc=rc, err=err[-300:], keep=keep, stats=st, wall=time.time() - t0); return
            shutil.rmtree(keep, ignore_errors=True)
            why.append('%s: native replay gave %d' % (t, rc))
        put('level', level=li, opts=lv, done=False, why='unconfirmed: ' + '; '.join(why)[:1500], stats=st, wall=time.time() - t0)
        return
    put('done')

def xcheck(A, lits, n, tmp, tmo=20):
    """re-decide a sample of the unsatisfiable queries with an independent
    solver; returns (agreeing, disagreeing)"""
    import random
    sel = random.Random(1).sample(lits, min(n, len(lits)))
    ok = bad = 0
    for l in sel:
        f = os.path.join(tmp, 'x%d_%d.cnf' % (os.getpid(), l))
        A.dimacs(l, f)
        try: r = subprocess.run(['kissat', '-q', '-n', f], capture_output=True, timeout=tmo).returncode
        except (subprocess.TimeoutExpired, OSError): r = 0
        os.unlink(f)
        if r == 20: ok += 1
        elif r == 10: bad += 1
    return ok, bad

def witness(m, e, o, sched, suf, labels, live, tmp):
    """solver-chosen executions that reach the labels, run natively: the real
    code must follow the same schedule without a violation"""
    import lacesym, replay
    out = []
    for lab in labels:
        g = e.aig.and_(e.aig.and_(e.reach.get(lab, 0), e.ok), e.dead ^ 1)
        mo = e.aig.model(g) if g else None
        if mo is None: continue
        e2 = lacesym.Engine(m, dict(o, timeout=1e9, stop_on_viol=False), fixed=mo); e2.boot()
        e2.run(sched, suf)
        rc, err = replay.run_native(m, o.get('tso', 0), o.get('weak', 0), replay.trace_text(e2), hb=o.get('hb', 0))
        out.append(dict(label=lab, engine_reached=e2.reach.get(lab, 0) == 1, engine_violations=len(e2.viol), native_exit=rc,
                        ok=e2.reach.get(lab, 0) == 1 and not e2.viol and (rc == 0 or (live is not True and rc == 11)),
                        contexts=[(t, len([x for x in ev if x[0] == 'h'])) for c, t, ev in e2.trace][:40]))
    return out

def _limit(mem):
    resource.setrlimit(resource.RLIMIT_AS, (mem, resource.getrlimit(resource.RLIMIT_AS)[1]))

def entry(job, ver, levels, tmp, q, deadline, pid, mem):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    os.setpgrp()
    sys.setrecursionlimit(20000)
    name = job.name + ('/lace14' if ver == 14 else '/lace') if job.kind == 'sym' else job.name
    try:
        if job.kind == 'sym':
            _limit(mem)
            run_sym(job, ver, levels, tmp, q, deadline, pid)
        else:
            job.run(ver, levels, tmp, q, deadline, pid, config_dir, REPO)
    except MemoryError: q.put((name, 'error', {'text': 'out of memory', 'soft': True}))
    except Exception as x:
        q.put((name, 'error', {'text': 'internal: %r %s' % (x, traceback.format_exc()[-1500:])}))
    q.close(); q.join_thread()

def run_property(pid, jobs, tier, budget, known=(), ncpu=None, verbose=False):
    """returns (violations, results)"""
    ensure_core()
    t0 = time.time(); deadline = t0 + budget
    tmp = tempfile.mkdtemp(prefix='vp_check_'); os.environ['TMPDIR'] = tmp; tempfile.tempdir = tmp
    ncpu = ncpu or int(os.environ.get('VP_JOBS', '8'))
    mgr = mp.get_context('fork'); q = mgr.Queue()
    todo = []
    for j in jobs:
        if j.kind == 'sym':
            for v in j.vers: todo.append((j, v, (j.quick if v == 6 else j.quick[:max(1, len(j.quick) - 1)]) if tier == 'quick' else j.thorough))
        else: todo.append((j, 0, j.quick if tier == 'quick' else j.thorough))
    # lace first; lace14 waits for the comparison with lace
    todo.sort(key=lambda x: (x[1] == 14, -x[0].order))
    running = {}; results = {}; ir = {}; viol = []; waiting = [x for x in todo if x[1] == 14]; todo = [x for x in todo if x[1] != 14]
    mem = (3600 if tier == 'quick' else 6000) << 20
    def name_of(x): return x[0].name + ('/lace14' if x[1] == 14 else '/lace') if x[0].kind == 'sym' else x[0].name
    def handle(block=0.0):
        try: n, kind, kw = q.get(timeout=block) if block else q.get_nowait()
        except Exception: return False
        r = results.setdefault(n, {'levels': [], 'errors': [], 'violations': []})
        if kind == 'level': r['levels'].append(kw)
        elif kind == 'ir': ir[n] = kw['digest']
        elif kind == 'violation': r['violations'].append(kw); viol.append((n, kw))
        elif kind == 'error': r['errors'].append(kw['text'])
        elif kind == 'witness': r.setdefault('witness', []).extend(kw['w'])
        elif kind == 'xcheck': r['xagree'] = r.get('xagree', 0) + kw['agree']; r['xdis'] = r.get('xdis', 0) + kw['disagree']
        elif kind == 'note': r.setdefault('notes', []).append(kw['text'])
        elif kind == 'info': r.update(kw)
        if verbose: print('  %6.1f %s %s %s' % (time.time() - t0, n, kind, {k: v for k, v in kw.items() if k not in ('stats',)} if kind != 'level' else (kw['opts'], kw['done'], kw.get('why', ''), kw.get('reach'), 'cut' if kw.get('cut') else '', '%.1f s' % kw['wall'])), flush=True)
        return True
    stop = False
    while (todo or waiting or running) and not stop:
        while len(running) < ncpu and (todo or waiting):
            if todo: x = todo.pop(0)
            else:
                x = waiting.pop(0)
            n = name_of(x); lv = x[2]
            if time.time() > deadline - 3:
                results.setdefault(n, {'levels': [], 'errors': [], 'violations': []})['errors'].append('not started: budget'); continue
            p = mgr.Process(target=entry, args=(x[0], x[1], lv, tmp, q, deadline, pid, mem)); p.start()
            running[n] = (p, x, time.time())
        while handle(0.05): pass
        now = time.time()
        for n, (p, x, ts) in list(running.items()):
            if not p.is_alive():
                p.join()
                while handle(): pass
                results.setdefault(n, {'levels': [], 'errors': [], 'violations': []})
                if p.exitcode not in (0,): results[n]['errors'].append('process ended with %s' % p.exitcode)
                del running[n]
            elif now > deadline + (60 if any(True for _ in ()) else 20):
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: p.kill()
                p.join(); results.setdefault(n, {'levels': [], 'errors': [], 'violations': []})['errors'].append('stopped: time budget'); del running[n]
            # same code in lace14: smaller level is enough
            elif x[1] == 14 and n in ir and ir.get(n[:-2]) == ir[n] and len(results.get(n, {'levels': []})['levels']) >= 1 and not viol:
                lvl = results[n]['levels']
                if lvl and lvl[0].get('done') and len(x[2]) > 1:
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except OSError: p.kill()
                    p.join(); results[n]['same_code'] = True; del running[n]
        if viol and os.environ.get('VP_ALL') != '1':
            # let confirmations in progress be; one confirmed violation decides
            stop = True
    for n, (p, x, ts) in running.items():
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: p.kill()
        p.join()
    while handle(): pass
    shutil.rmtree(tmp, ignore_errors=True)
    return viol, results, time.time() - t0

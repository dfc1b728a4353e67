"""CBMC harness jobs: the real C sources through CBMC's C front end."""
import os, sys, json, subprocess, time, re, shutil, signal, resource
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
CONFIRMED = (10, 99, -11, -8, -6, -7, -4, 136, 139)

def _lim(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f

class Cbmc:
    """levels: list of dicts(unwind=, defs=[...], solver=None|'kissat'|..., tmo=)"""
    kind = 'cbmc'
    def __init__(s, name, src, flags=(), quick=(), thorough=None, cfg=(), ver=6, need=('end',), order=0, checks=('--bounds-check', '--pointer-check', '--div-by-zero-check'), tmo=170, native=(), replay=True, unwindset=(), expect=None):
        s.expect = expect
        s.name = name; s.src = src; s.flags = list(flags); s.quick = list(quick); s.thorough = list(thorough) if thorough is not None else list(quick)
        s.cfg = tuple(cfg); s.ver = ver; s.need = need; s.order = order; s.checks = list(checks); s.tmo = tmo; s.native = list(native); s.replay = replay; s.unwindset = list(unwindset)

    def copy_without_set(s):
        import copy
        k = copy.copy(s); k.unwindset = []
        return k

    def cmd(s, cdir, repo, lv, extra):
        inc = ['-I' + HERE + '/cb', '-I' + cdir, '-I' + repo + '/src', '-I' + HERE]
        lc = repo + '/src/' + ('lace14.c' if s.ver == 14 else 'lace.c'); lh = repo + '/src/' + ('lace14.h' if s.ver == 14 else 'lace.h')
        return inc + ['-DLACE_C="%s"' % lc, '-DLACE_H="%s"' % lh, '-DLACE_VER=%d' % s.ver] + s.flags + list(lv.get('defs', ())) + extra

    def run(s, ver, levels, tmp, q, deadline, pid, config_dir, repo):
        def put(kind, **kw): q.put((s.name, kind, kw))
        cdir = config_dir(tmp, s.cfg)
        src = HERE + '/cb/' + s.src
        for li, lv in enumerate(levels):
            t0 = time.time()
            base = s.cmd(cdir, repo, lv, [])
            uw = ['--unwind', str(lv['unwind'])] if lv.get('unwind') else []
            for x in s.unwindset: uw += ['--unwindset', x]
            for x in lv.get('unwindset', ()): uw += ['--unwindset', x]
            args = ['cbmc', src] + base + ['--no-standard-checks'] + s.checks + uw + ['--unwinding-assertions', '--no-malloc-may-fail', '--object-bits', '12', '--function', 'harness', '--drop-unused-functions', '--slice-formula', '--json-ui', '--trace', '--verbosity', '8']
            if lv.get('solver'): args += ['--external-sat-solver', lv['solver']]
            tmo = max(3, min(deadline - t0, lv.get('tmo', s.tmo)))
            try: r = subprocess.run(args, capture_output=True, timeout=tmo, preexec_fn=_lim(7000 << 20))
            except subprocess.TimeoutExpired:
                put('level', level=li, opts=lv, done=False, why='time limit', wall=time.time() - t0); return
            txt = r.stdout.decode('latin1')
            try: js = json.loads(txt)
            except ValueError:
                put('error', text='cbmc: rc %d %s %s' % (r.returncode, txt[-600:], r.stderr.decode('latin1')[-300:])); return
            props = []; status = None; msgs = []; trace = None; failed = None
            for it in js:
                if 'result' in it: props = it['result']
                if 'cProverStatus' in it: status = it['cProverStatus']
                if 'messageText' in it: msgs.append(it['messageText'])
                if it.get('status') == 'failed' or ('property' in it and 'trace' in it): failed = it
            # with --stop-on-fail the failing property comes with its trace
            fails = [p for p in props if p.get('status') == 'FAILURE']
            if s.expect:        # assertions that must be refutable: an existence claim
                tg = [p for p in props if re.match(s.expect + r' \d', p.get('description', ''))]
                fails = [p for p in fails if p not in tg]
                never = [p for p in tg if p.get('status') != 'FAILURE']
                if not fails:
                    status = 'success'
                    if not tg: put('error', text='no existence claims found'); return
                    if never:
                        a, b = never[0]['description'].split()[1:3]
                        keep = os.path.join(VERIF, 'replays', pid, re.sub(r'\W+', '_', s.name)); shutil.rmtree(keep, ignore_errors=True); os.makedirs(keep)
                        open(keep + '/vp_in.inc', 'w').write('%s\n' % a); shutil.copy(cdir + '/lace_config.h', keep)
                        exe = tmp + '/cbs_%s_%d' % (re.sub(r'\W+', '_', s.name), li)
                        b_ = subprocess.run(['clang', '-w', '-O1', '-DVP_REPLAY', '-DVP_SAMPLE=' + b, '-I' + keep] + base + [src, '-o', exe, '-lpthread', '-lm'], capture_output=True)
                        rc = subprocess.run([exe], capture_output=True, timeout=100).returncode if b_.returncode == 0 else -1
                        where = 'no state of the generator makes worker %s pick worker %s' % (a, b)
                        open(keep + '/README', 'w').write('property %s, harness %s\n%s\nnative sampling of 2^24 states: exit %d\n' % (pid, s.name, where, rc))
                        if rc == 10: put('violation', level=li, opts=lv, text=where, vkind='exists', rc=rc, err='', keep=keep, stats={}, wall=time.time() - t0)
                        else: put('level', level=li, opts=lv, done=False, why='unconfirmed: %s: native gave %d' % (where, rc), wall=time.time() - t0)
                        return
                else: status = 'failed'
            fails.sort(key=lambda p: 'unwinding' in p.get('description', ''))
            if fails: failed = fails[0]
            mt = '\n'.join(msgs)
            st = dict(queries=1, functions=[], vccs=0, solver_s=0.0)
            m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', mt)
            if m: st['vccs'] = int(m.group(1)); st['vccs_remaining'] = int(m.group(2))
            m = re.search(r'(\d+) variables, (\d+) clauses', mt)
            if m: st['vars'] = int(m.group(1)); st['clauses'] = int(m.group(2))
            m = re.findall(r'Runtime (?:decision procedure|Solver): ([\d.]+)s', mt)
            if m: st['solver_s'] = round(sum(map(float, m)), 2)
            m = re.findall(r'size of program expression: (\d+) steps', mt)
            if m: st['steps'] = int(m[-1])
            if status is None:
                put('error', text='cbmc gave no status: rc %d %s' % (r.returncode, mt[-700:])); return
            if status == 'success':
                reach = {}
                if s.need:
                    a2 = ['cbmc', src] + s.cmd(cdir, repo, lv, ['-DVP_REACH']) + ['--no-standard-checks'] + uw + ['--no-unwinding-assertions', '--no-malloc-may-fail', '--object-bits', '12', '--function', 'harness', '--drop-unused-functions', '--slice-formula', '--json-ui', '--verbosity', '4']
                    try:
                        r2 = subprocess.run(a2, capture_output=True, timeout=max(3, min(deadline - time.time(), 60)), preexec_fn=_lim(7000 << 20))
                        for it in json.loads(r2.stdout.decode('latin1')):
                            for p in it.get('result', ()):
                                mm = re.match(r'REACH (.*)', p.get('description', ''))
                                if mm: reach[mm.group(1)] = reach.get(mm.group(1), False) or p['status'] == 'FAILURE'
                    except (subprocess.TimeoutExpired, ValueError): pass
                put('level', level=li, opts=lv, done=True, reach=reach, cut=False, stats=st, wall=time.time() - t0); continue
            desc = (failed or {}).get('description') or (failed or {}).get('property') or '?'
            trace = (failed or {}).get('trace') or []
            if 'unwinding assertion' in desc and lv.get('grown', 0) < 2:     # a loop is longer than foreseen: larger bounds
                g = lambda x: '%s:%d' % (x.rsplit(':', 1)[0], 4*int(x.rsplit(':', 1)[1]))
                lv2 = dict(lv, grown=lv.get('grown', 0) + 1, unwind=4*lv.get('unwind', 8), unwindset=[g(x) for x in list(lv.get('unwindset', ()))+list(s.unwindset if not lv.get('grown') else ())])
                s2 = s.copy_without_set(); put('note', text='unwinding raised to %d' % lv2['unwind'])
                s2.run(ver, [lv2] + list(levels[li+1:]), tmp, q, deadline, pid, config_dir, repo); return
            if 'unwinding assertion' in desc:
                put('level', level=li, opts=lv, done=False, why='unwinding bound too small: ' + desc, stats=st, wall=time.time() - t0); return
            loc = (failed or {}).get('sourceLocation') or {}
            if failed and failed.get('property'):      # once more without slicing, so that the trace names every input
                a3 = [x for x in args if x != '--slice-formula'] + ['--property', failed['property']]
                try:
                    r3 = subprocess.run(a3, capture_output=True, timeout=max(10, min(deadline - time.time(), 170)), preexec_fn=_lim(7000 << 20))
                    for it in json.loads(r3.stdout.decode('latin1')):
                        for p in it.get('result', ()):
                            if p.get('status') == 'FAILURE' and p.get('trace'): trace = p['trace']
                except (subprocess.TimeoutExpired, ValueError): pass
            vals = {}
            for x in trace:
                if x.get('stepType') == 'assignment':
                    mm = re.match(r'vp_in\[(\d+)', str(x.get('lhs', '')))
                    if mm:
                        v = x.get('value', {})
                        b = v.get('binary')
                        vals[int(mm.group(1))] = int(b, 2) if b else int(re.sub(r'[^\d-]', '', str(v.get('data', '0'))) or 0)
            where = '%s [%s:%s]' % (desc, loc.get('function', '?'), loc.get('line', '?'))
            keep = os.path.join(VERIF, 'replays', pid, re.sub(r'\W+', '_', s.name))
            shutil.rmtree(keep, ignore_errors=True); os.makedirs(keep, exist_ok=True)
            inc = [vals.get(k, 0) for k in range(max(vals, default=0) + 1)]
            open(keep + '/vp_in.inc', 'w').write(', '.join('%dULL' % v for v in inc) + '\n')
            shutil.copy(cdir + '/lace_config.h', keep)
            exe = tmp + '/cb_%s_%d' % (re.sub(r'\W+', '_', s.name), li)
            cc = ['clang', '-w', '-g', '-O0', '-fsanitize=address,undefined', '-fno-sanitize=alignment,function', '-fno-sanitize-recover=undefined', '-DVP_REPLAY', '-I' + keep] + base + s.native + [src, '-o', exe, '-lpthread', '-lm']
            b = subprocess.run(cc, capture_output=True)
            if b.returncode:
                put('level', level=li, opts=lv, done=False, why='unconfirmed: %s; replay build: %s' % (where, b.stderr.decode('latin1')[:500]), stats=st, wall=time.time() - t0); return
            env = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:symbolize=0', UBSAN_OPTIONS='exitcode=99:halt_on_error=1')
            try:
                r = subprocess.run([exe], capture_output=True, env=env, timeout=60); rc = r.returncode; err = r.stderr.decode('latin1')[-400:]
            except subprocess.TimeoutExpired: rc, err = 11, 'timeout'
            open(keep + '/README', 'w').write('property %s, harness %s\n%s\ninputs vp_in = %s\nnative exit %d\n%s\n' % (pid, s.name, where, inc, rc, err))
            open(keep + '/run.sh', 'w').write('cd "$(dirname "$0")" && ' + ' '.join("'%s'" % x if x != exe else '/tmp/vp_cb_replay.$$' for x in cc).replace(cdir, '.').replace("'-I" + keep + "'", '-I.') + ' && /tmp/vp_cb_replay.$$; r=$?; rm -f /tmp/vp_cb_replay.$$; echo "exit code $r (0 would mean: not reproduced)"; exit $r\n')
            try: os.unlink(exe)
            except OSError: pass
            if rc in CONFIRMED or (rc == 11 and lv.get('hang')):
                put('violation', level=li, opts=lv, text=where, vkind='assert', rc=rc, err=err[-300:], keep=keep, inputs=inc, stats=st, wall=time.time() - t0); return
            put('level', level=li, opts=lv, done=False, why='unconfirmed: %s: native replay gave %d %s' % (where, rc, err[-200:]), stats=st, wall=time.time() - t0); return
        put('done')

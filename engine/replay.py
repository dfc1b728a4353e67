"""Native replay of a solver counterexample (see vp_rt.c)."""
import resource, os, re, subprocess, sys, json, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))

def trace_text(e):
    """schedule file from a concrete engine run"""
    out = ['tso %d' % (e.tso or 0), 'hb %d' % e.hb]
    ch = {}; wk = {}
    for ctx, tid, ev in e.trace:
        h = [(x[1], x[2]) for x in ev if x[0] == 'h']; tail = sum(x[1] for x in ev if x[0] == 't')
        out.append('ctx %d %d %d %s' % (tid, len(h), tail, ' '.join('%s%d' % x for x in h)))
        for x in ev:
            if x[0] == 'c': ch.setdefault(tid, []).append(x[1])
            elif x[0] == 'w': wk.setdefault(tid, []).append(x[1])
    for t, l in ch.items(): out.append('choice %d %d %s' % (t, len(l), ' '.join(map(str, l))))
    for t, l in wk.items(): out.append('weak %d %d %s' % (t, len(l), ' '.join(map(str, l))))
    return '\n'.join(out) + '\n'

ORD = {'': 0, None: 0, 'unordered': 1, 'monotonic': 1, 'acquire': 2, 'release': 3, 'acq_rel': 4, 'seq_cst': 5}

def instrument(m, tso, weak, hb=0):
    """IR text with a hook before every visible operation"""
    lines = list(m.text); n = 0
    for f in m.f.values():
        for b in f.blocks:
            for I in b.ins:
                pre = []; post = []
                l = lines[I.line]
                if I.op in ('load', 'store', 'cmpxchg', 'atomicrmw') and I.vis:
                    pre.append('  call void @vp_hook()')
                if I.op == 'call' and I.memop: pre.append('  call void @vp_hook()')
                if I.op == 'fence' and I.ord == 'seq_cst' and tso:
                    pre += ['  call void @vp_hook()', '  call void @vp_flush()']
                if tso and I.op in ('cmpxchg', 'atomicrmw') and I.vis: pre.append('  call void @vp_flush()')
                if I.op == 'cmpxchg' and I.x == 'weak' and weak:
                    n += 1
                    mm = re.search(r'cmpxchg weak (?:volatile )?ptr ([^,]+), (\w+) ([^,]+), ', l)
                    ty, ex = mm.group(2), mm.group(3)
                    if ty == 'ptr': raise ValueError('ptr cmpxchg')
                    pre.append('  %%vpw%d = call i32 @vp_weak()' % n)
                    pre.append('  %%vpb%d = icmp ne i32 %%vpw%d, 0' % (n, n))
                    pre.append('  %%vpx%d = xor %s %s, -1' % (n, ty, ex))
                    pre.append('  %%vpe%d = select i1 %%vpb%d, %s %%vpx%d, %s %s' % (n, n, ty, n, ty, ex))
                    l = l[:mm.start(3)] + '%%vpe%d' % n + l[mm.end(3):]
                if tso and I.vis and I.op == 'load':
                    mm = re.match(r'(\s*%[-\w.]+ = )load (?:atomic )?(?:volatile )?(ptr|i\d+), ptr (.*?)(?: (?:unordered|monotonic|acquire|seq_cst))?, align \d+(.*)$', l)
                    if mm and mm.group(2) in ('ptr', 'i8', 'i16', 'i32', 'i64'):
                        ty = mm.group(2); l = '%scall %s @vp_ld%s(ptr %s)%s' % (mm.group(1), ty, '64p' if ty == 'ptr' else ty[1:], mm.group(3), mm.group(4))
                elif tso and I.vis and I.op == 'store':
                    mm = re.match(r'(\s*)store (?:atomic )?(?:volatile )?(ptr|i\d+) ((?:[^,(]|\([^()]*\))+), ptr (.*?)(?: (?:unordered|monotonic|release|seq_cst))?, align \d+(.*)$', l)
                    if mm and mm.group(2) in ('ptr', 'i8', 'i16', 'i32', 'i64'):
                        ty = mm.group(2); l = '%scall void @vp_st%s(ptr %s, %s %s, i32 %d)%s' % (mm.group(1), '64p' if ty == 'ptr' else ty[1:], mm.group(4), ty, mm.group(3), 1 if I.ord == 'seq_cst' else 0, mm.group(5))
                if hb and I.op in ('load', 'store', 'atomicrmw', 'cmpxchg') and I.vis and not I.a.__class__ is tuple:
                    k = {'load': 'ld', 'store': 'st', 'atomicrmw': 'rmw', 'cmpxchg': 'cas'}[I.op]
                    if I.op == 'load': mm = re.search(r'load (?:atomic )?(?:volatile )?[^,]+, ptr ((?:[^,(]|\([^()]*\))+?)(?: (?:unordered|monotonic|acquire|seq_cst))?, align', l)
                    elif I.op == 'store': mm = re.search(r'store (?:atomic )?(?:volatile )?[^,]+?, ptr ((?:[^,(]|\([^()]*\))+?)(?: (?:unordered|monotonic|release|seq_cst))?, align', l)
                    else: mm = re.search(r'(?:atomicrmw|cmpxchg)[^%@(]*? ptr ((?:[^,(]|\([^()]*\))+?), ', l)
                    if mm is None: raise RuntimeError('cannot instrument ' + l)
                    nb = (I.n + 7)//8; o = ORD[I.ord]
                    if I.op == 'cmpxchg':
                        n += 1
                        post.append('  %%vphb%d = extractvalue { i%d, i1 } %s, 1' % (n, I.n, I.dst))
                        post.append('  %%vphc%d = zext i1 %%vphb%d to i32' % (n, n))
                        post.append('  call void @vp_hb_cas(ptr %s, i32 %d, i32 %d, i32 %d, i32 %%vphc%d)' % (mm.group(1), nb, o, ORD[I.tag], n))
                    else: pre.append('  call void @vp_hb_%s(ptr %s, i32 %d, i32 %d)' % (k, mm.group(1), nb, o))
                if hb and I.op == 'fence': pre.append('  call void @vp_hb_fence(i32 %d)' % ORD[I.ord])
                if pre or post:
                    d = re.search(r', !dbg !\d+', l)
                    if d: pre = [p + d.group(0) if 'call' in p else p for p in pre]; post = [p + d.group(0) if 'call' in p else p for p in post]
                    l = '\n'.join(pre + [l] + post)
                lines[I.line] = l
    t = '\n'.join(lines)
    t = re.sub(r'(define [^\n]*)@main\(', r'\1@vp_main(', t)
    t = re.sub(r'attributes #(\d+) = \{ ', r'attributes #\1 = { sanitize_address ', t)
    t += '\n'
    for d in ['declare void @vp_hb_ld(ptr, i32, i32)', 'declare void @vp_hb_st(ptr, i32, i32)', 'declare void @vp_hb_rmw(ptr, i32, i32)', 'declare void @vp_hb_cas(ptr, i32, i32, i32, i32)', 'declare void @vp_hb_fence(i32)', 'declare void @vp_hook()', 'declare void @vp_flush()', 'declare i32 @vp_weak()',
              'declare i8 @vp_ld8(ptr)', 'declare i16 @vp_ld16(ptr)', 'declare i32 @vp_ld32(ptr)', 'declare i64 @vp_ld64(ptr)', 'declare ptr @vp_ld64p(ptr)',
              'declare void @vp_st8(ptr, i8, i32)', 'declare void @vp_st16(ptr, i16, i32)', 'declare void @vp_st32(ptr, i32, i32)', 'declare void @vp_st64(ptr, i64, i32)', 'declare void @vp_st64p(ptr, ptr, i32)']:
        t += d + '\n'
    return t

def unlim():
    h = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (h, h))

CONFIRMED = {10, 11, 13, 99, -11, -8, -7, -4}

def run_native(m, tso, weak, trace, keep=None, asan=True, timeout=120, hb=0, onlylive=0):
    """(exit code, stderr tail)"""
    d = tempfile.mkdtemp(prefix='vp_replay')
    try:
        open(d + '/p.ll', 'w').write(instrument(m, tso, weak, hb)); open(d + '/t.txt', 'w').write(trace)
        rt = '#define VP_ONLYLIVE %d\n' % onlylive + open(HERE + '/vp_rt.c').read() + '\nvoid *vp_ld64p(void **p) { return (void *)vp_ld64((uint64_t *)p); }\nvoid vp_st64p(void **p, void *v, int sc) { vp_st64((uint64_t *)p, (uint64_t)v, sc); }\n'
        open(d + '/rt.c', 'w').write(rt)
        san = ['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else []
        r = subprocess.run(['clang', '-w', '-O0', '-g'] + san + [d + '/p.ll', d + '/rt.c', '-o', d + '/p', '-lpthread', '-lm'], capture_output=True)
        if r.returncode: raise RuntimeError('replay build: ' + r.stderr.decode('latin1')[:1500])
        env = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:detect_stack_use_after_return=%d:abort_on_error=0:symbolize=0' % (not tso))
        try:
            r = subprocess.run([d + '/p', d + '/t.txt'], capture_output=True, env=env, timeout=timeout, preexec_fn=unlim)
            rc, err = r.returncode, r.stderr.decode('latin1')
        except subprocess.TimeoutExpired: rc, err = 11, 'timeout'
        if keep:
            os.makedirs(keep, exist_ok=True)
            for f in ('p.ll', 't.txt', 'rt.c'): shutil.copy(d + '/' + f, keep)
        return rc, err[-1500:]
    finally: shutil.rmtree(d, ignore_errors=True)

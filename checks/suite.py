import os, sys, json, time, re
from driver import *
from cbmcjob import Cbmc
L = lambda rounds, suffix=6, **k: dict(rounds=rounds, suffix=suffix, **k)
JOBS = {}
def from_(p, *names): return [j for j in JOBS[p] if j.name in names]
JOBS['C01'] = [
    Sym('spawn2', 'spawn.c', ['-DN=2'], quick=[L(2), L(3)], need=['end', 'stolen']),
    Sym('spawn3-share', 'spawn.c', ['-DN=3', '-DSHARE'], quick=[L(2), L(3)], need=['end', 'stolen']),
    Sym('mixed', 'spawn.c', ['-DPROG=2'], quick=[L(2), L(3)], need=['end', 'stolen']),
    Sym('mixed-share', 'spawn.c', ['-DPROG=2', '-DSHARE'], quick=[L(2), L(3)], need=['end', 'stolen']),
    Sym('mixed-pre', 'spawn.c', ['-DPROG=2', '-DPRE=1'], quick=[L(2), L(3)], need=['end', 'stolen']),
    Sym('mixed-pre2', 'spawn.c', ['-DPROG=2', '-DPRE=2'], quick=[L(2), L(3)], need=['end', 'stolen']),
    Sym('spawn2-pre2-share', 'spawn.c', ['-DPRE=2', '-DSHARE'], quick=[L(2), L(3)], need=['end', 'stolen']),
    Sym('spawn3-pre3-share', 'spawn.c', ['-DN=3', '-DPRE=3', '-DSHARE'], quick=[L(2)], need=['end', 'stolen']),
    Sym('nested', 'spawn.c', ['-DPROG=3'], quick=[L(2), L(3)], need=['end', 'stolen']),
    Sym('nested-share', 'spawn.c', ['-DPROG=3', '-DSHARE'], quick=[L(2), L(3)], need=['end', 'stolen']),
    Sym('nested1-share-point', 'spawn.c', ['-DPROG=3', '-DN=1', '-DSHARE', '-DPOINT'], quick=[L(2), L(3)], need=['end', 'stolen']),
    Sym('call-share', 'spawn.c', ['-DPROG=4', '-DSHARE'], quick=[L(2), L(3)], need=['end', 'stolen']),
    Sym('spawn2-share-tso', 'spawn.c', ['-DN=2', '-DSHARE'], quick=[L(2, tso=2), L(3, tso=2)], need=['end', 'stolen']),
    Sym('spawn3-share-tso', 'spawn.c', ['-DN=3', '-DSHARE'], quick=[L(2, tso=2)], need=['end', 'stolen']),
    Sym('parts', 'spawn.c', ['-DPROG=5'], quick=[L(2), L(3)], need=['end', 'stolen']),
    Sym('chain-share', 'spawn.c', ['-DPROG=6', '-DN=1', '-DSHARE'], quick=[L(2), L(3)], thorough=[L(2), L(3), L(4)], need=['end', 'stolen', 'leap', 'leapspawn']),
    Sym('chain', 'spawn.c', ['-DPROG=6', '-DN=1'], quick=[L(2)], thorough=[L(2), L(3), L(4)], need=['end', 'stolen']),
    Sym('hold-share', 'spawn.c', ['-DPROG=7', '-DSHARE'], quick=[L(2), L(3)], thorough=[L(2), L(3), L(4)], need=['end', 'stolen', 'leap']),
    Sym('hold', 'spawn.c', ['-DPROG=7'], quick=[L(2), L(3)], thorough=[L(2), L(3), L(4)], need=['end', 'stolen']),
    Sym('chain2-share', 'spawn.c', ['-DPROG=6', '-DN=2', '-DSHARE'], quick=[], thorough=[L(2), L(3)], need=['end', 'stolen']),
]
JOBS['C04'] = [Sym('drop%d%s%s' % (p, s, q), 'drop.c', ['-DPROG=%d' % p] + (['-DSHARE'] if s else []) + (['-DPRE=1'] if q else []), quick=[L(2), L(3)] + ([L(4)] if s else [])) for p in range(1, 6) for s in ('', '-share') for q in ('', '-pre')]
JOBS['C04'] += [Sym('drop%d-share-tso' % p, 'drop.c', ['-DPROG=%d' % p, '-DSHARE'], quick=[L(2, tso=2)]) for p in range(1, 6)] + [Sym('drop%d-share-3w' % p, 'drop.c', ['-DPROG=%d' % p, '-DSHARE', '-DW=3'], threads=[1, 2, 3], quick=[L(2)]) for p in (1, 2, 3, 5)]
JOBS['C05'] = [
    Sym('over2', 'overflow.c', ['-DDQ=2'], quick=[L(2), L(3)], need=['exit'], live=False),
    Sym('over1', 'overflow.c', ['-DDQ=1', '-DNSP=2'], quick=[L(2), L(3)], need=['exit'], live=False),
    Sym('fit2', 'overflow.c', ['-DDQ=2', '-DNSP=2'], quick=[L(2), L(3)], need=['end']),
    Sym('fit1', 'overflow.c', ['-DDQ=1', '-DNSP=1'], quick=[L(2), L(3)], need=['end']),
] + [Sym('inner%d-dq%d-%s' % (k, dq, 'over' if ov else 'fit'), 'overflow.c', ['-DDQ=%d' % dq, '-DNSP=%d' % (dq if ov or dq < 2 else dq - 1), '-DEXTRA=%d' % (1 if ov or dq > 1 else 0), '-DINNER=%d' % k],
         quick=[L(2)] if k < 4 else [L(2)], need=['exit'] if ov else ['inner', 'end'], live=not ov)
     for k in (1, 2, 3, 4, 5) for dq in (1, 2, 3, 4, 5) for ov in (0, 1)] + [
    Sym('fit3', 'overflow.c', ['-DDQ=3', '-DNSP=3', '-DSHARE'], quick=[L(2), L(3)], need=['end']),
]
JOBS['C08'] = [
    Sym('bar2x2', 'barrier.c', ['-DW=2', '-DK=2', '-DHBK_=9'], quick=[L(3), L(4), L(5)]),
    Sym('bar2x3', 'barrier.c', ['-DW=2', '-DK=3', '-DHBK_=9'], quick=[L(3), L(4), L(5)]),
    Sym('bar3x2', 'barrier.c', ['-DW=3', '-DK=2', '-DHBK_=9'], threads=[1, 2, 3], quick=[L(3), L(4)]),
    Sym('bar2x2hb', 'barrier.c', ['-DW=2', '-DK=2', '-DHBK_=0'], quick=[L(3, hb=2), L(4, hb=2)]),
    Sym('bar2x2tso', 'barrier.c', ['-DW=2', '-DK=2', '-DHBK_=9'], quick=[L(3, tso=2)]),
]
JOBS['C03'] = [
    Sym('hb', 'hb.c', [], quick=[L(2, hb=2), L(3, hb=2), L(4, hb=2)], live=False, need=['end', 'stolen']),
    Sym('hb-share', 'hb.c', ['-DNX=1', '-DSHARE2'], quick=[L(2, hb=2), L(3, hb=2), L(4, hb=2)], live=False, need=['end', 'stolen']),
    Sym('hb-pre', 'hb.c', ['-DPRE'], quick=[L(2, hb=2), L(3, hb=2), L(4, hb=2)], live=False, need=['end', 'stolen']),
    Sym('hb-pre-more', 'hb.c', ['-DPRE', '-DNX=1'], quick=[L(2, hb=2), L(3, hb=2), L(4, hb=2)], live=False, need=['end']),
    Sym('hb-sync-grow', 'hb.c', ['-DNX=1', '-DSHARE', '-DLAST'], quick=[L(2, hb=2), L(3, hb=2), L(4, hb=2)], live=False, need=['end', 'stolen']),
    Sym('hb-pre-sync-grow', 'hb.c', ['-DNX=1', '-DPRE', '-DLAST'], quick=[L(2, hb=2), L(3, hb=2)], live=False, need=['end', 'stolen']),
]
JOBS['C09'] = [
    Sym('tog-out', 'frames.c', ['-DPROG=1', '-DSUB=0'], threads=[0, 1, 2], quick=[L(1), L(2), L(3)], need=['end', 'frame']),
    Sym('tog-out-sub', 'frames.c', ['-DPROG=1', '-DSUB=1'], quick=[L(2), L(3)], opts=dict(pre=[0]), need=['end', 'frame']),
    Sym('tog-in', 'frames.c', ['-DPROG=2', '-DNOLD=1', '-DSUB=0'], quick=[L(2), L(3), L(4)], need=['end', 'frame']),
    Sym('tog-in-sub', 'frames.c', ['-DPROG=2', '-DNOLD=1', '-DSUB=1', '-DSHARE'], quick=[L(2), L(3)], need=['end', 'frame']),
    Sym('tog-in2-after', 'frames.c', ['-DPROG=2', '-DNOLD=2', '-DSUB=0', '-DSHARE', '-DAFTER', '-DPOINT'], quick=[L(2), L(3)], need=['end', 'frame']),
    Sym('tog-tog', 'frames.c', ['-DPROG=5', '-DSUB=0', '-DHALF'], quick=[L(2), L(3), L(4)], need=['end', 'frame']),
    Sym('tog-spin', 'frames.c', ['-DPROG=7', '-DSUB=0', '-DREQ1=1'], quick=[L(2)], thorough=[L(2), L(3)], need=['end', 'frame']),
    Sym('tog-yield', 'frames.c', ['-DPROG=7', '-DSUB=0', '-DREQ1=1', '-DYIELD'], quick=[L(2), L(4)], need=['end', 'frame']),
    Sym('tog-weak', 'frames.c', ['-DPROG=1', '-DSUB=0'], quick=[L(2, weak=1)], opts=dict(pre=[0]), need=['end', 'frame']),
    Sym('tog-in-weak', 'frames.c', ['-DPROG=2', '-DNOLD=1', '-DSUB=0'], quick=[L(2, weak=1)], need=['end', 'frame']),
    Sym('tog-3w', 'frames.c', ['-DPROG=1', '-DSUB=0', '-DW=3'], threads=[1, 2, 3], quick=[L(2)], opts=dict(pre=[0]), need=['end', 'frame']),
]
JOBS['C10'] = [
    Sym('nf-out', 'frames.c', ['-DPROG=4', '-DSUB=1'], threads=[0, 1, 2], quick=[L(1), L(2)], need=['end', 'frame']),
    Sym('nf-in', 'frames.c', ['-DPROG=3', '-DNOLD=1', '-DSUB=0'], quick=[L(2), L(3), L(4)], need=['end', 'frame']),
    Sym('nf-in-sub', 'frames.c', ['-DPROG=3', '-DNOLD=2', '-DSUB=1', '-DSHARE'], quick=[L(2), L(3)], need=['end', 'frame']),
    Sym('nf-in2-after', 'frames.c', ['-DPROG=3', '-DNOLD=2', '-DSUB=0', '-DSHARE', '-DAFTER', '-DPOINT'], quick=[L(2), L(3)], need=['end', 'frame']),
    Sym('nf-thief', 'frames.c', ['-DPROG=6', '-DNOLD=2', '-DSUB=0', '-DSHARE', '-DREQ1=2'], quick=[L(2), L(3)], need=['end', 'frame']),
    Sym('nf-thief3', 'frames.c', ['-DPROG=6', '-DNOLD=3', '-DSUB=0', '-DSHARE', '-DREQ1=2', '-DAFTER'], quick=[L(2), L(3)], need=['end', 'frame']),
    Sym('nf-nf', 'frames.c', ['-DPROG=5', '-DSUB=0', '-DREQ1=2', '-DREQ2=2'], quick=[L(2), L(3)], need=['end', 'frame']),
    Sym('nf-tog', 'frames.c', ['-DPROG=5', '-DSUB=0', '-DREQ1=1', '-DREQ2=2', '-DHALF'], quick=[L(2), L(3)], need=['end', 'frame']),
    Sym('tog-nf', 'frames.c', ['-DPROG=5', '-DSUB=0', '-DREQ1=2', '-DREQ2=1', '-DHALF'], quick=[L(2), L(3)], need=['end', 'frame']),
    Sym('nf-spin', 'frames.c', ['-DPROG=7', '-DSUB=0', '-DREQ1=2'], quick=[L(2), L(3)], need=['end', 'frame']),
    Sym('nf-yield', 'frames.c', ['-DPROG=7', '-DSUB=0', '-DREQ1=2', '-DYIELD'], quick=[L(2), L(4)], need=['end', 'frame']),
    Sym('nf-weak', 'frames.c', ['-DPROG=4', '-DSUB=0'], quick=[L(2, weak=1)], opts=dict(pre=[0]), need=['end', 'frame']),
    Sym('nf-3w', 'frames.c', ['-DPROG=4', '-DSUB=1', '-DW=3', '-DSHARE'], threads=[1, 2, 3], quick=[L(2)], opts=dict(pre=[0]), need=['end', 'frame']),
]
def E(name, flags, R, th, **k):
    lv = [L(r, threads=th) for r in R]
    return Sym(name, 'ext.c', flags, threads=th, quick=lv, **k)
JOBS['C11'] = [
    E('run-run', [], (2, 3), [0, 1, 2]),
    E('run-run-w2', ['-DW=2'], (2, 3), [0, 1, 2, 3]),
    E('run-twice', ['-DCALL0=5', '-DCALL1=1'], (2, 3), [0, 1, 2]),
    E('run-susp', ['-DSUSP', '-DCALL1=0'], (2, 3), [0, 1]),
    E('run-run-susp', ['-DSUSP'], (2, 3), [0, 1, 2]),
    E('run-eintr', ['-DCALL1=0', '-DVP_EINTR=2'], (2, 3), [0, 1]),
    E('run-susp-eintr', ['-DSUSP', '-DCALL1=0', '-DVP_EINTR=2'], (2, 3), [0, 1]),
    E('run-inner', ['-DINNER', '-DCALL1=0'], (2, 3), [0, 1]),
    E('run-inner-tasks', ['-DINNER=2', '-DSUB', '-DCALL1=0'], (2, 3), [0, 1]),
    E('run-inner-shared', ['-DINNER=2', '-DSUB', '-DCALL1=0', '-DHSHARE', '-DW=2'], (2,), [0, 1, 2]),
    E('runex-inner-tasks', ['-DINNER=3', '-DSUB', '-DCALL1=1'], (2,), [0, 1, 2]),
    E('run-holder', ['-DCALL0=6', '-DCALL1=1', '-DSUB'], (2, 3), [0, 1, 2]),
    E('run-holder-share', ['-DCALL0=6', '-DCALL1=1', '-DSUB', '-DHSHARE', '-DW=2'], (2,), [0, 1, 2, 3]),
    E('run-3', ['-DCALL2=1'], (2,), [0, 1, 2, 3]),
]
JOBS['C12'] = [
    E('ex-run', ['-DCALL0=2', '-DCALL1=1'], (2, 3, 4), [0, 1, 2]),
    E('ex-ex', ['-DCALL0=2', '-DCALL1=2'], (2, 3, 4), [0, 1, 2]),
    E('ex-run-w2', ['-DW=2', '-DCALL0=2', '-DCALL1=1'], (2, 3), [0, 1, 2, 3]),
    E('ex-ex-w2', ['-DW=2', '-DCALL0=2', '-DCALL1=2'], (2, 3), [0, 1, 2, 3]),
    E('ex-twice', ['-DCALL0=5', '-DCALL1=2', '-DW=2'], (2, 3), [0, 1, 2, 3]),
    E('ex-run-run', ['-DCALL0=2', '-DCALL1=1', '-DCALL2=1'], (2, 3), [0, 1, 2, 3]),
    E('ex-ex-run-w2', ['-DCALL0=2', '-DCALL1=2', '-DCALL2=1', '-DW=2'], (2,), [0, 1, 2, 3, 4]),
    E('ex-run-spurious', ['-DCALL0=2', '-DCALL1=1', '-DVP_SPURIOUS=1', '-DVP_EINTR=1', '-DW=2'], (2, 3), [0, 1, 2, 3]),
    E('ex-susp', ['-DSUSP', '-DCALL0=2', '-DCALL1=1'], (2, 3), [0, 1, 2]),
]
def LF(name, flags, R, th, **k): return Sym(name, 'life.c', flags, threads=th, quick=[L(r, threads=th, sufthreads=th) for r in R], **k)
JOBS['C13'] = [
    LF('susp-run', ['-DPROG=3'], (1, 2, 3), [0, 1, 2], need=['end', 'asleep', 'awake']),
    LF('nest', ['-DPROG=4'], (1, 2, 3), [0, 1, 2], need=['end', 'asleep', 'awake']),
    LF('two-rs', ['-DPROG=5', '-DOTHER=1', '-DW=1'], (1, 2, 3), [0, 1, 2], need=['end', 'asleep', 'awake']),
    LF('two-sr', ['-DPROG=5', '-DOTHER=3', '-DW=1'], (1, 2, 3), [0, 1, 2], need=['end', 'asleep', 'awake']),
    LF('two-run', ['-DPROG=5', '-DOTHER=2', '-DW=1', '-DDORUN'], (1, 2, 3), [0, 1, 2], need=['end', 'asleep', 'awake']),
    LF('two-run-w2', ['-DPROG=5', '-DOTHER=2', '-DW=2'], (1, 2), [0, 1, 2, 3], need=['end', 'asleep', 'awake']),
    LF('twice', ['-DPROG=7'], (1, 2, 3), [0, 1, 2], need=['end', 'asleep', 'awake']),
    LF('susp-eintr', ['-DPROG=3', '-DVP_EINTR=2', '-DW=1'], (1, 2, 3), [0, 1], need=['end', 'asleep', 'awake']),
    LF('start-susp', ['-DPROG=6'], (1, 2, 3), [0, 1, 2], need=['end', 'asleep']),
]
def deeper(jobs, n=1):
    """one more round in the quick levels, two in the thorough ones"""
    for k in jobs:
        t = k.quick[-1]
        k.thorough = list(k.thorough) + [dict(t, rounds=t['rounds'] + 1), dict(t, rounds=t['rounds'] + 2)]
        k.quick = list(k.quick) + [dict(t, rounds=t['rounds'] + i + 1) for i in range(n)]
JOBS['C14'] = [
    LF('restart', ['-DPROG=1', '-DDORUN', '-DW=2', '-DW2=1'], (1, 2, 3), [0, 1, 2, 3]),
    LF('restart-more', ['-DPROG=1', '-DW=1', '-DW2=2', '-DDQ=3', '-DDQ2=1'], (1, 2, 3), [0, 1, 2, 3]),
    LF('stop-now', ['-DPROG=1', '-DW=2', '-DW2=1'], (1, 2, 3), [0, 1, 2, 3]),
    LF('restart-mmap', ['-DPROG=1', '-DDORUN', '-DW=1', '-DW2=1'], (1, 2), [0, 1, 2], cfg=('LACE_USE_MMAP',)),
    LF('stop-susp', ['-DPROG=2'], (1, 2, 3), [0, 1, 2]),
    LF('stop-asleep', ['-DPROG=2', '-DASLEEP'], (1, 2, 3), [0, 1, 2]),
    LF('ncpu', ['-DPROG=1', '-DW=0', '-DVP_NCPU=2', '-DW2=1'], (1, 2), [0, 1, 2, 3]),
]
def ID(name, flags, R, th, **k): return Sym(name, 'ident.c', flags, threads=th, quick=[L(r, threads=th, sufthreads=th) for r in R], **k)
JOBS['C22'] = [
    ID('two', ['-DSHARE'], (1, 2, 3), [0, 1, 2], need=['end', 'leaf']),
    ID('two-tog', ['-DTOG'], (1, 2), [0, 1, 2], need=['end', 'leaf']),
    ID('one', ['-DW=1', '-DTOG'], (1, 2, 3), [0, 1], need=['end', 'leaf']),
    ID('three-tog', ['-DTOG', '-DW=3', '-DSHARE'], (1,), [0, 1, 2, 3], need=['end', 'leaf']),
    ID('ncpu', ['-DTOG', '-DW=0', '-DVP_NCPU=3'], (1,), [0, 1, 2, 3], need=['end', 'leaf']),
    ID('restart', ['-DSHARE', '-DAGAIN', '-DW=1', '-DW2=2'], (1, 2, 3), [0, 1, 2, 3], need=['end', 'leaf']),
    ID('restart-less', ['-DTOG', '-DAGAIN', '-DW=2', '-DW2=1'], (1, 2), [0, 1, 2, 3], need=['end', 'leaf']),
]
JOBS['C08'] += [LF('bar-stop', ['-DPROG=8', '-DUSERBAR'], (2, 3), [1, 2]), LF('tog-stop', ['-DPROG=8'], (2, 3), [1, 2])]
for k_ in JOBS['C08'][-2:]:
    for lv_ in k_.quick + k_.thorough: lv_['sufthreads'] = [1, 2, 0]
JOBS['C22'] += [ID('restart-ncpu', ['-DTOG', '-DAGAIN', '-DW=1', '-DW2=0', '-DVP_NCPU=2'], (1, 2), [0, 1, 2, 3], need=['end', 'leaf'])]
JOBS['C14'] += [LF('restart-ncpu', ['-DPROG=1', '-DW=1', '-DW2=0', '-DVP_NCPU=2'], (1, 2), [0, 1, 2, 3])]
JOBS['C18'] = [Sym('owner%s%s' % (''.join('-s' + x[-1] if x[-1] != 'E' else '-s1' for x in sh), '-drop' if d else ''), 'solo.c', ['-DPROG=1'] + ['-D' + x for x in sh] + (['-DDROPS'] if d else []),
                   quick=[L(2, sufthreads=[1]), L(3, sufthreads=[1])], live='alone', need=['alone'])
               for sh in ((), ('SHARE',), ('SHARE2',), ('SHARE', 'SHARE3')) for d in (0, 1)]
JOBS['C18'] += [Sym('thief%s%s' % (''.join('-s' + x[-1] if x[-1] != 'E' else '-s1' for x in sh), '-drop' if d else ''), 'solo.c', ['-DPROG=2'] + ['-D' + x for x in sh] + (['-DDROPS'] if d else []),
                    quick=[L(2, sufthreads=[2]), L(3, sufthreads=[2])], live='alone', need=['alone'])
                for sh in ((), ('SHARE',), ('SHARE', 'SHARE2')) for d in (0, 1)]
INV = ['@n_workers', '@workers', '@workers_p', '@workers_memory', '@verbosity', '@default_dqsize', '@stacksize', '@workers_memory_size', '@vp_cas']
def S3(name, flags, R, **k): return Sym(name, 'solo.c', flags, quick=[L(r) for r in R], need=['end'], **k)
JOBS['C18'] += [S3('retry', ['-DPROG=3'], (3, 4), opts=dict(invisible=INV)), S3('retry-takeback', ['-DPROG=3', '-DTAKEBACK'], (3, 4), opts=dict(invisible=INV)),
                S3('retry-owner', ['-DPROG=4'], (2, 3), opts=dict(invisible=INV)), S3('retry-owner-drop', ['-DPROG=4', '-DDROPS'], (2, 3), opts=dict(invisible=INV)),
                S3('present', ['-DPROG=5'], (2, 3)), S3('present-share', ['-DPROG=5', '-DSHARE'], (2, 3)), S3('present-priv', ['-DPROG=5', '-DPRIV'], (2, 3)), S3('present-all', ['-DPROG=5', '-DPRIV', '-DNOSP'], (2, 3)), S3('present-share-priv', ['-DPROG=5', '-DSHARE', '-DPRIV'], (2, 3))]
def share(nx, k, sh, tr, em):
    served = nx == 2 or (tr >= sh and (nx == 0 and (k > sh or k == 0) or nx == 1 and k - sh >= 2))
    return Sym('next%d-k%d-sh%d-t%d%s' % (nx, k, sh, tr, '-e' if em else ''), 'share.c', ['-DNEXT=%d' % nx, '-DK=%d' % k, '-DSH=%d' % sh, '-DTRIES=%d' % tr] + (['-DEMPTY'] if em else []),
               quick=[L(2)] if tr == 0 else [L(2), L(3)], need=['end', 'served'] if served else ['end'])
JOBS['C19'] = [share(nx, k, sh, tr, em) for nx, k in ((0, 0), (0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3))
               for sh in range(0, min(k, 2) + 1) for tr in sorted({sh, sh + 1}) for em in (0, 1) if not (em and (tr != sh + 1 or sh == 0))]
JOBS['C19'] += [Sym('frame%d%s-next%d' % (f, '-tog' if t else '', nx), 'share.c', ['-DNEXT=%d' % nx, '-DK=2', '-DSH=0', '-DTRIES=0', '-DFRAME=%d' % f] + (['-DTOG'] if t else []), quick=[L(2)], need=['end']) for f in (1, 2, 3) for t in (0, 1) for nx in (0, 1, 2)]
OPS = {1: 'call', 2: 'sync-own', 3: 'sync-slow', 4: 'sync-stolen', 5: 'run', 6: 'runex', 7: 'newframe', 8: 'together'}
JOBS['C06'] = [Cbmc('%s-%s%s' % (OPS[op], 'lace14' if ver == 14 else 'lace', '-mixed' if mixed else ''), 'c06.c', ['-DOP=%d' % op, '-DLO=0', '-DHI=14'] + (['-DMIXED'] if mixed else []), ver=ver, quick=[dict(unwind=17)])
               for ver in (14, 6) for mixed in (False, True) for op in sorted(OPS)]
JOBS['C06'] += [Cbmc('big-%s' % ('lace14' if ver == 14 else 'lace'), 'c06b.c', [], ver=ver, quick=[dict(unwind=17)]) for ver in (14, 6)]
JOBS['C06'] += [Cbmc('mixed-spawns-%d' % r, 'c06.c', ['-DOP=9', '-DLO=%d' % r, '-DHI=%d' % r], ver=14, quick=[dict(unwind=17)]) for r in (13, 14)]
TP = lambda name, prog, th, R=(1, 2), *fl: Sym('all-' + name, 'transport.c', ['-DPROG=%d' % prog] + list(fl), threads=th, quick=[L(r, threads=th, sufthreads=[0] + [t for t in th if t]) for r in R])
JOBS['C06'] += [TP('run', 1, [0, 1, 2]), TP('runex', 2, [0, 1, 2]), TP('newframe', 3, [0, 1, 2]), TP('together', 4, [0, 1, 2], (1,)), TP('spawn', 5, [1, 2], (2, 3), '-DSHARE').but(need=('end', 'stolen')), TP('spawn-demand', 5, [1, 2], (2, 3)).but(need=('end', 'stolen')),
    TP('newframe-in', 6, [1, 2]), TP('together-in', 7, [1, 2], (1,)), TP('run-in', 8, [1, 2])]
HEADQ = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 34); HEADT = (20, 28, 40, 48, 63, 64, 65)
JOBS['C07'] = [Cbmc('head-%d%s' % (n, '-lace14' if v == 14 else ''), 'gethead.c', ['-DN=%d' % n], ver=v, quick=[dict(unwind=n + 2, tmo=900)] if n in HEADQ else [], thorough=[dict(unwind=n + 2, tmo=1500)])
               for v in (6, 14) for n in HEADQ + HEADT if v == 6 or n in (1, 3, 5, 9, 17)]
JOBS['C07'] += from_('C05', *['inner%d-dq%d-fit' % (k, dq) for k in (1, 2, 3, 4, 5) for dq in (1, 2, 3, 4, 5)])
COUNTALL = ('LACE_COUNT_TASKS', 'LACE_COUNT_STEALS', 'LACE_COUNT_SPLITS')
JOBS['C15'] = [Cbmc('sizes%s%s%s' % ('-again' if ag else '', '-lace14' if v == 14 else '', c[0]), 'sizes.c', ['-DMAXW=20'] + (['-DAGAIN'] if ag else []), ver=v, cfg=c[1], checks=(), quick=[dict(unwind=24)], unwindset=['my_memset.0:260'])
               for v in (6, 14) for ag in (0, 1) for c in (('', ()), ('-mmap', ('LACE_USE_MMAP',)), ('-count', COUNTALL), ('-pie', ('LACE_PIE_TIMES',)))]

JOBS['C22'] += [Cbmc('ids%s%s' % ('-again' if ag else '', '-lace14' if v == 14 else ''), 'sizes.c', ['-DMAXW=%d' % (20 if ag else 600)] + (['-DAGAIN'] if ag else []), ver=v, checks=(), quick=[dict(unwind=24 if ag else 608)], unwindset=['my_memset.0:260'])
               for v in (6, 14) for ag in (0, 1)]
TL = lambda n: '-DTLIST=' + ' '.join('T(%d,%d)' % (a, b) for a in range(n) for b in range(n) if a != b)
JOBS['C16'] = [Cbmc('random-%d%s' % (n, '-lace14' if v == 14 else ''), 'victim.c', ['-DMODE=1', '-DNW=%d' % n, '-DRESULTS=2'] + ([TL(n)] if 1 < n <= 8 else []), ver=v, quick=[dict(unwind=n + 10)] if n <= 33 else [], thorough=[dict(unwind=n + 10)], expect='TARGET' if 1 < n <= 8 else None)
               for v in (6, 14) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 33, 64, 65, 128)]
JOBS['C16'] += [Cbmc('idle-%d%s' % (n, '-lace14' if v == 14 else ''), 'victim.c', ['-DMODE=2', '-DNW=%d' % n, '-DSTEPS=%d' % st], ver=v, quick=[dict(unwind=st + 10, tmo=600)] if n <= 5 else [], thorough=[dict(unwind=st + 10, tmo=1500)])
                for v in (6, 14) for n, st in ((2, 60), (3, 80), (4, 100), (5, 100), (6, 120), (8, 140))]
CS = ('LACE_COUNT_TASKS', 'LACE_COUNT_STEALS', 'LACE_COUNT_SPLITS')
def CT(name, flags, R, th=(1, 2), **k):
    th = list(th); k.setdefault('cfg', CS)
    return Sym(name, 'count.c', flags, threads=th, quick=[L(r, threads=th, sufthreads=th if 0 in th else [0] + th) for r in R], **k)
JOBS['C20'] = [
    CT('leaves', ['-DPROG=1', '-DSHARE'], (2, 3), need=['end', 'steal']),
    CT('nested', ['-DPROG=2', '-DSHARE'], (2, 3), need=['end', 'steal']),
    CT('nested-leap', ['-DPROG=2', '-DSHARE', '-DSHARE2'], (2, 3), need=['end', 'steal']),
    CT('random', ['-DPROG=8', '-DSHARE'], (2, 3), need=['end', 'leafsteal']),
    CT('random-3', ['-DPROG=8', '-DSHARE', '-DN=3'], (2,), need=['end', 'leafsteal']),
    CT('random-demand', ['-DPROG=8'], (2, 3), need=['end', 'leafsteal']),
    CT('drop', ['-DPROG=3', '-DN=3', '-DSHARE'], (2, 3), need=['end', 'steal']),
    CT('reset', ['-DPROG=4', '-DSHARE'], (2, 3), need=['end', 'steal']),
    CT('restart', ['-DPROG=5', '-DSHARE', '-DN=1', '-DW2=1'], (2, 3), [1, 2, 3], need=['end', 'steal']),
    CT('early', ['-DPROG=7', '-DN=1', '-DSHARE', '-DNOSYM'], (1, 2, 3), [0, 1, 2]),
    CT('early-one', ['-DPROG=7', '-DN=1', '-DW=1', '-DNOSYM'], (1, 2, 3), [0, 1]),
    CT('newframe', ['-DPROG=6', '-DSHARE', '-DN=1'], (2, 3), need=['end', 'steal']),
    CT('together', ['-DPROG=6', '-DSHARE', '-DN=1', '-DTOG'], (2, 3), need=['end', 'steal']),
]
def PT(name, flags, R, th=(1, 2), **k):
    th = list(th)
    return Sym(name, 'pie.c', flags, threads=th, cfg=('LACE_PIE_TIMES',), quick=[L(r, threads=th) for r in R], **k)
JOBS['C21'] = [
    PT('leaves', ['-DPROG=1', '-DSHARE'], (2, 3), need=['end', 'steal']),
    PT('nested', ['-DPROG=2', '-DSHARE'], (2, 3), need=['end', 'steal']),
    PT('nested-leap', ['-DPROG=2', '-DSHARE', '-DSHARE2'], (2, 3), need=['end', 'steal', 'leap']),
    PT('newframe', ['-DPROG=3'], (1, 2, 3), need=['end', 'steal']),
    PT('together', ['-DPROG=5'], (1, 2, 3), need=['end', 'steal']),
    PT('suspend', ['-DPROG=4', '-DSHARE', '-DN=1'], (2, 3), need=['end', 'steal']),
    PT('exit', ['-DPROG=1', '-DSHARE', '-DN=1', '-DSTOP'], (1, 2), (0, 1, 2), need=['end', 'exit']),
    PT('exit-leap', ['-DPROG=2', '-DSHARE', '-DSTOP'], (2,), need=['end', 'exit']),
]
def RP(name, mode, n, cfg, ver): return Cbmc('%s%s' % (name, '-lace14' if ver == 14 else ''), 'report.c', ['-DMODE=%d' % mode, '-DNW=%d' % n, '-DPIE=%d' % ('LACE_PIE_TIMES' in cfg)], cfg=cfg, ver=ver, quick=[dict(unwind=34)], unwindset=['vp_fmt.0:130', 'vp_fmt.1:130', 'vp_str.0:60', 'vp_is.0:60'])
for v in (6, 14):
    for n in (1, 2, 3):
        JOBS['C20'] += [RP('report-%d' % n, 1, n, CS, v), RP('zero-%d' % n, 2, n, CS, v)]
        JOBS['C21'] += [RP('report-%d' % n, 1, n, ('LACE_PIE_TIMES',), v), RP('reset-report-%d' % n, 2, n, ('LACE_PIE_TIMES',), v)]
    for nm, c in (('t', CS[:1]), ('s', CS[1:2]), ('p', CS[2:]), ('ts', CS[:2])): JOBS['C20'].append(RP('report-only-' + nm, 1, 2, c, v))
    JOBS['C20'].append(RP('zero-all', 2, 2, CS + ('LACE_PIE_TIMES',), v)); JOBS['C21'].append(RP('event', 3, 1, ('LACE_PIE_TIMES',), v)); JOBS['C21'] += [RP('times-%d' % n, 4, n, ('LACE_PIE_TIMES',), v) for n in (1, 2)]
def TR(name, flags, R, th=(1, 2), deep=(), **k):
    th = list(th); lv = lambda rs: [L(r, threads=th, sufthreads=th + [0], pre=[0]) for r in rs]
    return Sym(name, 'tree.c', flags, threads=th, quick=lv(R), thorough=lv(tuple(R) + tuple(deep)), need=['end', 'stolen'], **k)
JOBS['C02'] = [
    TR('d1', ['-DDEPTH=1', '-DSHARE'], (2, 3), deep=(4,)),
    TR('d2', ['-DDEPTH=2'], (2,), deep=(3,)),
    TR('d2-share', ['-DDEPTH=2', '-DSHARE'], (2,), deep=(3,)),
    TR('d2-two', ['-DDEPTH=2', '-DPROG=2'], (2,), deep=(3,)),
    TR('d2-two-share', ['-DDEPTH=2', '-DPROG=2', '-DSHARE'], (), deep=(2, 3)),
    TR('d1-three', ['-DDEPTH=1', '-DPROG=3', '-DSHARE'], (2,), deep=(3,)),
    TR('d3-share', ['-DDEPTH=3', '-DSHARE'], (), deep=(2,)),
    TR('d2-share-3w', ['-DDEPTH=2', '-DSHARE', '-DW=3'], (), (1, 2, 3), deep=(2,)),
    TR('d1-share-3w', ['-DDEPTH=1', '-DSHARE', '-DW=3'], (1,), (1, 2, 3), deep=(2,)),
] + from_('C01', 'nested', 'nested-share', 'nested1-share-point', 'call-share', 'mixed-pre2', 'chain-share', 'chain', 'hold-share', 'hold')
def alive(p, *names, levels=None, more=()):
    out = []
    for j in from_(p, *names):
        k = j.but(name='%s-%s' % (p, j.name), live=True, quick=(j.quick[:levels] if levels else j.quick), need=('end',)); k.thorough = k.quick + list(more); k.opts['onlylive'] = 1
        out.append(k)
    assert len(out) == len(names), (p, names)
    return out
JOBS['C17'] = alive('C01', 'spawn3-share', 'mixed-share', 'nested-share', 'parts', 'chain-share', 'hold-share') + alive('C02', 'd2-share', 'd1') + alive('C04', 'drop3-share', 'drop5-share-pre') + \
    alive('C08', 'bar2x3', 'bar3x2', 'bar2x2tso') + alive('C09', 'tog-in', 'tog-tog', 'tog-weak', 'tog-spin', 'tog-yield', levels=2) + alive('C10', 'nf-in', 'nf-nf', 'nf-tog', 'nf-weak', 'nf-thief', 'nf-spin', 'nf-yield', levels=1) + \
    alive('C11', 'run-run', 'run-3', 'run-eintr', 'run-holder') + alive('C12', 'ex-run-run', 'ex-run-spurious', 'ex-ex-w2') + \
    alive('C13', 'susp-run', 'nest', 'two-run', 'two-rs', 'susp-eintr') + alive('C14', 'restart', 'stop-susp', 'stop-asleep', 'ncpu')
# (after C17, which takes the shallower levels)
deeper(JOBS['C12']); deeper([k for k in JOBS['C13'] if k.name != 'nest']); deeper([k for k in JOBS['C13'] if k.name == 'nest'], 0)
def HB(name, flags, R, th=(1, 2), **k):
    th = list(th); k.setdefault('need', ['end'])
    return Sym(name, 'hb2.c', flags, threads=th, quick=[L(r, hb=4, threads=th, sufthreads=th if 0 in th else th + [0]) for r in R], live=False, **k)
JOBS['C03'] += [
    HB('run', ['-DPROG=1'], (2, 3, 4), (0, 1, 2)), HB('runex', ['-DPROG=2'], (2, 3, 4), (0, 1, 2)), HB('run-run', ['-DPROG=3', '-DW=1'], (2, 3, 4), (0, 1, 2)), HB('run-run-w2', ['-DPROG=3'], (2, 3), (0, 1, 2, 3)),
    HB('together', ['-DPROG=4'], (2, 3, 4)), HB('newframe', ['-DPROG=5'], (2, 3, 4)), HB('drop', ['-DPROG=6'], (2, 3, 4)), HB('nested', ['-DPROG=7'], (2, 3, 4), need=['end', 'back']),
] + [j.but(name='barrier-2x2') for j in from_('C08', 'bar2x2hb')]
def QU(name, flags, R=(2, 3), **k): k.setdefault('need', ['end', 'stolen', 'completed']); return Sym(name, 'query.c', flags, quick=[L(r) for r in R], **k)
JOBS['C23'] = [QU('%s%s%s' % (nm, sh, pre), ['-DPROG=%d' % pr] + (['-DSHARE'] if sh else []) + (['-DPRE=2'] if pre else []), need=['end'] if not sh else ['end', 'stolen', 'completed'])
               for pr, nm in ((1, 'many'), (2, 'sync'), (3, 'peek'), (4, 'drop')) for sh in ('', '-share') for pre in ('', '-pre')]
JOBS['C23'] += [QU('hb-many%s' % pre, ['-DPROG=1', '-DHB', '-DN=1', '-DSHARE'] + (['-DPRE=2'] if pre else []), live=False, opts=dict(hb=4)) for pre in ('', '-pre')]
JOBS['C23'] += [QU('many3-share', ['-DPROG=1', '-DN=3', '-DP=1', '-DSHARE']), QU('sync-tso', ['-DPROG=2', '-DSHARE', '-DWEAK'], R=(2,), opts=dict(tso=2)),
                QU('many-share-3w', ['-DPROG=1', '-DN=2', '-DP=1', '-DSHARE', '-DW=3'], threads=[1, 2, 3], R=(2,))]
NOTES = {}
NA = {}
BUDGET = {'quick': 200, 'thorough': 3000}
def main(argv):
    pid = argv[0]; tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    import report
    jobs = [j for j in JOBS[pid] if (j.quick if tier == 'quick' else j.thorough)]
    only = os.environ.get('VP_ONLY')
    if only: jobs = [j for j in jobs if re.search(only, j.name)]
    v, r, w = run_property(pid, jobs, tier, BUDGET[tier], verbose=bool(os.environ.get('VP_V')))
    return report.finish(pid, tier, '', jobs, v, r, w)

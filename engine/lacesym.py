"""lacesym: bounded symbolic execution of multi-threaded LLVM IR.

Every schedule decision, environment choice and store-buffer flush is a boolean
variable of one and-inverter graph; thread configurations that reach the same
location are merged, so one pass over the code encodes all schedules within the
bounds.  Values are guarded sets of concrete words.  See DESIGN.md."""
import os, sys, heapq, time, subprocess, tempfile, bisect
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from aigcore import Aig
import irparse
from irparse import M64

POISON = 0xAAAAAAAAAAAAAAAA
class EngineError(Exception): pass

class Region:
    __slots__ = ('start', 'size', 'name', 'alive', 'kind', 'priv', 'owner')
    def __init__(s, start, size, name, alive, kind, priv=False, owner=None):
        s.start = start; s.size = size; s.name = name; s.alive = alive; s.kind = kind; s.priv = priv; s.owner = owner

class Frame:
    __slots__ = ('f', 'blk', 'idx', 'it', 'regs', 'path', 'ret', 'depth', 'allocas')
    def copy(s):
        n = Frame(); n.f = s.f; n.blk = s.blk; n.idx = s.idx; n.it = s.it; n.regs = dict(s.regs); n.path = s.path
        n.ret = s.ret; n.depth = s.depth; n.allocas = s.allocas
        return n

class Cfg:
    __slots__ = ('g', 'fr', 'buf', 'atom', 'know')
    def __init__(s, g, fr): s.g = g; s.fr = fr; s.buf = (); s.atom = 0; s.know = None

def fkey(fr):
    """lexicographic position of a frame in its function"""
    pos = fr.f.pos[fr.blk]; it = fr.it
    if not it: return (pos[0], fr.idx)
    r = []
    for k, i in enumerate(it): r.append(pos[k]); r.append(i)
    r.append(pos[-1]); r.append(fr.idx)
    return tuple(r)

def cfgkey(fr):
    k = ()
    for x in fr: k += (x.f.num,) + fkey(x)
    return k

class Engine:
    def __init__(s, module, opts, fixed=None):
        s.m = module; s.o = opts; s.aig = Aig()
        s.aig.fixed = fixed; s.aig.qlimit = opts.get('qlimit', 0)
        s.mem = {}; s.cellreg = {}; s.regions = []
        s.tls = {}            # (global, tid) -> address
        s.heapnext = 0x40000000
        s.stacknext = 0x20000000
        s.allocmap = {}       # (tid, path, uid) -> list of regions
        s.pathids = {}
        s.threads = []        # tid -> list of pending cfgs {key: cfg}
        s.fin = {}            # tid -> literal: start routine returned
        s.started = {}
        s.viol = []           # (guard, kind, text)
        s.ok = 1              # assumptions
        s.dead = 0            # some violation reported
        s.cut = 0             # guard: exploration cut
        s.reach = {}
        s.ctx = 0; s.symbolic = False; s.symreq = False; s.stopping = False
        s.nfl = 0; s.nvis = 0; s.nins = 0; s.nchoice = 0
        s.trace = []; s.fnames = set()
        s.B = opts.get('B', 2); s.maxdepth = opts.get('maxdepth', 40)
        s.tso = opts.get('tso', 0)
        s.hb = int(opts.get('hb', 0))
        s.weak = opts.get('weak', 0)
        s.invis = set(opts.get('invisible', ['@n_workers', '@workers', '@workers_p', '@workers_memory', '@verbosity', '@default_dqsize', '@stacksize', '@workers_memory_size']))
        s.privstructs = opts.get('private_structs', ['%struct._WorkerP'])
        s.maxvals = opts.get('maxvals', 600)
        s.visoff = 0
        s.t0 = time.time()
        s.stats = {'contexts': 0, 'configs': 0}
        s.hb_init()
        s.lp = opts.get('lp', 2)
        s.load_module()

    # ------------------------------------------------------------ setup
    def load_module(s):
        m = s.m
        for k, f in enumerate(m.f.values()): f.num = k + 1
        s.privcells = set()
        for n, g in m.g.items():
            if g.ext:
                s.newregion(m.addrs[n], max(8, g.ty.size), n, 1, 'global'); continue
            if g.tls: continue
            r = s.newregion(m.addrs[n], g.ty.size, n, 1, 'global')
            if n.startswith(('@vp_', '@.str', '@switch.table')): r.priv = True
            if n in s.invis: r.priv = True
            b = g.cells
            for o in range(0, len(b), 8):
                s.mem[m.addrs[n] + o] = int.from_bytes(b[o:o+8].ljust(8, b'\0'), 'little')
        s.fbyaddr = {a: m.f[n] for a, n in m.fbyaddr.items() if m.f.get(n)}
        s.analyse()

    def analyse(s):
        """visibility per instruction; escape analysis for allocas"""
        m = s.m
        for f in m.f.values():
            defs = {}
            for b in f.blocks:
                for I in b.ins:
                    if I.dst: defs[I.dst] = I
            esc = set()
            def root(r, d=0):
                while r.__class__ is str:
                    I = defs.get(r)
                    if I is None: return None
                    if I.op == 'alloca': return r
                    if I.op == 'getelementptr': r = I.a; continue
                    return None
                return None
            for b in f.blocks:
                for I in b.ins + b.phis:
                    if I.op == 'phi':
                        for v in I.x.values():
                            q = root(v)
                            if q: esc.add(q)
                    elif I.op in ('load', 'getelementptr'): pass
                    elif I.op == 'store':
                        q = root(I.b)
                        if q: esc.add(q)
                    elif I.op in ('icmp',): pass
                    elif I.op == 'call':
                        for v in I.b:
                            q = root(v)
                            if q and not (isinstance(I.a, str) and (I.a.startswith('@llvm.mem'))): esc.add(q)
                    else:
                        for v in (I.a, I.b, I.c):
                            q = root(v)
                            if q: esc.add(q)
            for b in f.blocks:
                for I in b.ins:
                    if I.op == 'alloca': I.tag = I.dst not in esc      # private?
                    if I.op == 'call' and isinstance(I.a, str) and I.a.startswith('@llvm.mem'): I.memop = 1 if 'memset' in I.a else 2
                    if I.op in ('load', 'store', 'cmpxchg', 'atomicrmw'):
                        I.vis = True
                        r = I.a
                        q = root(r)
                        if q and q not in esc: I.vis = False
                        G = defs.get(r) if r.__class__ is str else None
                        # a pointer into the worker-private structure
                        if G is not None and G.op == 'getelementptr' and G.c and G.c[0] in s.privstructs: I.vis = False
                        if r.__class__ is str and s.first_field(f, defs, r): I.vis = False
                        if I.vis and f.name.startswith('@vp_'): I.vis = True
            f.localloops = set()
            for h, body in f.loopbody.items():
                if all(not (I.vis or I.op in ('call', 'fence')) for x in body for I in f.blocks[x].ins): f.localloops.add(h)
            f.countloops = set()
            if f.name in ('@vp_fmt', '@vp_str', '@vp_is', '@vp_flag'): f.localloops |= set(f.loopbody)      # harness code that only looks at text
            for h, body in f.loopbody.items():
                if s.counting(f, body, defs): f.countloops.add(h)

    def counting(s, f, body, defs):
        """every exit of the loop depends only on counters and invariants
        (such a loop cannot wait for another thread)"""
        inside = {}
        for x in body:
            for I in f.blocks[x].ins + f.blocks[x].phis:
                if I.dst: inside[I.dst] = I
        ex = 0
        inv = {s.m.addrs[n] for n in s.invis if n in s.m.addrs}
        for x in body:
            bl = f.blocks[x]; T = bl.ins[-1]
            if all(y in body for y in bl.succ): continue
            if T.op not in ('br', 'switch'): return False
            ex += 1
            todo = [T.a]; seen = set()
            while todo:
                r = todo.pop()
                if r.__class__ is not str or r in seen or r not in inside: continue
                seen.add(r); I = inside[r]
                if I.op == 'phi': todo += list(I.x.values())
                elif I.op == 'load':
                    if I.a not in inv: return False
                elif I.op in BINF or I.op in ('icmp', 'zext', 'sext', 'trunc', 'select', 'getelementptr', 'ptrtoint', 'inttoptr', 'freeze', 'bitcast'):
                    for v in (I.a, I.b, I.c):
                        todo += [v] if v.__class__ is str else (list(v) if v.__class__ in (list, tuple) else [])
                else: return False
        return ex > 0

    def first_field(s, f, defs, r):
        """field 0 of the private struct has no GEP: treat pointers that are
        elsewhere in this function used as private-struct bases as private"""
        c = getattr(f, 'privbases', None)
        if c is None:
            c = set()
            for b in f.blocks:
                for I in b.ins:
                    if I.op == 'getelementptr' and I.c and I.c[0] in s.privstructs and I.a.__class__ is str: c.add(I.a)
            f.privbases = c
        return r in c

    def newregion(s, start, size, name, alive, kind, priv=False, owner=None):
        r = Region(start, size, name, alive, kind, priv, owner)
        s.regions.append(r)
        for a in range(start & ~7, start + max(size, 1), 8): s.cellreg[a] = r
        return r

    # ------------------------------------------------------------ values
    def binop(s, f, a, b, g):
        if a.__class__ is int:
            if b.__class__ is int: return f(a, b)
            d = {}; or_ = s.aig.or_
            for h, v in b:
                r = f(a, v)
                d[r] = or_(d[r], h) if r in d else h
            return s.aig.pack(d)
        if b.__class__ is int:
            d = {}; or_ = s.aig.or_
            for h, v in a:
                r = f(v, b)
                d[r] = or_(d[r], h) if r in d else h
            return s.aig.pack(d)
        d = {}; A = s.aig; n = len(a)*len(b)
        chk = n > 6
        if chk:
            a = A.prune(g, a); b = A.prune(g, b)
            if a.__class__ is int or b.__class__ is int: return s.binop(f, a, b, g)
        for h, v in a:
            for k, w in b:
                q = A.and_(h, k)
                if q == 0: continue
                if chk and not A.feasible(A.and_(g, q)): continue
                r = f(v, w)
                d[r] = A.or_(d[r], q) if r in d else q
        if len(d) > s.maxvals: raise EngineError("value set too large")
        return A.pack(d)

    def unop(s, f, a):
        if a.__class__ is int: return f(a)
        d = {}; or_ = s.aig.or_
        for h, v in a:
            r = f(v)
            d[r] = or_(d[r], h) if r in d else h
        return s.aig.pack(d)

    # ------------------------------------------------------------ violations
    def violate(s, g, kind, text):
        g = s.aig.and_(g, s.ok)
        if g == 0: return
        if s.aig.fixed is None and not s.aig.feasible(g): return
        if not s.o.get('onlylive'): s.viol.append((g, kind, text))
        s.dead = s.aig.or_(s.dead, g)

    def where(s, c):
        out = []
        for fr in c.fr[-4:]:
            I = fr.f.blocks[fr.blk].ins[min(fr.idx, len(fr.f.blocks[fr.blk].ins)-1)]
            out.append('%s:%s' % (fr.f.name[1:], I.loc[0] if I.loc else '?'))
        return ' > '.join(out)

    # ------------------------------------------------------------ memory
    def checked(s, c, addr, nbytes, what):
        """valid entries of an address value under c.g: list of (guard, addr).
        Invalid ones are reported and removed from c.g"""
        A = s.aig
        ents = ((1, addr),) if addr.__class__ is int else addr
        if len(ents) > 1:
            ents = A.prune(c.g, ents)
            if ents.__class__ is int: ents = ((1, ents),)
        out = []; bad = 0
        for h, a in ents:
            r = s.cellreg.get(a & ~7)
            if r is None or a < r.start or a + nbytes > r.start + r.size or (a & 7) + nbytes > 8:
                gg = A.and_(c.g, h)
                if gg == 0 or not A.feasible(gg): continue
                s.violate(gg, 'memory', 'invalid %s of %d bytes at 0x%x%s [%s]' % (what, nbytes, a, (' (object %s+%d, size %d)' % (r.name, a - r.start, r.size)) if r else '', s.where(c)))
                bad = A.or_(bad, h); continue
            if r.alive != 1:
                gg = A.and_(A.and_(c.g, h), r.alive ^ 1)
                if gg and A.feasible(gg):
                    s.violate(gg, 'memory', '%s of %s after its lifetime [%s]' % (what, r.name, s.where(c)))
                    bad = A.or_(bad, A.and_(h, r.alive ^ 1))
            if s.o.get('readonly') : pass
            out.append((h, a))
        if bad:
            c.g = A.and_(c.g, bad ^ 1)
        return out

    def raw_load(s, c, addr, nbytes, what='read'):
        A = s.aig
        if addr.__class__ is int:
            r = s.cellreg.get(addr & ~7)
            if r is not None and r.alive == 1 and addr >= r.start and addr + nbytes <= r.start + r.size and (addr & 7) + nbytes <= 8:
                v = s.cell_load(c, addr, nbytes)
                if v.__class__ is not int and len(v) > s.lp: v = A.prune(c.g, v)
                return v
        ents = s.checked(c, addr, nbytes, what)
        if not ents: return POISON & ((1 << (8*nbytes)) - 1)
        if len(ents) == 1: return s.cell_load(c, ents[0][1], nbytes)
        d = {}
        for h, a in ents:
            v = s.cell_load(c, a, nbytes)
            if v.__class__ is int: d[v] = A.or_(d[v], h) if v in d else h
            else:
                for k, w in v:
                    q = A.and_(h, k)
                    if q: d[w] = A.or_(d[w], q) if w in d else q
        v = A.pack(d)
        if v.__class__ is not int and len(v) > s.lp: v = A.prune(c.g, v)
        return v

    def cell_load(s, c, a, nbytes):
        base = a & ~7
        v = s.mem.get(base, POISON)
        if c.buf: v = s.forward(c, base, v)
        if nbytes == 8: return v
        sh = (a & 7)*8; mk = (1 << (8*nbytes)) - 1
        if v.__class__ is int: return (v >> sh) & mk
        return s.unop(lambda x: (x >> sh) & mk, v)

    def forward(s, c, base, v):
        A = s.aig
        for valid, addr, mask, val in c.buf:
            if addr.__class__ is int: e = 1 if addr == base else 0
            else:
                e = 0
                for h, x in addr:
                    if x == base: e = A.or_(e, h)
            e = A.and_(e, valid)
            if e == 0: continue
            nv = val if mask == M64 else s.binop(lambda o, n: (o & ~mask) | n, v, val, A.and_(c.g, e))
            v = A.mux(e, nv, v)
        return v

    def cell_store(s, g, a, nbytes, val, gctx):
        base = a & ~7; A = s.aig
        if nbytes == 8: nv = val; old = s.mem.get(base, POISON)
        else:
            sh = (a & 7)*8; mk = ((1 << (8*nbytes)) - 1) << sh
            old = s.mem.get(base, POISON)
            if old.__class__ is int and val.__class__ is int: nv = (old & ~mk) | (val << sh)
            else:
                o2 = old
                if old.__class__ is tuple and len(old) > 1: o2 = A.prune(gctx, old)
                nv = s.binop(lambda o, n: (o & ~mk) | ((n << sh) & mk), o2, val, gctx)
        s.mem[base] = A.mux(g, nv, old)

    def raw_store(s, c, addr, nbytes, val, what='write'):
        A = s.aig
        if addr.__class__ is int:
            r = s.cellreg.get(addr & ~7)
            if r is not None and r.alive == 1 and addr >= r.start and addr + nbytes <= r.start + r.size and (addr & 7) + nbytes <= 8:
                if val.__class__ is tuple and len(val) > 8: val = A.prune(c.g, val)
                s.cell_store(c.g, addr, nbytes, val, c.g); return
        ents = s.checked(c, addr, nbytes, what)
        for h, a in ents:
            g = A.and_(c.g, h)
            v = val
            if v.__class__ is tuple: v = A.prune(g, v)
            s.cell_store(g, a, nbytes, v, g)

    # store buffer -------------------------------------------------
    def buf_store(s, c, addr, nbytes, val):
        A = s.aig
        ents = s.checked(c, addr, nbytes, 'write')
        if not ents: return
        full = True
        if len(ents) > 1 or addr.__class__ is not int:
            e2 = []
            for h, a in ents:
                if s.privaddr(a): s.cell_store(A.and_(c.g, h), a, nbytes, val, A.and_(c.g, h)); full = False
                else: e2.append((h, a))
            ents = e2
            if not ents: return
        newv = 1
        if not full:
            newv = 0
            for h, a in ents: newv = A.or_(newv, h)
        if len(c.buf) >= s.tso: nfl = s.nfl; s.flush_cond(c, lambda n: newv if n >= s.tso else 0); s.nfl = nfl
        grp = {}
        for h, a in ents: grp.setdefault((a & 7)*8, {})[a & ~7] = h
        for sh, d in grp.items():
            mask = ((1 << (8*nbytes)) - 1) << sh
            v = s.unop(lambda x: (x << sh) & mask, val)
            valid = 1
            if len(grp) > 1 or not full:
                valid = 0
                for h in d.values(): valid = A.or_(valid, h)
            c.buf = c.buf + ((valid, A.pack(d), mask, v),)

    def apply_slot(s, c, slot, g):
        valid, addr, mask, val = slot; A = s.aig
        g = A.and_(g, valid)
        if g == 0: return
        for h, a in (((1, addr),) if addr.__class__ is int else addr):
            q = A.and_(g, h)
            if q == 0 or (h != 1 and not A.feasible(q)): continue
            old = s.mem.get(a, POISON)
            if mask == M64: nv = val
            else: nv = s.binop(lambda o, n: (o & ~mask) | n, old, val, q)
            s.mem[a] = A.mux(q, nv, old)

    def flush_slots(s, c, n):
        for k in range(n): s.apply_slot(c, c.buf[k], c.g)
        c.buf = c.buf[n:]

    def ranks(s, c):
        """per slot: one-hot literals of its rank among the valid slots,
        counted from the newest (1-based)"""
        A = s.aig; cnt = {0: 1}; out = [None]*len(c.buf)
        for k in range(len(c.buf) - 1, -1, -1):
            v = c.buf[k][0]
            rk = {n + 1: A.and_(l, v) for n, l in cnt.items()}
            out[k] = {n: l for n, l in rk.items() if l}
            nc = {}
            for n, l in cnt.items():
                x = A.and_(l, v ^ 1)
                if x: nc[n] = A.or_(nc.get(n, 0), x)
            for n, l in rk.items():
                if l: nc[n] = A.or_(nc.get(n, 0), l)
            cnt = nc
        return out

    def flush_cond(s, c, F):
        """flush every valid slot of rank n under F(n); F monotone in n"""
        A = s.aig; nb = []
        for sl, rk in zip(c.buf, s.ranks(c)):
            f = 0
            for n, l in rk.items(): f = A.or_(f, A.and_(l, F(n)))
            if f == 0: nb.append(sl); continue
            s.apply_slot(c, sl, A.and_(c.g, f))
            if A.fixed is not None and f == 1 and sl[0] == 1: s.nfl += 1
            nv = A.and_(sl[0], f ^ 1)
            if nv and A.feasible(A.and_(c.g, nv)): nb.append((nv,) + sl[1:])
        c.buf = tuple(nb)

    def flush_choice(s, c, tag, vl=1):
        """nondeterministic partial flush, oldest first"""
        A = s.aig; Fs = {0: 0}
        def F(n):
            if n not in Fs: Fs[n] = A.or_(F(n-1), A.input(('flush', s.ctx, s.tid, tag, n), 0.3))
            return Fs[n]
        s.flush_cond(c, F if vl == 1 else lambda n: A.and_(F(n), vl))

    # ------------------------------------------------------------ frames
    def pathid(s, path, uid):
        k = (path, uid)
        if k not in s.pathids: s.pathids[k] = len(s.pathids) + 1
        return s.pathids[k]

    def enter(s, c, f, args, ret, uid):
        fr = Frame(); fr.f = f; fr.blk = 0; fr.idx = 0
        fr.it = (0,)*len(f.heads[0]); fr.regs = dict(zip(f.args, args)); fr.ret = ret
        fr.depth = len(c.fr); fr.allocas = ()
        fr.path = s.pathid(c.fr[-1].path if c.fr else 0, uid)
        s.fnames.add(f.name)
        c.fr = c.fr + (fr,)
        if len(c.fr) > s.maxdepth:
            s.cut = s.aig.or_(s.cut, c.g); s.cutwhy = 'depth'
            c.g = 0

    def goto(s, c, fr, tgt):
        """transfer to block tgt of the top frame; returns False if the
        iteration bound of this context is reached (config parked)"""
        src = fr.blk; f = fr.f
        d, back, depth = f.edge[(src, tgt)]
        it = fr.it
        phis = f.blocks[tgt].phis
        if phis:
            vals = []
            for p in phis:
                v = p.x[src]
                vals.append(fr.regs[v] if v.__class__ is str else v)
            for p, v in zip(phis, vals): fr.regs[p.dst] = v
        if back:
            it = it[:d-1] + (it[d-1] + 1,)
            lim = 400 if tgt in f.localloops else 64 if tgt in f.countloops else s.B
            over = it[-1] >= lim
        else:
            it = it[:d] + (0,)*(depth - d); over = False
        fr.it = it; fr.blk = tgt; fr.idx = 0
        if over:
            if tgt in f.localloops: raise EngineError('local loop bound in %s' % f.name)
            return False
        return True

    def park(s, c):
        """keep configuration for the next context of this thread"""
        if c.g == 0: return
        fr2 = []
        for x in c.fr:
            if any(x.it):
                x = x.copy(); x.it = (0,)*len(x.it)
            fr2.append(x)
        c.fr = tuple(fr2)
        key = cfgkey(c.fr)
        q = s.next.get(key)
        if q is None: s.next[key] = c
        else: s.next[key] = s.merge(q, c)

    def merge(s, p, q):
        A = s.aig
        if p.g == 0: return q
        if q.g == 0: return p
        gp, gq = p.g, q.g
        fr = []
        last = len(p.fr) - 1
        for k, (x, y) in enumerate(zip(p.fr, q.fr)):
            if x is y: fr.append(x); continue
            n = Frame(); n.f = x.f; n.blk = x.blk; n.idx = x.idx; n.it = x.it; n.path = x.path; n.ret = x.ret; n.depth = x.depth
            n.allocas = x.allocas
            live = x.f.live[x.blk][x.idx if k == last else x.idx + 1] if True else None
            regs = {}
            xr, yr = x.regs, y.regs
            for r in live:
                if r in xr:
                    a = xr[r]
                    if r in yr:
                        b = yr[r]
                        regs[r] = a if a is b else A.merge2(gp, a, gq, b)
                    else: regs[r] = a
                elif r in yr: regs[r] = yr[r]
            if k == last and x.idx == 0:
                for ph in x.f.blocks[x.blk].phis:
                    r = ph.dst
                    if r in live: continue
            n.regs = regs
            fr.append(n)
        c = Cfg(A.or_(gp, gq), tuple(fr)); c.atom = p.atom
        if p.buf or q.buf: c.buf = s.merge_buf(gp, p.buf, gq, q.buf)
        return c

    def merge_buf(s, gp, pb, gq, qb):
        A = s.aig
        if pb is qb: return pb
        out = []
        lp, lq = list(pb), list(qb)
        while lp or lq:
            if lp and lq and lp[-1][2] == lq[-1][2]:
                x, y = lp.pop(), lq.pop()
                if x is y: out.append(x); continue
                out.append((A.or_(A.and_(gp, x[0]), A.and_(gq, y[0])), A.merge2(gp, x[1], gq, y[1]), x[2], A.merge2(gp, x[3], gq, y[3])))
            elif len(lp) >= len(lq):
                x = lp.pop(); out.append((A.and_(gp, x[0]),) + x[1:])
            else:
                y = lq.pop(); out.append((A.and_(gq, y[0]),) + y[1:])
        out.reverse()
        return tuple(out)

    # ------------------------------------------------------------ threads
    def start_thread(s, slot, g, fa, arg):
        """fa: function address value"""
        A = s.aig
        while len(s.threads) <= slot: s.threads.append({})
        for h, a in (((1, fa),) if fa.__class__ is int else fa):
            q = A.and_(g, h)
            if q == 0 or not A.feasible(q): continue
            f = s.fbyaddr.get(a)
            if f is None: s.violate(q, 'memory', 'thread started at a non-function'); continue
            c = Cfg(q, ()); s.enter(c, f, [arg], None, ('thread', slot))
            c.fr[0].path = s.pathid(0, ('thread', slot))
            key = cfgkey(c.fr); old = s.threads[slot].get(key)
            tgt = s.threads[slot]
            tgt[key] = c if old is None else s.merge(old, c)
        s.started[slot] = A.or_(s.started.get(slot, 0), g)
        for i in range(s.hb or 0): s.know[slot, i] = A.ite(g, s.know.get((s.tid, i), 1), s.know.get((slot, i), 1))
        s.fin[slot] = A.and_(s.fin.get(slot, 0), g ^ 1)

    def run_context(s, tid, stop):
        """one context of thread tid"""
        s.tid = tid; s.ctx += 1; s.stop = stop; s.stats['contexts'] += 1
        s.ev = []
        cfgs = s.threads[tid]; s.threads[tid] = {}
        s.next = {}; heap = []; s.heap = heap; s.cnt = 0
        for c in cfgs.values():
            if s.aig.fixed is None:
                if not s.aig.feasible(c.g): continue
            elif c.g == 0: continue
            s.cnt += 1
            heapq.heappush(heap, (cfgkey(c.fr), s.cnt, c))
        while heap:
            key, _, c = heapq.heappop(heap)
            while heap and heap[0][0] == key:
                c = s.merge(c, heapq.heappop(heap)[2])
            if c.g == 0: continue
            s.stats['configs'] += 1
            s.run_cfg(c, key)
        # other parts may have been started in this context for this same slot
        for k, c in s.next.items():
            o = s.threads[tid].get(k)
            s.threads[tid][k] = c if o is None else s.merge(o, c)
        if s.aig.fixed is not None: s.trace.append((s.ctx, tid, s.ev))
        if s.o.get('verbose'): print('ctx %d t%d cfgs %d nodes %d viol %d sat %d/%d/%d t %.1f' % (s.ctx, tid, len(s.threads[tid]), s.aig.nodes(), len(s.viol), s.aig.n_sat, s.aig.n_unsat, s.aig.n_simhit, time.time() - s.t0), flush=True)
        if time.time() - s.t0 > s.o.get('timeout', 1e9): raise EngineError('time budget exhausted')

    def push(s, c):
        s.cnt += 1
        heapq.heappush(s.heap, (cfgkey(c.fr), s.cnt, c))

    def run_cfg(s, c, key):
        A = s.aig
        fr = c.fr[-1].copy(); c.fr = c.fr[:-1] + (fr,)
        ins = fr.f.blocks[fr.blk].ins
        first = True
        while True:
            I = ins[fr.idx]
            op = I.op
            s.nins += 1
            # ---- scheduling point
            if not first and c.atom == 0 and s.heap and s.is_point(I, c):
                k = cfgkey(c.fr)
                if s.heap[0][0] <= k:
                    s.push(c); return
            first = False
            if c.atom == 0:
                vl = s.visible(I, c)
                if vl:
                    if s.point(c, vl) is False: return
                elif (I.vis or op == 'call' and I.memop) and A.fixed is not None: s.ev.append(('h', 'i', 0))
            # ---- execute
            regs = fr.regs
            if op == 'load':
                a = I.a; a = regs[a] if a.__class__ is str else a
                nb = (I.n + 7)//8
                v = s.raw_load(c, a, nb)
                if c.g == 0: return
                if I.n & 7: v = s.unop(lambda x: x & ((1 << I.n) - 1), v)
                if s.hb: s.hb_load(c, I, a, nb)
                regs[I.dst] = v
            elif op == 'store':
                a = I.a; a = regs[a] if a.__class__ is str else a
                v = I.b; v = regs[v] if v.__class__ is str else v
                nb = (I.n + 7)//8
                if s.tso and I.vis and c.atom == 0 and not s.privaddr(a):
                    if I.ord == 'seq_cst':
                        s.flush_slots(c, len(c.buf)); s.raw_store(c, a, nb, v)
                    else: s.buf_store(c, a, nb, v)
                else: s.raw_store(c, a, nb, v)
                if c.g == 0: return
                if s.hb: s.hb_store(c, I, a, nb)
            elif op == 'getelementptr':
                a = I.a; v = regs[a] if a.__class__ is str else a
                off = I.n
                if off: v = (v + off) & M64 if v.__class__ is int else s.unop(lambda x: (x + off) & M64, v)
                for r, st, w in I.x:
                    q = regs[r]
                    sb = 1 << (w - 1); mm = 1 << w
                    f = lambda x, y: (x + ((y - mm) if y & sb else y)*st) & M64
                    v = f(v, q) if v.__class__ is int and q.__class__ is int else s.binop(f, v, q, c.g)
                regs[I.dst] = v
                if I.c is not None and I.c[0] in s.privstructs:
                    if v.__class__ is int: s.privcells.add(v & ~7)
                    else:
                        for h, x in v: s.privcells.add(x & ~7)
            elif op == 'br':
                if I.a is None:
                    if not s.jump(c, fr, I.x[0]): return
                    ins = fr.f.blocks[fr.blk].ins; first = False
                    continue
                v = regs[I.a] if I.a.__class__ is str else I.a
                if v.__class__ is int:
                    if not s.jump(c, fr, I.x[0] if v & 1 else I.x[1]): return
                    ins = fr.f.blocks[fr.blk].ins
                    continue
                l = A.lit(v)
                g1 = A.and_(c.g, l); g0 = A.and_(c.g, l ^ 1)
                f1 = g1 != 0 and A.feasible(g1); f0 = g0 != 0 and A.feasible(g0)
                if f1 and f0:
                    c2 = Cfg(g0, c.fr[:-1] + (fr.copy(),)); c2.buf = c.buf; c2.atom = c.atom
                    c.g = g1
                    if s.goto(c2, c2.fr[-1], I.x[1]): s.push(c2)
                    else: s.park(c2)
                    if s.goto(c, fr, I.x[0]): s.push(c)
                    else: s.park(c)
                    return
                if f1: t = I.x[0]     # the other side is impossible: g is unchanged
                elif f0: t = I.x[1]
                else: return
                if not s.jump(c, fr, t): return
                ins = fr.f.blocks[fr.blk].ins
                continue
            elif op == 'switch':
                v = regs[I.a] if I.a.__class__ is str else I.a
                rest = c.g; outs = []
                for cv, t in I.x:
                    if cv is None: gg = rest
                    else:
                        e = A.lit(s.unop(lambda x: 1 if x == cv else 0, v)); gg = A.and_(c.g, e); rest = A.and_(rest, e ^ 1)
                    if gg and A.feasible(gg): outs.append((gg, t))
                for gg, t in outs:
                    c2 = Cfg(gg, c.fr[:-1] + (fr.copy(),)); c2.buf = c.buf; c2.atom = c.atom
                    if s.goto(c2, c2.fr[-1], t): s.push(c2)
                    else: s.park(c2)
                return
            elif op == 'call':
                r = s.do_call(c, fr, I)
                if r is True:      # entered a callee, or intrinsic that ended the config
                    if c.g == 0: return
                    fr = c.fr[-1]; ins = fr.f.blocks[fr.blk].ins
                    continue
                if r is None: return
            elif op == 'ret':
                v = None
                if I.a is not None: v = regs[I.a] if I.a.__class__ is str else I.a
                for rg in fr.allocas: rg.alive = A.and_(rg.alive, c.g ^ 1)
                if len(c.fr) == 1:
                    if s.tso: s.flush_slots(c, len(c.buf))
                    s.fin[s.tid] = A.or_(s.fin[s.tid], c.g)
                    for i in range(s.hb): s.rel[('o', 0x7f000000 + s.tid), i] = A.or_(s.rel.get((('o', 0x7f000000 + s.tid), i), 0), A.and_(c.g, s.know.get((s.tid, i), 1)))
                    return
                ret = fr.ret
                fr = c.fr[-2].copy(); c.fr = c.fr[:-2] + (fr,)
                if ret is not None and v is not None: fr.regs[ret] = v
                fr.idx += 1
                ins = fr.f.blocks[fr.blk].ins
                if s.heap:
                    k = cfgkey(c.fr)
                    if s.heap[0][0] <= k: s.push(c); return
                continue
            elif op == 'alloca':
                key = (s.tid, fr.path, I.uid)
                rg = s.allocmap.get(key)
                if rg is None:
                    al = max(I.x, 8)
                    s.stacknext = (s.stacknext + 64 + al - 1)//al*al
                    rg = s.newregion(s.stacknext, I.n, 'stack:%s:%s' % (fr.f.name, I.dst), 0, 'stack', I.tag, s.tid)
                    s.stacknext += (I.n + 7)//8*8
                    s.allocmap[key] = rg
                rg.alive = A.or_(rg.alive, c.g)
                for a in range(rg.start, rg.start + rg.size, 8):
                    s.mem[a] = A.mux(c.g, POISON, s.mem.get(a, POISON))
                fr.allocas = fr.allocas + (rg,)
                regs[I.dst] = rg.start
            elif op == 'icmp':
                a = I.a; a = regs[a] if a.__class__ is str else a
                b = I.b; b = regs[b] if b.__class__ is str else b
                f = CMP[I.x]
                if I.x[0] == 's':
                    sb = 1 << (I.n - 1)
                    ff = f; f = lambda x, y: ff(x ^ sb, y ^ sb)
                regs[I.dst] = f(a, b) if a.__class__ is int and b.__class__ is int else s.binop(f, a, b, c.g)
            elif op in BINF:
                a = I.a; a = regs[a] if a.__class__ is str else a
                b = I.b; b = regs[b] if b.__class__ is str else b
                n = I.n; mk = (1 << n) - 1; bf = BINF[op]
                if op in ('udiv', 'sdiv', 'urem', 'srem'):
                    z = A.and_(c.g, A.lit(s.unop(lambda x: 1 if x == 0 else 0, b)))
                    if z and A.feasible(z):
                        s.violate(z, 'arith', 'division by zero [%s]' % s.where(c))
                        c.g = A.and_(c.g, z ^ 1)
                        if c.g == 0 or not A.feasible(c.g): return
                    if b.__class__ is tuple: b = A.prune(c.g, b)
                f = lambda x, y: bf(x, y, n) & mk
                regs[I.dst] = f(a, b) if a.__class__ is int and b.__class__ is int else s.binop(f, a, b, c.g)
            elif op == 'zext' or op == 'ptrtoint' or op == 'inttoptr' or op == 'bitcast':
                v = regs[I.a] if I.a.__class__ is str else I.a
                if I.x < I.n:
                    mk = (1 << I.x) - 1; v = s.unop(lambda x: x & mk, v)
                regs[I.dst] = v
            elif op == 'trunc':
                mk = (1 << I.x) - 1
                v = regs[I.a] if I.a.__class__ is str else I.a
                regs[I.dst] = v & mk if v.__class__ is int else s.unop(lambda x: x & mk, v)
            elif op == 'sext':
                v = regs[I.a] if I.a.__class__ is str else I.a
                sb = 1 << (I.n - 1); mk = (1 << I.x) - 1; mm = 1 << I.n
                f = lambda x: ((x - mm) if x & sb else x) & mk
                regs[I.dst] = f(v) if v.__class__ is int else s.unop(f, v)
            elif op == 'select':
                v = regs[I.a] if I.a.__class__ is str else I.a
                x = regs[I.b] if I.b.__class__ is str else I.b
                y = regs[I.c] if I.c.__class__ is str else I.c
                regs[I.dst] = A.mux(A.lit(v), x, y)
            elif op == 'cmpxchg':
                a = regs[I.a] if I.a.__class__ is str else I.a
                e = regs[I.b] if I.b.__class__ is str else I.b
                nw = regs[I.c] if I.c.__class__ is str else I.c
                nb = I.n//8
                if s.tso: s.flush_slots(c, len(c.buf))
                old = s.raw_load(c, a, nb)
                if c.g == 0: return
                eq = A.lit(s.binop(lambda x, y: 1 if x == y else 0, old, e, c.g))
                if I.x == 'weak' and s.weak and s.symbolic and s.stop:
                    sp = s.choice_bit(c, 'weak', 0.1)
                    # at most s.weak spurious failures in the whole run
                    used = s.spur = getattr(s, 'spur', [0]*s.weak)
                    fire = A.and_(A.and_(sp, c.g), eq)
                    can = 0
                    for k in range(s.weak):
                        now = A.and_(fire, used[k] ^ 1); fire2 = A.and_(fire, used[k])
                        used[k] = A.or_(used[k], now); can = A.or_(can, now); fire = fire2
                    eq = A.and_(eq, can ^ 1)
                    if A.fixed is not None: s.ev.append(('w', 1 if can == 1 else 0))
                elif A.fixed is not None and I.x == 'weak' and s.weak: s.ev.append(('w', 0))
                gs = A.and_(c.g, eq)
                if gs and A.feasible(gs):
                    c2 = Cfg(gs, c.fr); s.raw_store(c2, a, nb, nw)
                    if s.hb: s.hb_load(c, I, a, nb, gs, I.ord); s.hb_rmw(c, I, a, nb, gs)
                if s.hb: s.hb_load(c, I, a, nb, A.and_(c.g, eq ^ 1), I.tag or 'monotonic')
                regs[I.dst] = ('pair', old, A.pack({1: eq, 0: eq ^ 1}))
            elif op == 'extractvalue':
                v = regs[I.a]
                if v.__class__ is tuple and v and v[0] == 'pair': regs[I.dst] = v[1 + I.x]
                else: raise EngineError('extractvalue')
            elif op == 'atomicrmw':
                a = regs[I.a] if I.a.__class__ is str else I.a
                w = regs[I.b] if I.b.__class__ is str else I.b
                nb = I.n//8; mk = (1 << I.n) - 1
                if s.tso: s.flush_slots(c, len(c.buf))
                old = s.raw_load(c, a, nb)
                if c.g == 0: return
                bf = RMWF[I.x]
                nw = s.binop(lambda x, y: bf(x, y) & mk, old, w, c.g)
                s.raw_store(c, a, nb, nw)
                if s.hb: s.hb_load(c, I, a, nb); s.hb_rmw(c, I, a, nb, c.g)
                regs[I.dst] = old
            elif op == 'fence':
                if I.ord == 'seq_cst' and s.tso: s.flush_slots(c, len(c.buf))
                if s.hb: s.hb_fence(c, I)
            elif op == 'unreachable':
                return
            elif op == 'float':
                if I.dst: regs[I.dst] = 0
            else: raise EngineError('op ' + op)
            fr.idx += 1

    # ------------------------------------------------------------ happens-before
    # know[t][id]: the last write of watched object id happens-before t's
    # current point; rel[cell][id]: the message released by the cell's value; own[cell, t][id]: the part of it from release
    # sequences headed by t (C11: these go on with t's own stores, relaxed or not, and with anybody's read-modify-writes)
    def hb_init(s):
        s.know = {}; s.rel = {}; s.own = {}; s.facq = {}; s.frel = {}; s.everwr = {}
    def hb_parts(s, c, a, nb):
        A = s.aig
        for h, x in (((1, a),) if a.__class__ is int else a):
            for p in range(x & ~3, x + nb, 4): yield h, p
    def hb_load(s, c, I, a, nb, g=None, order=None):
        A = s.aig; order = I.ord if order is None else order; g = c.g if g is None else g
        if not order: return
        t = s.tid; acq = order in ('acquire', 'acq_rel', 'seq_cst')
        for h, p in s.hb_parts(c, a, nb):
            for i in range(s.hb):
                m = s.rel.get((p, i), 0)
                if m == 0: continue
                m = A.and_(m, A.and_(g, h))
                if m == 0: continue
                d = s.know if acq else s.facq
                d[t, i] = A.or_(d.get((t, i), 1 if acq else 0), m)
    def hb_store(s, c, I, a, nb):
        A = s.aig; t = s.tid; order = I.ord
        for h, p in s.hb_parts(c, a, nb):
            g = A.and_(c.g, h)
            for i in range(s.hb):
                v = 0 if not order else s.know.get((t, i), 1) if order in ('release', 'acq_rel', 'seq_cst') else s.frel.get((t, i), 0)
                for u in range(len(s.threads)):
                    o = s.own.get(((p, u), i), 0)
                    if u == t and order: v = A.or_(v, o)
                    elif o: s.own[(p, u), i] = A.and_(o, g ^ 1)
                if order: s.own[(p, t), i] = A.ite(g, v, s.own.get(((p, t), i), 0))
                old = s.rel.get((p, i), 0)
                if old == v: continue
                s.rel[p, i] = A.ite(g, v, old)
    def hb_rmw(s, c, I, a, nb, g):
        A = s.aig; t = s.tid
        for h, p in s.hb_parts(c, a, nb):
            for i in range(s.hb):
                v = s.know.get((t, i), 1) if I.ord in ('release', 'acq_rel', 'seq_cst') else s.frel.get((t, i), 0)
                if v:
                    v = A.and_(A.and_(g, h), v)
                    s.rel[p, i] = A.or_(s.rel.get((p, i), 0), v)
                    s.own[(p, t), i] = A.or_(s.own.get(((p, t), i), 0), v)
    def hb_fence(s, c, I):
        A = s.aig; t = s.tid
        for i in range(s.hb):
            if I.ord in ('acquire', 'acq_rel', 'seq_cst'):
                m = s.facq.get((t, i), 0)
                if m: s.know[t, i] = A.or_(s.know.get((t, i), 1), A.and_(c.g, m))
            if I.ord in ('release', 'acq_rel', 'seq_cst'):
                s.frel[t, i] = A.ite(c.g, s.know.get((t, i), 1), s.frel.get((t, i), 0))

    def jump(s, c, fr, tgt):
        if not s.goto(c, fr, tgt):
            s.park(c); return False
        if s.heap:
            k = cfgkey(c.fr)
            if s.heap[0][0] <= k: s.push(c); return False
        return True

    # ------------------------------------------------------------ scheduling
    def privaddr(s, a):
        if a.__class__ is int:
            if a & ~7 in s.privcells: return True
            r = s.cellreg.get(a & ~7); return r is not None and r.priv
        for h, x in a:
            if x & ~7 in s.privcells: continue
            r = s.cellreg.get(x & ~7)
            if not (r is not None and r.priv): return False
        return True

    def visible(s, I, c):
        if s.visoff: return 0
        if I.vis:
            fr = c.fr[-1]
            a = I.a; a = fr.regs[a] if a.__class__ is str else a
            if s.privaddr(a): return 0
            if a.__class__ is int or not s.symbolic: return 1
            # visible only for the addresses that are not private
            vl = 0; allv = True
            for h, x in a:
                if x & ~7 not in s.privcells:
                    r = s.cellreg.get(x & ~7)
                    if not (r is not None and r.priv): vl = s.aig.or_(vl, h); continue
                allv = False
            if allv: return 1
            return vl if s.aig.feasible(s.aig.and_(c.g, vl)) else 0
        if I.op == 'call' and I.a.__class__ is str:
            if I.a in VISCALLS: return 1
            if I.memop:
                regs = c.fr[-1].regs
                for a in I.b[:I.memop]:
                    if a.__class__ is str: a = regs.get(a, 0) if a[0] == '%' else a
                    if a.__class__ is not str and not s.privaddr(a): return 1
            return 0
        if I.op == 'fence' and I.ord == 'seq_cst' and s.tso: return 1
        return 0

    def is_point(s, I, c):
        return I.vis or (I.op == 'call' and I.a.__class__ is str and (I.memop or I.a in VISCALLS))

    def point(s, c, vl=1):
        """before a visible operation: flush choice, then stop choice"""
        A = s.aig
        s.nvis += 1
        if not s.symbolic:
            if A.fixed is not None: s.ev.append(('h', 'v', 0))
            return True
        s.nfl = 0
        tag = cfgkey(c.fr)
        if c.buf: 
            if s.stop: s.flush_choice(c, tag, vl)
            elif vl != 1: s.flush_cond(c, lambda n: vl)
            else:
                # the fair suffix drains buffers
                s.nfl = len(c.buf)
                s.flush_slots(c, len(c.buf))
        if s.stop:
            b = A.input(('stop', s.ctx, s.tid, tag), 0.15)
            if vl != 1: b = A.and_(b, vl)
            g = A.and_(c.g, b)
            if g:
                c2 = Cfg(g, c.fr[:-1] + (c.fr[-1].copy(),)); c2.buf = c.buf
                s.park(c2)
                c.g = A.and_(c.g, b ^ 1)
                if c.g == 0:
                    if s.nfl and A.fixed is not None: s.ev.append(('t', s.nfl))
                    return False
        if A.fixed is not None: s.ev.append(('h', 'v', s.nfl))
        return True

    def choice_bit(s, c, what, bias=0.5):
        s.nchoice += 1
        return s.aig.input((what, s.ctx, s.tid, cfgkey(c.fr)), bias)

    # ------------------------------------------------------------ calls
    def do_call(s, c, fr, I):
        """None: config ended; True: entered callee; False: done, continue"""
        A = s.aig; regs = fr.regs
        fn = I.a
        args = [regs[x] if x.__class__ is str and x[0] == '%' else x for x in I.b]
        if fn.__class__ is str and fn[0] == '@':
            f = s.m.f.get(fn)
            if f is not None:
                s.enter(c, f, args, I.dst, I.uid)
                return True
            h = INTR.get(fn)
            if h is None:
                for p, q in INTRP:
                    if fn.startswith(p): h = q; break
            if h is None: raise EngineError('no model for ' + fn)
            return h(s, c, fr, I, args)
        v = regs[fn] if fn.__class__ is str else fn
        if v.__class__ is tuple: v = A.prune(c.g, v)
        if v.__class__ is int:
            f = s.fbyaddr.get(v)
            if f is None:
                s.violate(c.g, 'memory', 'call of non-function 0x%x [%s]' % (v, s.where(c)))
                return None
            s.enter(c, f, args, I.dst, I.uid + ':' + f.name)
            return True
        for h, a in v:
            g = A.and_(c.g, h)
            if g == 0: continue
            f = s.fbyaddr.get(a)
            if f is None:
                s.violate(g, 'memory', 'call of non-function 0x%x [%s]' % (a, s.where(c))); continue
            c2 = Cfg(g, c.fr[:-1] + (fr.copy(),)); c2.buf = c.buf; c2.atom = c.atom
            s.enter(c2, f, [A.prune(g, x) if x.__class__ is tuple and x and x[0] != 'pair' else x for x in args], I.dst, I.uid + ':' + f.name)
            if c2.g: s.push(c2)
        return None

    # ------------------------------------------------------------ driver
    def boot(s, main='@main'):
        s.threads = [{}]
        c = Cfg(1, ()); s.enter(c, s.m.f[main], [0]*len(s.m.f[main].args), None, 'main')
        s.threads[0][cfgkey(c.fr)] = c
        s.fin[0] = 0; s.started[0] = 1

    def prefix_phase(s, maxrounds=200):
        """deterministic start-up until vp_symbolic"""
        B = s.B; s.B = s.o.get('prefixB', 4)
        for r in range(maxrounds):
            t = 0
            while t < len(s.threads):
                if s.threads[t]:
                    s.run_context(t, False)
                    if s.symreq: s.B = B; return True
                t += 1
        s.B = B
        return False

    def run(s, schedule, suffix):
        """schedule: list of thread ids; suffix: list of thread ids"""
        if not s.symbolic:
            if not s.prefix_phase(): return
        s.symbolic = True
        sov = s.o.get('stop_on_viol')
        for t in schedule:
            if t < len(s.threads): s.run_context(t, True)
            if sov and s.viol: return
        B = s.B; s.B = s.o.get('suffixB', B)
        for t in suffix:
            if t < len(s.threads): s.run_context(t, False)
            if sov and s.viol: break
        s.B = B

    def unfinished(s, main=0):
        A = s.aig
        return A.and_(A.and_(A.and_(s.fin.get(main, 0) ^ 1, s.ok), s.cut ^ 1), s.dead ^ 1)

def _lt(x, y): return 1 if x < y else 0
CMP = {'eq': lambda x, y: 1 if x == y else 0, 'ne': lambda x, y: 1 if x != y else 0,
       'ult': _lt, 'ugt': lambda x, y: 1 if x > y else 0, 'ule': lambda x, y: 1 if x <= y else 0,
       'uge': lambda x, y: 1 if x >= y else 0, 'slt': _lt, 'sgt': lambda x, y: 1 if x > y else 0,
       'sle': lambda x, y: 1 if x <= y else 0, 'sge': lambda x, y: 1 if x >= y else 0}
def _s(x, n): return x - (1 << n) if x >> (n-1) else x
def _sdiv(x, y, n):
    x = _s(x, n); y = _s(y, n); q = abs(x)//abs(y); return -q if (x < 0) != (y < 0) else q
def _srem(x, y, n):
    a = _s(x, n); b = _s(y, n); r = abs(a) % abs(b); return -r if a < 0 else r
BINF = {'add': lambda x, y, n: x + y, 'sub': lambda x, y, n: x - y, 'mul': lambda x, y, n: x*y,
        'udiv': lambda x, y, n: x//y, 'urem': lambda x, y, n: x % y, 'sdiv': _sdiv, 'srem': _srem,
        'shl': lambda x, y, n: x << y if y < n else 0, 'lshr': lambda x, y, n: x >> y if y < n else 0,
        'ashr': lambda x, y, n: _s(x, n) >> min(y, n-1), 'and': lambda x, y, n: x & y,
        'or': lambda x, y, n: x | y, 'xor': lambda x, y, n: x ^ y}
RMWF = {'xchg': lambda x, y: y, 'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'and': lambda x, y: x & y,
        'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}

# ---------------------------------------------------------------- intrinsics
VISCALLS = {'@vp_atomic_begin', '@vp_point'}
def i_nop(s, c, fr, I, a):
    if I.dst: fr.regs[I.dst] = 0
    return False
def i_assert(s, c, fr, I, a):
    if s.o.get('onlylive'): return False
    A = s.aig
    bad = A.and_(c.g, A.lit(s.unop(lambda x: 1 if x & 0xffffffff else 0, a[0])) ^ 1)
    if bad:
        idv = A.prune(bad, a[1]) if bad != 1 else a[1]
        s.violate(bad, 'assert', 'assertion %s failed [%s]' % (s.cstr(idv), s.where(c)))
        c.g = A.and_(c.g, bad ^ 1)
        if c.g == 0: return None
    return False
def i_assume(s, c, fr, I, a):
    A = s.aig
    bad = A.and_(c.g, A.lit(s.unop(lambda x: 1 if x & 0xffffffff else 0, a[0])) ^ 1)
    if bad:
        s.ok = A.and_(s.ok, bad ^ 1); c.g = A.and_(c.g, bad ^ 1)
        if c.g == 0 or not A.feasible(c.g): return None
    return False
def i_choice(s, c, fr, I, a):
    n = a[0]; A = s.aig
    if n <= 1: fr.regs[I.dst] = 0; return False
    if not s.symbolic or not s.stop:
        fr.regs[I.dst] = 0
        if A.fixed is not None: s.ev.append(('c', 0))
        return False
    d = {}; rest = 1
    for k in range(n-1):
        b = s.aig.input(('choice', s.ctx, s.tid, cfgkey(c.fr), k), 0.5)
        d[k] = A.and_(rest, b); rest = A.and_(rest, b ^ 1)
    d[n-1] = rest
    v = A.pack(d)
    if A.fixed is not None: s.ev.append(('c', v))
    fr.regs[I.dst] = v
    return False
def i_symbolic(s, c, fr, I, a):
    if s.symbolic: return False
    s.symreq = True
    fr.idx += 1
    s.park(c)
    return None
def i_abegin(s, c, fr, I, a):
    if s.tso: s.flush_slots(c, len(c.buf))
    c.atom += 1
    return False
def i_aend(s, c, fr, I, a):
    c.atom -= 1; return False
def _parts1(a):
    return ((1, a),) if a.__class__ is int else a
def i_hbacq(s, c, fr, I, a):
    A = s.aig; t = s.tid
    for h, x in _parts1(a[0]):
        for i in range(s.hb):
            m = A.and_(s.rel.get((('o', x), i), 0), A.and_(c.g, h))
            if m: s.know[t, i] = A.or_(s.know.get((t, i), 1), m)
    return False
def i_hbrel(s, c, fr, I, a):
    A = s.aig; t = s.tid
    for h, x in _parts1(a[0]):
        for i in range(s.hb):
            m = A.and_(s.know.get((t, i), 1), A.and_(c.g, h))
            if m: s.rel[('o', x), i] = A.or_(s.rel.get((('o', x), i), 0), m)
    return False
def i_hbwrite(s, c, fr, I, a):
    """the watched object is written (initially everybody knows it)"""
    A = s.aig; t = s.tid; ng = c.g ^ 1
    for h, i in _parts1(a[0]):
        if i >= s.hb: continue
        g = A.and_(c.g, h); ng = g ^ 1
        for u in range(len(s.threads)): s.know[u, i] = A.and_(s.know.get((u, i), 1), ng)
        s.know[t, i] = A.or_(s.know[t, i], g)
        for d in (s.facq, s.frel, s.rel, s.own):
            for k in d:
                if k[1] == i and d[k]: d[k] = A.and_(d[k], ng)
    return False
def i_hbread(s, c, fr, I, a):
    A = s.aig
    for h, i in _parts1(a[0]):
        if i >= s.hb: continue
        bad = A.and_(A.and_(c.g, h), s.know.get((s.tid, i), 1) ^ 1)
        if bad:
            s.violate(bad, 'assert', 'no happens-before edge from the last write: %s [%s]' % (s.cstr(a[1]), s.where(c)))
            c.g = A.and_(c.g, bad ^ 1)
            if c.g == 0: return None
    return False
def i_self(s, c, fr, I, a):
    fr.regs[I.dst] = s.tid; return False
def i_thread(s, c, fr, I, a):
    A = s.aig
    for h, slot in _parts1(A.prune(c.g, a[0]) if a[0].__class__ is tuple else a[0]):
        g = A.and_(c.g, h)
        s.start_thread(slot, g, A.prune(g, a[1]) if a[1].__class__ is tuple else a[1], A.prune(g, a[2]) if a[2].__class__ is tuple else a[2])
    return False
def i_reach(s, c, fr, I, a):
    k = s.cstr(a[0])
    s.reach[k] = s.aig.or_(s.reach.get(k, 0), s.aig.and_(c.g, s.ok)); return False
def i_finished(s, c, fr, I, a):
    A = s.aig; d = {}
    f = 0
    for h, slot in (((1, a[0]),) if a[0].__class__ is int else a[0]): f = A.or_(f, A.and_(h, s.fin.get(slot, 0)))
    fr.regs[I.dst] = A.pack({1: f, 0: f ^ 1}); return False
def i_alloc(s, c, fr, I, a):
    """vp_alloc(align, size): fresh zero-unfilled heap block"""
    A = s.aig
    al = a[0]; sz = a[1]
    for v in (al, sz):
        if v.__class__ is not int: pass
    if al.__class__ is not int: al = max(x for h, x in A.prune(c.g, al)) if A.prune(c.g, al).__class__ is not int else A.prune(c.g, al)
    szs = A.prune(c.g, sz) if sz.__class__ is tuple else sz
    out = {}
    for h, n in (((1, szs),) if szs.__class__ is int else szs):
        g = A.and_(c.g, h)
        key = (s.tid, fr.path, I.uid, n)
        lst = s.allocmap.setdefault(key, [])
        rg = None
        for r in lst:
            if not A.feasible(A.and_(r.alive, g)): rg = r; break
        if rg is None:
            al = max(al, 16)
            s.heapnext = (s.heapnext + 64 + al - 1)//al*al
            rg = s.newregion(s.heapnext, n, 'heap:%s:%s#%d' % (fr.f.name[1:], I.loc[0] if I.loc else '?', len(lst)), 0, 'heap')
            s.heapnext += (n + 7)//8*8 + 64; lst.append(rg)
        rg.alive = A.or_(rg.alive, g)
        for x in range(rg.start, rg.start + n, 8): s.mem[x] = A.mux(g, POISON, s.mem.get(x, POISON))
        out[rg.start] = h
    fr.regs[I.dst] = A.pack(out)
    return False
def i_free(s, c, fr, I, a):
    A = s.aig; v = a[0]
    if v.__class__ is tuple: v = A.prune(c.g, v)
    for h, x in (((1, v),) if v.__class__ is int else v):
        g = A.and_(c.g, h)
        if x == 0: continue
        r = s.cellreg.get(x & ~7)
        if r is None or r.kind != 'heap' or r.start != x:
            s.violate(g, 'memory', 'free of a pointer that is not a heap block [%s]' % s.where(c)); continue
        bad = A.and_(g, r.alive ^ 1)
        if bad and A.feasible(bad): s.violate(bad, 'memory', 'double free of %s [%s]' % (r.name, s.where(c)))
        r.alive = A.and_(r.alive, g ^ 1)
    return False
def i_heaplive(s, c, fr, I, a):
    """number of live heap blocks (0 or 1: any)"""
    A = s.aig; any_ = 0
    for r in s.regions:
        if r.kind == 'heap': any_ = A.or_(any_, r.alive)
    fr.regs[I.dst] = A.pack({1: any_, 0: any_ ^ 1}); return False
def i_memset(s, c, fr, I, a):
    v = a[1]; n = a[2]
    if v.__class__ is not int: raise EngineError('symbolic memset value')
    n = s.aig.prune(c.g, n) if n.__class__ is tuple else n
    A = s.aig
    w = int.from_bytes(bytes([v & 255])*8, 'little')
    if s.tso: s.flush_slots(c, len(c.buf))
    for hn, nn in (((1, n),) if n.__class__ is int else n):
        cc = Cfg(A.and_(c.g, hn), c.fr); g0 = cc.g
        o = 0
        while o < nn:
            k = 8 if nn - o >= 8 else 4 if nn - o >= 4 else 1
            d = s.unop(lambda x: (x + o) & M64, a[0])
            s.raw_store(cc, d, k, w & ((1 << (8*k)) - 1), 'memset'); o += k
            if cc.g == 0: break
        c.g = A.and_(c.g, A.or_(A.and_(g0, cc.g ^ 1), 0) ^ 1)
    if I.dst: fr.regs[I.dst] = a[0]
    return False if c.g else None
def i_memcpy(s, c, fr, I, a):
    n = a[2]
    n = s.aig.prune(c.g, n) if n.__class__ is tuple else n
    if n.__class__ is not int: raise EngineError('symbolic memcpy size')
    if s.tso: s.flush_slots(c, len(c.buf))
    vals = []; o = 0
    while o < n:
        k = 8 if n - o >= 8 else 4 if n - o >= 4 else 1
        vals.append((o, k, s.raw_load(c, s.unop(lambda x: (x + o) & M64, a[1]), k, 'memcpy read'))); o += k
        if c.g == 0: return None
    for o, k, v in vals:
        s.raw_store(c, s.unop(lambda x: (x + o) & M64, a[0]), k, v, 'memcpy write')
        if c.g == 0: return None
    if I.dst: fr.regs[I.dst] = a[0]
    return False
def i_tls(s, c, fr, I, a):
    k = (a[0], s.tid)
    if k not in s.tls:
        n = next(n for n, x in s.m.addrs.items() if x == a[0]); g = s.m.g[n]
        s.heapnext = (s.heapnext + 127)//64*64
        r = s.newregion(s.heapnext, g.ty.size, 'tls:' + n, 1, 'tls', True); s.heapnext += max(8, g.ty.size) + 64
        for o in range(0, len(g.cells), 8): s.mem[r.start + o] = int.from_bytes(g.cells[o:o+8].ljust(8, b'\0'), 'little')
        s.tls[k] = r.start
    fr.regs[I.dst] = s.tls[k]; return False
def i_stopthread(s, c, fr, I, a):
    return None
def i_expect(s, c, fr, I, a):
    fr.regs[I.dst] = a[0]; return False
def i_cover(s, c, fr, I, a): return False
def _mm(f):
    def g(s, c, fr, I, a):
        n = I.n; fr.regs[I.dst] = s.binop(lambda x, y: f(x, y, n), a[0], a[1], c.g); return False
    return g
INTR = {'@vp_hb_acq': i_hbacq, '@vp_hb_rel': i_hbrel, '@vp_hb_write': i_hbwrite, '@vp_hb_read': i_hbread,
        '@vp_assert': i_assert, '@vp_assume': i_assume, '@vp_choice': i_choice, '@vp_symbolic': i_symbolic,
        '@vp_atomic_begin': i_abegin, '@vp_atomic_end': i_aend, '@vp_self': i_self, '@vp_thread_start': i_thread,
        '@vp_reach': i_reach, '@vp_finished': i_finished, '@vp_alloc': i_alloc, '@vp_free': i_free,
        '@vp_heaplive': i_heaplive, '@vp_stop_thread': i_stopthread, '@vp_point': i_nop,
        '@memset': i_memset, '@memcpy': i_memcpy, '@memmove': i_memcpy,
        '@fprintf': i_nop, '@printf': i_nop, '@fputs': i_nop, '@puts': i_nop, '@fflush': i_nop, '@fwrite': i_nop, '@fputc': i_nop, '@putchar': i_nop}
INTRP = [('@llvm.memset', i_memset), ('@llvm.memcpy', i_memcpy), ('@llvm.memmove', i_memcpy),
         ('@llvm.threadlocal.address', i_tls), ('@llvm.expect', i_expect), ('@llvm.prefetch', i_nop), ('@llvm.x86.sse2.pause', i_nop),
         ('@llvm.umin', _mm(lambda x, y, n: min(x, y))), ('@llvm.umax', _mm(lambda x, y, n: max(x, y))),
         ('@llvm.smin', _mm(lambda x, y, n: min(_s(x, n), _s(y, n)) & ((1 << n) - 1))), ('@llvm.smax', _mm(lambda x, y, n: max(_s(x, n), _s(y, n)) & ((1 << n) - 1)))]

def _cstr(s, a):
    if a.__class__ is not int: return str(a)
    b = bytearray()
    while True:
        w = s.mem.get(a & ~7, 0); ch = (w >> (8*(a & 7))) & 255
        if ch == 0 or len(b) > 200: break
        b.append(ch); a += 1
    return b.decode('latin1')
Engine.cstr = _cstr

# ---------------------------------------------------------------- building
def _rdtsc(t):
    """the time stamp counter becomes a call of the scenario's vp_rdtsc()"""
    import re
    out = []; var = None
    for l in t.split('\n'):
        m = re.match(r'\s*(%\S+) = call \{ i32, i32 \} asm sideeffect "rdtsc"', l)
        if m: var = m.group(1); d = re.search(r', !dbg !\d+', l); out.append('  %s = call i64 @vp_rdtsc()%s' % (var, d.group(0) if d else '')); continue
        m = re.match(r'\s*(%%?\S+) = extractvalue \{ i32, i32 \} (%\S+), ([01])', l)
        if m and var and m.group(2) == var:
            if m.group(3) == '0': out.append('  %s = trunc i64 %s to i32' % (m.group(1), var))
            else: out.append('  %s_h = lshr i64 %s, 32\n  %s = trunc i64 %s_h to i32' % (m.group(1), var, m.group(1), m.group(1)))
            continue
        out.append(l)
    t = '\n'.join(out)
    if not re.search(r'^(define|declare).*@vp_rdtsc\(', t, re.M): t += '\ndeclare i64 @vp_rdtsc()\n'
    return t

def build_ir(src, cflags, out=None):
    d = tempfile.mkdtemp(prefix='vp_ir')
    a = os.path.join(d, 'a.ll'); b = out or os.path.join(d, 'b.ll')
    subprocess.run(['clang', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-w', '-fno-discard-value-names'] + cflags + [src, '-o', a], check=True, capture_output=True)
    t = open(a).read()
    if '"rdtsc"' in t: open(a, 'w').write(_rdtsc(t))
    subprocess.run(['opt', '-S', '-passes=sroa,instsimplify', a, '-o', b], check=True)
    t = open(b).read()
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return t

"""Parser for the subset of LLVM-18 textual IR that clang emits for C at -O0
(after sroa).  Produces per function: blocks of instructions with resolved
operands (registers are str, constants are int), the weak topological order
(loops) used for scheduling, and register liveness."""
import re

class ParseError(Exception): pass

# ---------------------------------------------------------------- types
class T: pass
class TInt(T):
    def __init__(s, n): s.n = n; s.size = max(1, 1 << ((n + 7)//8 - 1).bit_length()); s.align = min(s.size, 8)
class TPtr(T):
    size = 8; align = 8; n = 64
class TFlt(T):
    def __init__(s, size): s.size = size; s.align = size; s.n = size*8
class TVoid(T):
    size = 0; align = 1; n = 0
class TArr(T):
    def __init__(s, k, e): s.k = k; s.e = e; s.size = k*e.size; s.align = e.align
class TStruct(T):
    def __init__(s, fields, packed=False):
        s.f = fields; s.off = []; o = 0; al = 1
        for t in fields:
            a = 1 if packed else t.align
            o = (o + a - 1)//a*a
            s.off.append(o); o += t.size; al = max(al, a)
        s.align = al; s.size = (o + al - 1)//al*al
PTR = TPtr(); VOID = TVoid()
_ints = {}
def tint(n):
    if n not in _ints: _ints[n] = TInt(n)
    return _ints[n]

TOK = re.compile(r'\s*(c"(?:[^"\\]|\\.)*"|[%@](?:"[^"]*"|[-\w$.]+)|"(?:[^"\\]|\\.)*"|![-\w$.]*|#\d+|-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|-?\d+|\.\.\.|[\w$.]+|[(){}\[\]<>,=*|:])')

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise ParseError("token at: " + s[i:i+60])
        out.append(m.group(1)); i = m.end()
        if i < n and s[i:].lstrip().startswith(';'): break
    return out

class P:
    """token stream"""
    def __init__(s, toks, mod): s.t = toks; s.i = 0; s.m = mod
    def peek(s, k=0): return s.t[s.i+k] if s.i+k < len(s.t) else None
    def next(s):
        x = s.t[s.i]; s.i += 1; return x
    def eat(s, x):
        if s.peek() == x: s.i += 1; return True
        return False
    def need(s, x):
        if not s.eat(x): raise ParseError("expected %s got %s in %s" % (x, s.t[s.i:s.i+8], ' '.join(s.t)))
    def type(s):
        t = s.next()
        if re.fullmatch(r'i\d+', t): r = tint(int(t[1:]))
        elif t == 'ptr': r = PTR
        elif t == 'void': r = VOID
        elif t == 'double': r = TFlt(8)
        elif t == 'float': r = TFlt(4)
        elif t == 'x86_fp80': r = TFlt(16)
        elif t == 'opaque': r = VOID
        elif t == 'metadata': r = VOID
        elif t == 'label': r = VOID
        elif t == '[':
            k = int(s.next()); s.need('x'); e = s.type(); s.need(']'); r = TArr(k, e)
        elif t == '{': r = s._struct('}', False)
        elif t == '<':
            if s.peek() == '{':
                s.next(); r = s._struct('}', True); s.need('>')
            else:
                k = int(s.next()); s.need('x'); e = s.type(); s.need('>'); r = TArr(k, e)
        elif t[0] == '%': r = s.m.gettype(t)
        else: raise ParseError("type %s in %s" % (t, ' '.join(s.t)))
        while s.peek() == '(':     # function type: skip the argument list
            d = 0
            while True:
                x = s.next()
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
        return r
    def _struct(s, close, packed):
        f = []
        if s.eat(close): return TStruct(f, packed)
        while True:
            f.append(s.type())
            if s.eat(close): break
            s.need(',')
        return TStruct(f, packed)
    ATTRS = {'noundef','nonnull','signext','zeroext','inreg','noalias','nocapture','readonly','writeonly',
             'returned','immarg','readnone','inbounds','nuw','nsw','exact','volatile','tail','notail','musttail',
             'fastcc','ccc','dso_local','disjoint','nneg','nusw','samesign','noinline','allocptr','mustprogress'}
    def attrs(s):
        while True:
            t = s.peek()
            if t in s.ATTRS: s.i += 1
            elif t in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval'):
                s.i += 1
                if s.peek() == '(':
                    d = 0
                    while True:
                        x = s.next()
                        if x == '(': d += 1
                        if x == ')':
                            d -= 1
                            if d == 0: break
                else: s.i += 1
            elif t and t[0] == '#': s.i += 1
            else: return
    def value(s, ty):
        """operand of type ty -> int | str (register) | ('agg', bytes-list)"""
        t = s.next()
        if t[0] == '%': return t
        if t[0] == '@': return s.m.addr(t)
        if t == 'null' or t == 'zeroinitializer' or t == 'none': return 0
        if t == 'true': return 1
        if t == 'false': return 0
        if t in ('undef', 'poison'):
            return 0xAAAAAAAAAAAAAAAA & ((1 << (8*ty.size)) - 1) if ty.size <= 8 and not isinstance(ty, (TStruct, TArr)) else 0
        if re.fullmatch(r'-?\d+', t): return int(t) & ((1 << ty.n) - 1)
        if re.fullmatch(r'0x[0-9A-Fa-f]+', t): return int(t, 16)
        if re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?', t): 
            import struct
            return struct.unpack('<Q', struct.pack('<d', float(t)))[0]
        if t == 'getelementptr':
            s.attrs(); s.need('(')
            bt = s.type(); s.need(',')
            s.type(); s.attrs(); base = s.value(PTR)
            idx = []
            while s.eat(','):
                it = s.type(); s.attrs(); idx.append((it, s.value(it)))
            s.need(')')
            off, dyn = gep_offset(bt, idx)
            if dyn: raise ParseError("dynamic constant gep")
            return (base + off) & M64
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext'):
            s.need('('); ft = s.type(); v = s.value(ft); s.need('to'); tt = s.type(); s.need(')')
            return v & ((1 << tt.n) - 1)
        if t in ('add', 'sub', 'mul'):
            s.attrs(); s.need('('); a_t = s.type(); a = s.value(a_t); s.need(','); b_t = s.type(); b = s.value(b_t); s.need(')')
            return {'add': a+b, 'sub': a-b, 'mul': a*b}[t] & ((1 << a_t.n) - 1)
        raise ParseError("value %s in %s" % (t, ' '.join(s.t)))
    def tv(s):
        t = s.type(); s.attrs(); return t, s.value(t)

M64 = (1 << 64) - 1
def gep_offset(bt, idx):
    """constant byte offset and list of (register, stride)"""
    off = 0; dyn = []
    t = bt
    for k, (it, v) in enumerate(idx):
        if k == 0: stride = t.size
        elif isinstance(t, TArr): t = t.e; stride = t.size
        elif isinstance(t, TStruct):
            off += t.off[v]; t = t.f[v]; continue
        else: raise ParseError("gep into scalar")
        if isinstance(v, str): dyn.append((v, stride, it.n))
        else:
            if v >> (it.n - 1): v -= 1 << it.n
            off += v*stride
    return off, dyn

class Ins:
    __slots__ = ('op', 'dst', 'a', 'b', 'c', 'n', 'x', 'vis', 'ord', 'dbg', 'use', 'tag', 'fn', 'idx', 'blk', 'uid', 'loc', 'line', 'memop')
    def __init__(s, op): s.op = op; s.dst = None; s.a = s.b = s.c = None; s.n = 0; s.x = None; s.vis = False; s.ord = ''; s.dbg = None; s.tag = None; s.uid = None; s.loc=None; s.memop = 0

class Block:
    def __init__(s, name): s.name = name; s.ins = []; s.succ = []; s.phis = []

class Func:
    def __init__(s, name, args): s.name = name; s.args = args; s.blocks = []; s.bi = {}; s.internal = False

class Global:
    def __init__(s, name, ty, init, tls, const): s.name = name; s.ty = ty; s.init = init; s.tls = tls; s.const = const

class Module:
    def __init__(s): s.types = {}; s.typesrc = {}; s.g = {}; s.f = {}; s.decl = {}; s.addrs = {}; s.next = 0x10000; s.fnext = 0x1000; s.fbyaddr = {}; s.dbgline = {}; s.dbgscope = {}
    def gettype(s, n):
        if n not in s.types:
            p = P(tokenize(s.typesrc[n]), s); s.types[n] = p.type()
        return s.types[n]
    def addr(s, n):
        if n in s.addrs: return s.addrs[n]
        if n in s.f or n in s.decl:
            a = s.fnext; s.fnext += 16; s.fbyaddr[a] = n
        else:
            g = s.g.get(n)
            sz = g.ty.size if g else 8
            s.next = (s.next + 127)//64*64
            a = s.next; s.next += max(8, sz) + 64
        s.addrs[n] = a
        return a

def parse(text):
    m = Module()
    lines = text.split('\n')
    # pass 1: types, names
    i = 0; gl = []; fl = []
    while i < len(lines):
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            n, d = l.split(' = type ', 1); m.typesrc[n] = d
        elif l.startswith('@'):
            gl.append(l)
        elif l.startswith('declare'):
            n = re.search(r'(@[-\w$.]+|@"[^"]+")\(', l).group(1); m.decl[n] = l
        elif l.startswith('define'):
            j = i
            while lines[j] != '}': j += 1
            fl.append((i, j)); n = re.search(r'(@[-\w$.]+|@"[^"]+")\(', l).group(1); m.f[n] = None
            i = j
        elif l.startswith('!'):
            mm = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)(?:, column: \d+)?, scope: !(\d+)', l)
            if mm: m.dbgline['!'+mm.group(1)] = (int(mm.group(2)), '!'+mm.group(3))
        i += 1
    for l in gl: parse_global(m, l)
    for a in list(m.g): m.addr(a)
    for g in m.g.values():
        if g.init_p is not None:
            g.cells = init_bytes(m, g)
    for i, j in fl:
        f = parse_func(m, lines[i:j+1], i); m.f[f.name] = f
    m.text = lines
    return m

def parse_global(m, l):
    n, d = l.split(' = ', 1)
    d = re.sub(r', !dbg .*$', '', d)
    tls = 'thread_local' in d.split('{')[0].split('[')[0]
    mm = re.match(r'(.*?)\b(global|constant)\s+(.*)$', d)
    if not mm:
        return
    ext = 'external' in mm.group(1)
    p = P(tokenize(mm.group(3)), m); ty = p.type()
    g = Global(n, ty, None, tls, mm.group(2) == 'constant'); g.init_p = None if ext else p; g.cells = []; g.ext = ext
    m.g[n] = g

def init_bytes(m, g):
    out = bytearray(max(g.ty.size, 8)); p = g.init_p
    ptrs = []
    def rec(ty, off):
        t = p.peek()
        if t in ('zeroinitializer', 'undef', 'poison'): p.next(); return
        if isinstance(ty, TStruct):
            pk = p.eat('<'); p.need('{')
            if not ty.f: p.need('}')
            for k, ft in enumerate(ty.f):
                p.type(); rec(ft, off + ty.off[k])
                p.need(',' if k+1 < len(ty.f) else '}')
            if pk: p.need('>')
        elif isinstance(ty, TArr):
            if t.startswith('c"'):
                s = p.next()[2:-1]; k = 0; b = bytearray()
                while k < len(s):
                    if s[k] == '\\': b.append(int(s[k+1:k+3], 16)); k += 3
                    else: b.append(ord(s[k]) & 255); k += 1
                out[off:off+len(b)] = b
            else:
                p.need('[')
                for k in range(ty.k):
                    p.type(); rec(ty.e, off + k*ty.e.size)
                    p.need(',' if k+1 < ty.k else ']')
        else:
            v = p.value(ty)
            out[off:off+ty.size] = int(v & ((1 << (8*ty.size)) - 1)).to_bytes(ty.size, 'little')
    # initialisers of struct type repeat the (possibly anonymous) type: handled by value grammar
    rec(g.ty, 0)
    return out

RMW = {'xchg','add','sub','and','or','xor','max','min','umax','umin','nand'}
BIN = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'}
CAST = {'zext','sext','trunc','ptrtoint','inttoptr','bitcast'}
ORDS = {'unordered','monotonic','acquire','release','acq_rel','seq_cst'}

def parse_func(m, lines, base=0):
    h = lines[0]
    name = re.search(r'(@[-\w$.]+|@"[^"]+")\(', h).group(1)
    k = h.index(name) + len(name)
    p = P(tokenize(h[k:].split(') ')[0] + ')'), m); p.need('('); args = []
    if not p.eat(')'):
        while True:
            if p.eat('...'): p.need(')'); break
            p.type(); p.attrs(); args.append(p.next())
            if p.eat(')'): break
            p.need(',')
    f = Func(name, args); f.internal = ' internal ' in h
    f.nounnamed = len(args)
    # the entry block is numbered after the arguments, unless named
    b = None
    for ln, l in enumerate(lines[1:-1], base + 1):
        s = l.strip()
        if not s: continue
        mm = re.match(r'((?:[-\w$.]+)|"[^"]+"):', s)
        if mm and not l.startswith(' '):
            b = Block('%' + mm.group(1)); f.bi[b.name] = len(f.blocks); f.blocks.append(b); continue
        if b is None:
            b = Block('%entry0'); f.bi[b.name] = 0; f.blocks.append(b)
            # unnamed numbering: entry = number of unnamed args
            nn = sum(1 for a in args if re.fullmatch(r'%\d+', a)); f.bi['%%%d' % nn] = 0; b.alias = '%%%d' % nn
        ins = parse_ins(m, s, lines)
        if ins is None: continue
        ins.line = ln
        if ins.op == 'phi': b.phis.append(ins)
        else: b.ins.append(ins)
    for bi, b in enumerate(f.blocks):
        t = b.ins[-1]
        for k, ins in enumerate(b.ins): ins.idx = k; ins.blk = bi; ins.fn = f; ins.uid = '%s:%d:%d' % (f.name, bi, k)
        if t.op == 'br': t.x = [f.bi[x] for x in t.x]; b.succ = list(t.x)
        elif t.op == 'switch':
            t.x = [(v, f.bi[x]) for v, x in t.x]; b.succ = [x for v, x in t.x]
        else: b.succ = []
        for ph in b.phis: ph.x = {f.bi[x]: v for v, x in ph.x}
    f.blocks_n = len(f.blocks)
    wto(f); liveness(f)
    return f

def split_dbg(s):
    mm = re.search(r', !dbg (!\d+)', s)
    d = mm.group(1) if mm else None
    s = re.sub(r'(, ![\w.]+ !\d+)+$', '', s)
    return s, d

def parse_ins(m, s, lines):
    if s.startswith('#dbg') or s.startswith(';'): return None
    if s.startswith('switch') is False:
        s, dbg = split_dbg(s)
    else: dbg = None
    if s.startswith('],') or s == ']' or re.match(r'i\d+ -?\d+, label', s): return None
    p = P(tokenize(s), m)
    dst = None
    if p.peek(1) == '=':
        dst = p.next(); p.next()
    p.attrs()
    op = p.next()
    I = Ins(op); I.dst = dst; I.dbg = dbg; I.loc = m.dbgline.get(dbg)
    while op == 'call' and p.peek() in P.ATTRS: p.next()
    if op == 'br':
        if p.eat('label'): I.x = [p.next()]; I.a = None
        else:
            t, I.a = p.tv(); p.need(','); p.need('label'); x = p.next(); p.need(','); p.need('label'); I.x = [x, p.next()]
    elif op == 'switch':
        t, I.a = p.tv(); I.n = t.n; p.need(','); p.need('label'); d = p.next()
        # cases are on the following lines
        k = next(q for q, ll in enumerate(lines) if ll.strip() == s.strip() and True)
        cs = []
        k += 1
        while not lines[k].strip().startswith(']'):
            mm = re.match(r'i\d+ (-?\d+), label (%[-\w$.]+)', lines[k].strip()); cs.append((int(mm.group(1)) & ((1 << t.n)-1), mm.group(2))); k += 1
        I.x = cs + [(None, d)]
    elif op == 'ret':
        if p.eat('void'): I.a = None
        else: t, I.a = p.tv(); I.n = getattr(t, 'n', 0)
    elif op == 'unreachable': pass
    elif op == 'alloca':
        t = p.type(); cnt = 1; al = t.align
        while p.eat(','):
            if p.eat('align'): al = int(p.next())
            else: ct, cnt = p.tv()
        if isinstance(cnt, str): raise ParseError("dynamic alloca")
        I.n = t.size*cnt; I.x = al
    elif op == 'load':
        at = p.eat('atomic'); p.attrs(); t = p.type(); p.need(','); p.type(); I.a = p.value(PTR); I.n = t.n; I.x = at
        while p.peek() and p.peek() != ',':
            o = p.next()
            if o in ORDS: I.ord = o
        I.tag = isinstance(t, (TStruct, TArr)) and t or None
    elif op == 'store':
        at = p.eat('atomic'); p.attrs(); t, I.b = p.tv(); p.need(','); p.type(); I.a = p.value(PTR); I.n = t.n; I.x = at
        while p.peek() and p.peek() != ',':
            o = p.next()
            if o in ORDS: I.ord = o
    elif op == 'getelementptr':
        p.attrs(); bt = p.type(); p.need(','); p.type(); I.a = p.value(PTR); idx = []
        while p.eat(','): 
            it = p.type(); idx.append((it, p.value(it)))
        off, dyn = gep_offset(bt, idx); I.n = off; I.x = dyn
        I.tag = s[s.index('getelementptr'):]
        mm = re.search(r'getelementptr (?:inbounds )?(%[-\w.]+), ptr [^,]+, i32 0, i32 (\d+)', s)
        I.c = (mm.group(1), int(mm.group(2))) if mm else None
    elif op in BIN:
        p.attrs(); t, I.a = p.tv(); p.need(','); I.b = p.value(t); I.n = t.n
    elif op == 'icmp':
        I.x = p.next()
        if I.x == 'samesign': I.x = p.next()
        t, I.a = p.tv(); p.need(','); I.b = p.value(t); I.n = t.n
    elif op in CAST:
        p.attrs(); t, I.a = p.tv(); p.need('to'); tt = p.type(); I.n = t.n; I.x = tt.n
    elif op == 'select':
        t, I.a = p.tv(); p.need(','); t, I.b = p.tv(); p.need(','); t, I.c = p.tv()
    elif op == 'freeze':
        t, I.a = p.tv(); I.op = 'bitcast'; I.n = I.x = t.n
    elif op == 'phi':
        t = p.type(); I.x = []
        while True:
            p.need('['); v = p.value(t); p.need(','); x = p.next(); p.need(']'); I.x.append((v, x))
            if not p.eat(','): break
    elif op == 'extractvalue':
        t, I.a = p.tv(); p.need(','); I.x = int(p.next())
    elif op == 'cmpxchg':
        I.x = 'weak' if p.eat('weak') else 'strong'; p.attrs()
        p.type(); I.a = p.value(PTR); p.need(','); t, I.b = p.tv(); p.need(','); t, I.c = p.tv(); I.n = t.n
        I.ord = p.next(); I.tag = p.next()
    elif op == 'atomicrmw':
        p.attrs(); I.x = p.next(); p.type(); I.a = p.value(PTR); p.need(','); t, I.b = p.tv(); I.n = t.n; I.ord = p.next()
    elif op == 'fence':
        I.ord = p.next()
        if I.ord == 'syncscope': raise ParseError("singlethread fence")
    elif op == 'call':
        # [cconv] [ret attrs] ty|fnty fnptrval(args)
        if p.peek() == 'asm' or 'asm ' in s: 
            raise ParseError("inline asm: " + s)
        p.attrs(); t = p.type(); I.n = getattr(t, 'n', 0); I.x = t
        c = p.next()
        if c == 'asm': raise ParseError("inline asm")
        if c[0] == '@': I.a = c
        elif c[0] == '%': I.a = c
        else:
            p.i -= 1; I.a = p.value(PTR)
        p.need('('); args = []
        if not p.eat(')'):
            while True:
                t = p.type(); p.attrs()
                if t is VOID: # metadata
                    return None
                args.append(p.value(t))
                if p.eat(')'): break
                p.need(',')
        I.b = args
        if isinstance(I.a, str) and I.a.startswith('@llvm.'):
            if I.a.startswith(('@llvm.dbg', '@llvm.lifetime', '@llvm.assume', '@llvm.stacksave', '@llvm.stackrestore', '@llvm.donothing')): return None
    elif op in ('fadd','fsub','fmul','fdiv','uitofp','sitofp','fptoui','fptosi','fcmp','fpext','fptrunc','fneg'):
        I.op = 'float'; I.tag = op
    elif op == 'insertvalue':
        raise ParseError("insertvalue")
    else: raise ParseError("instruction " + s)
    return I

# ---------------------------------------------------------------- loops
def wto(f):
    """Bourdoncle's weak topological order.  key[b]: list of positions, with
    loop nesting; heads[b]: enclosing loop heads (outermost first)."""
    n = len(f.blocks); succ = [b.succ for b in f.blocks]
    import sys
    sys.setrecursionlimit(10000)
    dfn = [0]*n; num = [0]; stack = []
    def component(v):
        part = []
        for w in succ[v]:
            if dfn[w] == 0: visit(w, part)
        part.reverse()
        return (v, part)
    def visit(v, part):
        stack.append(v); num[0] += 1; dfn[v] = num[0]; head = num[0]; loop = False
        for w in succ[v]:
            mn = visit(w, part) if dfn[w] == 0 else dfn[w]
            if mn <= head: head = mn; loop = True
        if head == dfn[v]:
            dfn[v] = 1 << 60
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0; e = stack.pop()
                part.append(component(v))
            else: part.append(v)
        return head
    top = []
    visit(0, top); top.reverse()
    f.heads = [()]*n; f.pos = [None]*n
    def rec(part, heads, pre):
        for k, e in enumerate(part):
            if isinstance(e, tuple):
                h, sub = e
                f.heads[h] = heads + (h,); f.pos[h] = pre + [k, 0]
                rec2(sub, heads + (h,), pre + [k])
            else:
                f.heads[e] = heads; f.pos[e] = pre + [k]
    def rec2(part, heads, pre):
        for k, e in enumerate(part):
            if isinstance(e, tuple):
                h, sub = e
                f.heads[h] = heads + (h,); f.pos[h] = pre + [k+1, 0]
                rec2(sub, heads + (h,), pre + [k+1])
            else:
                f.heads[e] = heads; f.pos[e] = pre + [k+1]
    rec(top, (), [])
    # edges: (u,v) -> (number of kept iteration counters, is back edge)
    f.edge = {}
    for u in range(n):
        if f.pos[u] is None: continue
        for v in succ[u]:
            hu, hv = f.heads[u], f.heads[v]
            back = len(hv) > 0 and hv[-1] == v and v in hu
            d = 0
            while d < len(hu) and d < len(hv) and hu[d] == hv[d]: d += 1
            f.edge[(u, v)] = (d, back, len(hv))
    # loops without visible operations or calls are local
    f.loopbody = {}
    for b in range(n):
        for h in f.heads[b]: f.loopbody.setdefault(h, []).append(b)

def uses(I):
    r = []
    for o in (I.a, I.b, I.c):
        if o.__class__ is str and o[0] == '%': r.append(o)
        elif o.__class__ is list: r += [x for x in o if x.__class__ is str and x[0] == '%']
    if I.op == 'getelementptr': r += [x[0] for x in I.x]
    return r

def liveness(f):
    n = len(f.blocks)
    gen = []; kill = []
    for b in f.blocks:
        g = set(); k = set()
        for ph in b.phis: k.add(ph.dst)
        for I in b.ins:
            for u in uses(I):
                if u not in k: g.add(u)
            if I.dst: k.add(I.dst)
        gen.append(g); kill.append(k)
    livein = [set() for _ in range(n)]; liveout = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n-1, -1, -1):
            o = set()
            for s in f.blocks[b].succ:
                o |= livein[s]
                for ph in f.blocks[s].phis:
                    v = ph.x.get(b)
                    if v.__class__ is str: o.add(v)
            i = gen[b] | (o - kill[b])
            if o != liveout[b] or i != livein[b]:
                liveout[b] = o; livein[b] = i; ch = True
    f.live = []
    for b in range(n):
        blk = f.blocks[b]
        L = [None]*(len(blk.ins)+1); cur = set(liveout[b]); L[len(blk.ins)] = frozenset(cur)
        for k in range(len(blk.ins)-1, -1, -1):
            I = blk.ins[k]
            cur.discard(I.dst); cur.update(uses(I)); L[k] = frozenset(cur)
        f.live.append(L)

if __name__ == '__main__':
    import sys
    m = parse(open(sys.argv[1]).read())
    for f in m.f.values(): print(f.name, len(f.blocks), sum(len(b.ins) for b in f.blocks), 'loops', sorted(f.loopbody))

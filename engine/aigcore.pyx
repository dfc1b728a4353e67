# cython: language_level=3, boundscheck=False, wraparound=False
# distutils: language = c++
"""And-inverter graph with structural hashing, 256-bit parallel simulation and
an incremental SAT interface (z3's QF_FD solver through the C API).

Literals: 0 = false, 1 = true, 2n / 2n+1 = node n / its negation."""
from libcpp.vector cimport vector
from libcpp.unordered_map cimport unordered_map
from libc.stdint cimport uint64_t, uint32_t, int32_t
import time

cdef extern from "sat.h":
    cdef cppclass Sat:
        int newvar()
        void add(vector[int])
        int solve(int, vector[int]&, long) nogil
        void cancel(int)
        vector[signed char] val
        vector[char] phase
        vector[int] stamp
        int cur
        long conflicts, props

cdef extern from *:
    """
    static const unsigned int INP_ = 0xffffffffu;
    """
    const uint32_t INP_
DEF WORDS = 4

cdef class Aig:
    cdef vector[uint32_t] f0, f1          # fanins; f0==f1==INP_ for inputs
    cdef vector[uint64_t] sim
    cdef unordered_map[uint64_t, uint32_t] hash_
    cdef vector[uint32_t] inputs
    cdef uint64_t rs
    cdef Sat s
    cdef vector[char] enc                 # node has clauses in the solver
    cdef vector[int] cone
    cdef vector[uint32_t] mark
    cdef uint32_t mk
    cdef int col
    cdef public object names              # name -> literal
    cdef public object fixed              # name -> bool (concrete replay) or None
    cdef public long n_sat, n_unsat, n_simhit
    cdef public double t_sat
    cdef public long qlimit, n_unk
    cdef object satcache
    cdef public list unsat_lits           # decided unsatisfiable (for cross-checking)

    def __cinit__(self):
        self.rs = <uint64_t>0x9E3779B97F4A7C15
        self.f0.push_back(0); self.f1.push_back(0)
        for i in range(WORDS): self.sim.push_back(0)
        self.enc.push_back(0); self.mark.push_back(0); self.mk = 0; self.s.newvar()
        self.col = 0
        self.names = {}
        self.fixed = None
        self.n_sat = self.n_unsat = self.n_simhit = 0
        self.t_sat = 0
        self.qlimit = 0; self.n_unk = 0
        self.satcache = {}
        self.unsat_lits = []

    cdef uint64_t rnd(self):
        self.rs ^= self.rs << 13; self.rs ^= self.rs >> 7; self.rs ^= self.rs << 17
        return self.rs

    def nodes(self): return self.f0.size()
    def ninputs(self): return self.inputs.size()

    cdef uint32_t newnode(self, uint32_t a, uint32_t b):
        cdef uint32_t n = <uint32_t>self.f0.size()
        self.f0.push_back(a); self.f1.push_back(b)
        self.enc.push_back(0); self.mark.push_back(0); self.s.newvar()
        return n

    def input(self, name, double bias=0.5):
        """literal of the boolean variable `name` (created at first use)"""
        l = self.names.get(name)
        if l is not None: return l
        if self.fixed is not None:
            l = 1 if self.fixed.get(name, False) else 0
            self.names[name] = l
            return l
        cdef uint32_t n = self.newnode(INP_, INP_)
        self.inputs.push_back(n)
        cdef int i
        cdef uint64_t r
        for i in range(WORDS):
            r = self.rnd()
            if bias < 0.2: r &= self.rnd() & self.rnd()
            self.sim.push_back(r)
        l = 2*n
        self.names[name] = l
        return l

    cpdef uint32_t and_(self, uint32_t a, uint32_t b):
        cdef uint32_t t, n, na, nb
        cdef int i
        if a > b: t = a; a = b; b = t
        if a == 0 or a == (b ^ 1): return 0
        if a == 1 or a == b: return b
        # two-level rules: b is the younger literal
        nb = b >> 1
        if self.f0[nb] != INP_:
            if not (b & 1):
                if self.f0[nb] == a or self.f1[nb] == a: return b
                if self.f0[nb] == (a ^ 1) or self.f1[nb] == (a ^ 1): return 0
            else:
                if self.f0[nb] == (a ^ 1) or self.f1[nb] == (a ^ 1): return a
                if self.f0[nb] == a: return self.and_(a, self.f1[nb] ^ 1)
                if self.f1[nb] == a: return self.and_(a, self.f0[nb] ^ 1)
        na = a >> 1
        if self.f0[na] != INP_ and na != 0:
            if not (a & 1):
                if self.f0[na] == (b ^ 1) or self.f1[na] == (b ^ 1): return 0
            if not (a & 1) and not (b & 1) and self.f0[nb] != INP_:
                if (self.f0[na] == (self.f0[nb] ^ 1) or self.f0[na] == (self.f1[nb] ^ 1)
                        or self.f1[na] == (self.f0[nb] ^ 1) or self.f1[na] == (self.f1[nb] ^ 1)): return 0
            if (a & 1) and (b & 1) and self.f0[nb] != INP_:
                if self.f0[na] == self.f0[nb] and self.f1[na] == (self.f1[nb] ^ 1): return self.f0[na] ^ 1
                if self.f1[na] == self.f1[nb] and self.f0[na] == (self.f0[nb] ^ 1): return self.f1[na] ^ 1
                if self.f0[na] == self.f1[nb] and self.f1[na] == (self.f0[nb] ^ 1): return self.f0[na] ^ 1
                if self.f1[na] == self.f0[nb] and self.f0[na] == (self.f1[nb] ^ 1): return self.f1[na] ^ 1
        cdef uint64_t key = (<uint64_t>a << 32) | b
        cdef unordered_map[uint64_t, uint32_t].iterator it = self.hash_.find(key)
        if it != self.hash_.end():
            return self.hash_[key]
        n = self.newnode(a, b)
        na = a >> 1; nb = b >> 1
        cdef uint64_t ma = <uint64_t>0 - <uint64_t>(a & 1)
        cdef uint64_t mb = <uint64_t>0 - <uint64_t>(b & 1)
        for i in range(WORDS):
            self.sim.push_back((self.sim[na*WORDS+i] ^ ma) & (self.sim[nb*WORDS+i] ^ mb))
        self.hash_[key] = 2*n
        return 2*n

    cpdef uint32_t or_(self, uint32_t a, uint32_t b):
        return self.and_(a ^ 1, b ^ 1) ^ 1

    cpdef uint32_t ite(self, uint32_t c, uint32_t a, uint32_t b):
        if a == b: return a
        return self.and_(self.and_(c, a) ^ 1, self.and_(c ^ 1, b) ^ 1) ^ 1

    # ---- guarded values: int, or tuple of (guard, int) with exclusive guards
    cpdef mux(self, uint32_t g, new, old):
        """new under g, old elsewhere"""
        cdef uint32_t h, ng
        if g == 1: return new
        if g == 0 or new is old: return old
        if type(new) is int and type(old) is int:
            if new == old: return old
            return ((g, new), (g ^ 1, old))
        cdef dict d = {}
        if type(new) is int: d[new] = g
        else:
            for h, v in new:
                h = self.and_(g, h)
                if h: d[v] = self.or_(h, d[v]) if v in d else h
        ng = g ^ 1
        if type(old) is int:
            d[old] = self.or_(ng, d[old]) if old in d else ng
        else:
            for h, v in old:
                h = self.and_(ng, h)
                if h: d[v] = self.or_(h, d[v]) if v in d else h
        return self.pack(d)

    cpdef pack(self, dict d):
        cdef list r = []
        for v, h in d.items():
            if h: r.append((h, v))
        if len(r) == 1: return r[0][1]
        if not r: return 0
        return tuple(r)

    cpdef merge2(self, uint32_t g1, v1, uint32_t g2, v2):
        """value of the union of two exclusive contexts"""
        cdef uint32_t h
        if v1 is v2: return v1
        if type(v1) is int and type(v2) is int:
            if v1 == v2: return v1
            return ((g1, v1), (g2, v2))
        cdef dict d = {}
        if type(v1) is int: d[v1] = g1
        else:
            for h, v in v1:
                h = self.and_(g1, h)
                if h: d[v] = h
        if type(v2) is int:
            d[v2] = self.or_(g2, d[v2]) if v2 in d else g2
        else:
            for h, v in v2:
                h = self.and_(g2, h)
                if h: d[v] = self.or_(h, d[v]) if v in d else h
        return self.pack(d)

    cpdef prune(self, uint32_t g, v):
        """drop entries impossible under g"""
        cdef uint32_t h
        if type(v) is int: return v
        cdef list r = []
        for h, x in v:
            if self.feasible(self.and_(g, h)): r.append((h, x))
        if len(r) == 1: return r[0][1]
        if not r: return 0
        return tuple(r)

    cpdef lit(self, v):
        """guarded 0/1 value -> literal"""
        cdef uint32_t h, r = 0
        if type(v) is int: return 1 if v & 1 else 0
        for h, x in v:
            if x & 1: r = self.or_(r, h)
        return r

    cdef void encode(self, uint32_t root):
        """clauses of the cone of root; collects the cone"""
        cdef vector[uint32_t] st
        cdef vector[int] c2, c3
        cdef uint32_t n, a, b
        c2.resize(2); c3.resize(3)
        self.mk += 1
        self.cone.clear()
        st.push_back(root >> 1); self.mark[root >> 1] = self.mk
        while st.size():
            n = st.back(); st.pop_back()
            self.cone.push_back(<int>n)
            if n == 0:
                if not self.enc[0]:
                    self.enc[0] = 1
                    c2.resize(1); c2[0] = 1; self.s.add(c2); c2.resize(2)
                continue
            a = self.f0[n]; b = self.f1[n]
            if a == INP_: continue
            if not self.enc[n]:
                self.enc[n] = 1
                c2[0] = 2*n+1; c2[1] = a; self.s.add(c2)
                c2[1] = b; self.s.add(c2)
                c3[0] = 2*n; c3[1] = a ^ 1; c3[2] = b ^ 1; self.s.add(c3)
            if self.mark[a >> 1] != self.mk: self.mark[a >> 1] = self.mk; st.push_back(a >> 1)
            if self.mark[b >> 1] != self.mk: self.mark[b >> 1] = self.mk; st.push_back(b >> 1)

    cdef bint simsat(self, uint32_t l):
        cdef int i
        cdef uint64_t m = <uint64_t>0 - <uint64_t>(l & 1)
        cdef uint32_t n = l >> 1
        for i in range(WORDS):
            if self.sim[n*WORDS+i] ^ m: return True
        return False

    cpdef bint feasible(self, uint32_t l):
        """is the literal satisfiable?"""
        if l == 0: return False
        if l == 1: return True
        if self.simsat(l):
            self.n_simhit += 1
            return True
        r = self.satcache.get(l)
        if r is not None: return r
        r = self.solve(l, self.qlimit)
        self.satcache[l] = r
        return r

    def implied(self, uint32_t g, uint32_t l):
        """g -> l ?"""
        return not self.feasible(self.and_(g, l ^ 1))

    cpdef solve(self, uint32_t l, long limit=0):
        cdef int r
        cdef vector[int] cu
        t0 = time.perf_counter()
        self.s.cancel(0)
        self.encode(l)
        self.s.cur += 1
        with nogil:
            r = self.s.solve(<int>l, self.cone, limit)
        if r < 0:
            self.t_sat += time.perf_counter() - t0
            self.s.cancel(0)
            self.n_unk += 1
            return True
        if r == 1:
            self.n_sat += 1
            self.absorb()
        else:
            self.n_unsat += 1
            self.unsat_lits.append(l)
            if not (l & 1) and self.f0[l >> 1] != INP_:
                self.hash_[(<uint64_t>self.f0[l >> 1] << 32) | self.f1[l >> 1]] = 0
                cu.resize(1); cu[0] = <int>(l ^ 1); self.s.cancel(0); self.s.add(cu)
        self.s.cancel(0)
        self.t_sat += time.perf_counter() - t0
        return r == 1

    cdef void absorb(self):
        """put the model into one simulation column"""
        cdef uint32_t n, i
        cdef int w = self.col >> 6
        cdef uint64_t bit = <uint64_t>1 << (self.col & 63)
        for i in range(self.cone.size()):
            n = self.cone[i]
            if self.f0[n] != INP_ or n == 0: continue
            if self.s.val[2*n] == 1: self.sim[n*WORDS+w] |= bit
            elif self.s.val[2*n] == -1: self.sim[n*WORDS+w] &= ~bit
        self.resim(w)
        self.col = (self.col + 1) % (64*WORDS)

    def model(self, uint32_t l):
        """solve for l; {input name: bool} or None"""
        if l == 0: return None
        self.s.cancel(0)
        self.encode(l); self.s.cur += 1
        r = self.s.solve(<int>l, self.cone, 0)
        if r == 0: return None
        out = {}
        names = {q >> 1: k for k, q in self.names.items() if q > 1}
        for i in range(self.cone.size()):
            n = self.cone[i]
            if self.f0[n] == INP_ and n: out[names[n]] = self.s.val[2*n] == 1
        bad = 0
        for i in range(self.cone.size()):
            n = self.cone[i]
            if n == 0 or self.f0[n] == INP_: continue
            x = self.s.val[self.f0[n]] == 1 and self.s.val[self.f1[n]] == 1
            if x != (self.s.val[2*n] == 1): bad += 1
        if bad: raise RuntimeError('SAT model does not satisfy %d of %d gates' % (bad, self.cone.size()))
        self.s.cancel(0)
        return out

    def conflicts(self): return self.s.conflicts

    cdef void resim(self, int w):
        cdef uint32_t n, x, y
        for n in range(1, <uint32_t>self.f0.size()):
            x = self.f0[n]
            if x == INP_: continue
            y = self.f1[n]
            self.sim[n*WORDS+w] = ((self.sim[(x>>1)*WORDS+w] ^ (<uint64_t>0 - <uint64_t>(x & 1)))
                                 & (self.sim[(y>>1)*WORDS+w] ^ (<uint64_t>0 - <uint64_t>(y & 1))))

    def eval_model(self, model_inputs, lits):
        """values of literals under {input node: bool}"""
        cdef vector[char] val
        cdef uint32_t n, x, y
        cdef size_t total = self.f0.size()
        val.resize(total, 0)
        for k, v in model_inputs.items():
            if v:
                n = k; val[n] = 1
        for n in range(1, total):
            x = self.f0[n]
            if x == INP_: continue
            y = self.f1[n]
            val[n] = (val[x >> 1] ^ (x & 1)) & (val[y >> 1] ^ (y & 1))
        out = []
        for k in lits:
            n = k
            out.append(bool(val[n >> 1] ^ (n & 1)))
        return out

    def dimacs(self, uint32_t root, path):
        """Tseitin CNF of the cone of root, with root asserted. Returns {node: var}, clauses"""
        cdef vector[uint32_t] st
        cdef vector[char] seen
        cdef vector[uint32_t] order
        cdef uint32_t n
        seen.resize(self.f0.size())
        st.push_back(root >> 1); seen[root >> 1] = 1
        while st.size():
            n = st.back(); st.pop_back()
            order.push_back(n)
            if n and self.f0[n] != INP_:
                if not seen[self.f0[n]>>1]: seen[self.f0[n]>>1] = 1; st.push_back(self.f0[n]>>1)
                if not seen[self.f1[n]>>1]: seen[self.f1[n]>>1] = 1; st.push_back(self.f1[n]>>1)
        cdef vector[int32_t] var
        var.resize(self.f0.size())
        cdef int32_t k = 0, v, a, b
        for n in order:
            k += 1; var[n] = k
        out = []
        nc = 1
        ins = {}
        for n in order:
            v = var[n]
            if n == 0:
                out.append("-%d 0\n" % v); nc += 1
            elif self.f0[n] == INP_:
                ins[int(n)] = int(v)
            else:
                a = var[self.f0[n]>>1]
                if self.f0[n] & 1: a = -a
                b = var[self.f1[n]>>1]
                if self.f1[n] & 1: b = -b
                out.append("-%d %d 0\n-%d %d 0\n%d %d %d 0\n" % (v, a, v, b, v, -a, -b)); nc += 3
        rl = var[root>>1]
        if root & 1: rl = -rl
        out.append("%d 0\n" % rl)
        with open(path, "w") as f:
            f.write("p cnf %d %d\n" % (k, nc))
            f.write("".join(out))
        return ins, int(k), int(nc)

    def input_names(self):
        return {l >> 1: k for k, l in self.names.items() if l > 1}

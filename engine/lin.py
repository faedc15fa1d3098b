"""Bit-vector terms -> integer linear arithmetic (exact machine semantics, mod 2^w made explicit).

Every bit-vector term becomes a linear form over integer atoms.  Wrap-around introduces a carry
atom, an extract introduces the higher part as an atom, a product of two variables is an atom p
with the interval bounds of the product (over-approximation: only used to show unsat).
"""
import time
import z3
from . import terms as T
from . import smt


class LF:
    """linear form: const + sum coef*atom"""
    __slots__ = ("c", "m")

    def __init__(self, c=0, m=None):
        self.c = c
        self.m = m or {}

    def add(self, o, k=1):
        if k == 0:
            return self
        m = dict(self.m)
        for a, q in o.m.items():
            v = m.get(a, 0) + k * q
            if v:
                m[a] = v
            else:
                m.pop(a, None)
        return LF(self.c + k * o.c, m)

    def scale(self, k):
        if k == 0:
            return LF(0)
        return LF(self.c * k, {a: q * k for a, q in self.m.items()})

    def key(self):
        return (self.c, tuple(sorted(self.m.items())))


class Lin:
    def __init__(self, lemma_ms=3000, lemmas=True):
        self.atoms = []        # (name, z3var, lo, hi)
        self.cons = []         # (set of atoms, z3 constraint)
        self.lf = {}           # term id -> LF
        self.bl = {}           # bool term id -> z3 bool
        self.cuts = {}         # base id -> {pos: LF of (base >> pos)}
        self.prods = {}
        self.approx = False
        self.varatoms = {}     # atom index -> ('v'|'bv', name)
        self.boolatoms = {}
        self.lemma_ms = lemma_ms
        self.lemmas = lemmas
        self.nlemmas = 0
        self.term_of_atom = {}

    # ---- atoms
    def atom(self, name, lo, hi):
        i = len(self.atoms)
        v = z3.Int("%s#%d" % (name, i))
        self.atoms.append((name, v, lo, hi))
        return LF(0, {i: 1})

    def z(self, lf):
        ts = [self.atoms[a][1] * q if q != 1 else self.atoms[a][1] for a, q in lf.m.items()]
        if lf.c or not ts:
            ts.append(z3.IntVal(lf.c))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def bounds(self, lf):
        lo = hi = lf.c
        for a, q in lf.m.items():
            _, _, l, h = self.atoms[a]
            if q > 0:
                lo += q * l
                hi += q * h
            else:
                lo += q * h
                hi += q * l
        return lo, hi

    def con(self, lf_list, z):
        s = set()
        for l in lf_list:
            s |= set(l.m)
        self.cons.append((s, z))

    def inrange(self, lf, lo, hi):
        """constrain lo <= lf <= hi unless implied by atom bounds"""
        bl, bh = self.bounds(lf)
        e = None
        if bl < lo:
            e = self.z(lf)
            self.con([lf], e >= lo)
        if bh > hi:
            e = self.z(lf) if e is None else e
            self.con([lf], e <= hi)

    def solver(self, seed_atoms=None, ms=3000):
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", ms)
        if seed_atoms is None:
            use = range(len(self.atoms))
            cs = [z for _, z in self.cons]
        else:
            use = set(seed_atoms)
            chosen = [False] * len(self.cons)
            ch = True
            while ch:
                ch = False
                for i, (at, z) in enumerate(self.cons):
                    if not chosen[i] and (at & use):
                        chosen[i] = True
                        if not at <= use:
                            use |= at
                            ch = True
            cs = [z for i, (_, z) in enumerate(self.cons) if chosen[i]]
        for a in use:
            _, v, lo, hi = self.atoms[a]
            s.add(v >= lo, v <= hi)
        s.add(*cs)
        return s

    def prove_le(self, lf, bound):
        """try to show lf <= bound from the constraints so far"""
        lo, hi = self.bounds(lf)
        if hi <= bound:
            return True
        if not self.lemmas:
            return False
        self.nlemmas += 1
        t0 = time.time()
        s = self.solver(lf.m, self.lemma_ms)
        s.add(self.z(lf) >= bound + 1)
        r = s.check() == z3.unsat
        smt.STATS["queries"] += 1
        smt.STATS["time"] += time.time() - t0
        smt.STATS["unsat" if r else "unknown"] += 1
        return r

    # ---- terms
    def L(self, t):
        r = self.lf.get(t.id)
        if r is None:
            for x in T.postorder([t]):
                if x.w == 0:
                    continue
                if x.id not in self.lf:
                    self.lf[x.id] = self.one(x)
            r = self.lf[t.id]
        return r

    def shr(self, base, pos):
        """LF of floor(base / 2^pos)"""
        if pos == 0:
            return self.L(base)
        if pos >= base.w or base.hi < (1 << pos):
            return LF(0)
        d = self.cuts.setdefault(base.id, {})
        if pos in d:
            return d[pos]
        # relative to the next lower cut already present (or the base itself)
        lowers = [p for p in d if p < pos]
        p0 = max(lowers) if lowers else 0
        src = d[p0] if lowers else self.L(base)
        slo, shi = self.bounds(src)
        shi = min(shi, base.hi >> p0)
        k = pos - p0
        # exact division of the linear form?
        if all(q % (1 << k) == 0 for q in src.m.values()) and 0 <= src.c % (1 << k):
            q = LF(src.c >> k, {a: v >> k for a, v in src.m.items()})
            d[pos] = q
            return q
        hi = shi >> k
        if 0 < hi <= 4 and self.prove_le(src, (1 << k) - 1):
            hi = 0
        if hi == 0:
            d[pos] = LF(0)
            return d[pos]
        h = self.atom("hi%d_%d" % (base.id, pos), max(0, slo >> k), hi)
        low = src.add(h, -(1 << k))
        self.con([low], self.z(low) >= 0)
        self.con([low], self.z(low) <= (1 << k) - 1)
        d[pos] = h
        # relation with the next higher cut
        highers = [p for p in d if p > pos]
        if highers:
            p1 = min(highers)
            rel = h.add(d[p1], -(1 << (p1 - pos)))
            self.con([rel], self.z(rel) >= 0)
            self.con([rel], self.z(rel) <= (1 << (p1 - pos)) - 1)
        return h

    def prod(self, x, y):
        """product of two linear forms as linear form over product atoms"""
        r = LF(x.c * y.c)
        for a, q in x.m.items():
            if y.c:
                r = r.add(LF(0, {a: q * y.c}))
        for b, q in y.m.items():
            if x.c:
                r = r.add(LF(0, {b: q * x.c}))
        if len(x.m) * len(y.m) > 4096:
            return None
        for a, q in x.m.items():
            for b, p in y.m.items():
                k = (a, b) if a <= b else (b, a)
                pa = self.prods.get(k)
                if pa is None:
                    _, va, la, ha = self.atoms[k[0]]
                    _, vb, lb, hb = self.atoms[k[1]]
                    cs = [la * lb, la * hb, ha * lb, ha * hb]
                    if ha <= 1 and la >= 0 or hb <= 1 and lb >= 0:
                        # gated atom
                        bi, oi = (k[0], k[1]) if (ha <= 1 and la >= 0) else (k[1], k[0])
                        pa = self.atom("g", min(cs + [0]), max(cs + [0]))
                        ai = next(iter(pa.m))
                        pv = self.atoms[ai][1]
                        bv = self.atoms[bi][1]
                        ov = self.atoms[oi][1]
                        self.cons.append(({ai, bi, oi}, z3.Or(z3.And(bv == 0, pv == 0), z3.And(bv == 1, pv == ov))))
                    else:
                        pa = self.atom("p", min(cs), max(cs))
                        self.approx = True
                    self.prods[k] = pa
                r = r.add(pa, q * p)
        return r

    def wrap(self, lf, w, tag):
        """reduce lf mod 2^w (lf exact integer) -> LF in [0,2^w)"""
        lo, hi = self.bounds(lf)
        M = 1 << w
        if lo >= 0 and hi < M:
            return lf
        klo, khi = lo >> w, hi >> w
        if klo == 0 and khi <= 2 and self.prove_le(lf, M - 1):
            return lf
        if klo == khi:
            return lf.add(LF(klo), -M)
        c = self.atom(tag, klo, khi)
        r = lf.add(c, -M)
        self.con([r], self.z(r) >= 0)
        self.con([r], self.z(r) <= M - 1)
        return r

    def one(self, t):
        op, w = t.op, t.w
        if op == "c":
            return LF(t.k)
        if op == "v":
            r = self.atom(t.k, t.lo, t.hi)
            self.varatoms[next(iter(r.m))] = ("v", t.k)
            return r
        if op == "cat":
            r = LF(0)
            pos = w
            for p in t.a:
                pos -= p.w
                r = r.add(self.L(p), 1 << pos)
            return r
        if op == "ext":
            base = t.a[0]
            hi, lo = t.k
            a = self.shr(base, lo)
            b = self.shr(base, hi + 1)
            return a.add(b, -(1 << (hi - lo + 1)))
        if op == "add":
            return self.wrap(self.L(t.a[0]).add(self.L(t.a[1])), w, "cy")
        if op == "sub":
            return self.wrap(self.L(t.a[0]).add(self.L(t.a[1]), -1), w, "bw")
        if op == "bvnot":
            return LF((1 << w) - 1).add(self.L(t.a[0]), -1)
        if op == "mul":
            x, y = t.a
            if y.op == "c":
                k = y.k
                if k >> (w - 1):
                    k -= 1 << w          # treat as negative constant
                return self.wrap(self.L(x).scale(k), w, "mk")
            p = self.prod(self.L(x), self.L(y))
            if p is None:
                return self.opaque(t)
            return self.wrap(p, w, "mw")
        if op == "b2v":
            return self.b2i(t.a[0])
        if op == "ite":
            c, a, b = t.a
            la, lb = self.L(a), self.L(b)
            d = la.add(lb, -1)
            bi = self.b2i(c)
            if not d.m:
                return lb.add(bi, d.c)
            if not bi.m:
                return la if bi.c else lb
            zc = self.B(c)
            # x - y under "not x < y" and similar: plain ite atom
            r = self.atom("ite", t.lo, t.hi)
            # r = lb + g, with g = c ? d : 0
            self.con([r, la, lb, bi], z3.Implies(zc, self.z(r) == self.z(la)))
            self.con([r, la, lb, bi], z3.Implies(z3.Not(zc), self.z(r) == self.z(lb)))
            return r
        if op == "udiv" or op == "urem":
            x, y = t.a
            if y.op == "c" and y.k:
                key = ("dm", x.id, y.id)
                q = self.cuts.get(key)
                if q is None:
                    q = self.atom("q", x.lo // y.k, x.hi // y.k)
                    r = self.L(x).add(q, -y.k)
                    self.con([r], self.z(r) >= 0)
                    self.con([r], self.z(r) <= y.k - 1)
                    self.cuts[key] = q
                return q if op == "udiv" else self.L(x).add(q, -y.k)
            return self.opaque(t)
        if op == "shl":
            x, n = t.a
            return self.opaque(t)
        return self.opaque(t)

    def opaque(self, t):
        self.approx = True
        return self.atom("opq%d" % t.id, t.lo, t.hi)

    def b2i(self, b):
        if b is T.TRUE:
            return LF(1)
        if b is T.FALSE:
            return LF(0)
        if b.op == "not":
            return LF(1).add(self.b2i(b.a[0]), -1)
        r = self.boolatoms.get(b.id)
        if r is None:
            zb = self.B(b)
            r = self.boolatoms.get(b.id)
            if r is not None:
                return r
            r = self.atom("b%d" % b.id, 0, 1)
            self.boolatoms[b.id] = r
            at = self._batoms(b) | set(r.m)
            self.cons.append((at, z3.If(zb, self.z(r) == 1, self.z(r) == 0)))
        return r

    def _batoms(self, b):
        s = set()
        for t in T.postorder([b]):
            if t.w:
                l = self.lf.get(t.id)
                if l is not None:
                    s |= set(l.m)
            elif t.id in self.boolatoms:
                s |= set(self.boolatoms[t.id].m)
        return s

    def B(self, b):
        r = self.bl.get(b.id)
        if r is not None:
            return r
        for x in T.postorder([b]):
            if x.w == 0 and x.id not in self.bl:
                self.bl[x.id] = self.oneb(x)
        return self.bl[b.id]

    def oneb(self, b):
        op = b.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "bv":
            return z3.Bool(b.k)
        if op == "not":
            return z3.Not(self.B(b.a[0]))
        if op == "and":
            return z3.And(*[self.B(x) for x in b.a])
        if op == "bite":
            return z3.If(*[self.B(x) for x in b.a])
        if op == "beq":
            return self.B(b.a[0]) == self.B(b.a[1])
        if op == "v2b":
            l = self.L(b.a[0])
            return self.z(l) == 1
        if op == "eq":
            l = self.L(b.a[0]).add(self.L(b.a[1]), -1)
            if not l.m:
                return z3.BoolVal(l.c == 0)
            return self.z(l) == 0
        if op == "ult":
            l = self.L(b.a[0]).add(self.L(b.a[1]), -1)
            if not l.m:
                return z3.BoolVal(l.c < 0)
            return self.z(l) < 0
        self.approx = True
        return z3.Bool("opqb%d" % b.id)


def check(formulas, timeout=20.0, want_model=True):
    """satisfiability through the integer encoding; 'sat' only when the model evaluates to true"""
    f = T.and_(*formulas)
    if f is T.FALSE:
        return "unsat", None
    if f is T.TRUE:
        return "sat", {}
    t0 = time.time()
    ln = Lin()
    zs = [ln.B(x) for x in (f.a if f.op == "and" else (f,))]
    s = ln.solver(None, int(timeout * 1000))
    s.add(*zs)
    smt.STATS["queries"] += 1
    r = s.check()
    res, env = "unknown", None
    if r == z3.unsat:
        res = "unsat"
    elif r == z3.sat:
        m = s.model()
        env = {}
        for i, (k, name) in ln.varatoms.items():
            x = m.eval(ln.atoms[i][1], model_completion=True)
            env[name] = x.as_long()
        for t in T.variables([f]):
            if t.op == "bv":
                env[t.k] = z3.is_true(m.eval(z3.Bool(t.k), model_completion=True))
        try:
            if T.evaluate([f], env)[0]:
                res = "sat"
            else:
                env = None
        except KeyError:
            env = None
    smt.STATS["time"] += time.time() - t0
    smt.STATS[res] += 1
    return res, env


def prove_eq(pc, lhs, rhs, timeout=20.0):
    """pc => lhs == rhs.  Fast path: the linear forms agree modulo 2^w identically (both are in
    [0,2^w)).  -> ('unsat'|'sat'|'unknown', env)"""
    w = lhs.w
    t0 = time.time()
    ln = Lin()
    a = ln.L(lhs)
    b = ln.L(rhs)
    d = a.add(b, -1)
    M = 1 << w
    if d.c % M == 0 and all(q % M == 0 for q in d.m.values()):
        smt.STATS["queries"] += 1
        smt.STATS["unsat"] += 1
        smt.STATS["time"] += time.time() - t0
        return "unsat", None
    # reduce coefficients mod 2^w, then ask the solver for a non-multiple
    red = LF(d.c % M, {})
    for at, q in d.m.items():
        q %= M
        if q > M // 2:
            q -= M
        if q:
            red.m[at] = q
    zp = [ln.B(x) for x in pc]
    lo, hi = ln.bounds(red)
    k = z3.Int("K!")
    s = ln.solver(None, int(timeout * 1000))
    s.add(*zp)
    e = ln.z(red)
    if lo > -M and hi < M:
        s.add(e != 0)
    else:
        s.add(e - M * k >= 1, e - M * k <= M - 1, k >= (lo >> w), k <= (hi >> w))
    smt.STATS["queries"] += 1
    r = s.check()
    res, env = "unknown", None
    if r == z3.unsat:
        res = "unsat"
    elif r == z3.sat:
        m = s.model()
        env = {}
        for i, (kk, name) in ln.varatoms.items():
            env[name] = m.eval(ln.atoms[i][1], model_completion=True).as_long()
        try:
            ok = T.evaluate([T.and_(*pc, T.not_(T.eq(lhs, rhs)))], env)[0]
        except KeyError:
            ok = False
        if ok:
            res = "sat"
        else:
            env = None
    smt.STATS["time"] += time.time() - t0
    smt.STATS[res] += 1
    return res, env

"""Symbolic executor for LLVM IR parsed by llparse.

Paths are merged at immediate post-dominators; loops are unrolled while their condition can
hold.  Undefined behaviour met on the way becomes an obligation (path condition, bad
condition, description) which the caller must show unsatisfiable.
"""
import re
import time
from . import terms as T
from . import llparse as L

TRUE, FALSE = T.TRUE, T.FALSE


class Unsupported(Exception):
    pass


class Unwound(Exception):
    pass


class Ptr:
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Ptr%r" % (self.alts,)


Z64 = T.const(0, 64)
NULL = Ptr(((TRUE, 0, Z64),))


def mkptr(obj, off=0):
    return Ptr(((TRUE, obj, T.const(off, 64)),))


class Obj:
    __slots__ = ("size", "cells", "zero", "name", "const", "owner", "heap")

    def __init__(self, size, name, zero=False, const=False):
        self.size = size
        self.cells = {}
        self.zero = zero
        self.name = name
        self.const = const
        self.owner = None
        self.heap = False

    def copy(self, owner):
        o = Obj(self.size, self.name, self.zero, self.const)
        o.cells = dict(self.cells)
        o.owner = owner
        o.heap = self.heap
        return o


class State:
    __slots__ = ("mem", "pc", "facts", "env", "ret", "tok", "cut")

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.facts = {}
        self.env = {}
        self.ret = None
        self.cut = None          # bookkeeping of a loop cut on this path
        self.tok = object()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.facts = self.facts
        s.env = dict(self.env)
        s.ret = self.ret
        s.cut = self.cut
        self.tok = object()      # both sides must copy before writing
        return s

    def assume(self, c):
        """add conjunct(s)"""
        if c is TRUE:
            return
        self.facts = dict(self.facts)
        self.pc = self.pc + (c,)
        st = [(c, True)]
        while st:
            x, v = st.pop()
            if x.op == "not":
                st.append((x.a[0], not v))
                continue
            self.facts[x.id] = v
            if x.op == "and" and v:
                for y in x.a:
                    st.append((y, True))


def lookup(facts, c, depth=6):
    """evaluate boolean c under facts -> True/False/None"""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    op = c.op
    if op == "not":
        r = lookup(facts, c.a[0], depth)
        return None if r is None else not r
    r = facts.get(c.id)
    if r is not None or depth == 0:
        return r
    if op == "and":
        allt = True
        for y in c.a:
            r = lookup(facts, y, depth - 1)
            if r is False:
                return False
            if r is None:
                allt = False
        return True if allt else None
    if op == "bite":
        r = lookup(facts, c.a[0], depth - 1)
        if r is True:
            return lookup(facts, c.a[1], depth - 1)
        if r is False:
            return lookup(facts, c.a[2], depth - 1)
        x = lookup(facts, c.a[1], depth - 1)
        if x is None:
            return None
        y = lookup(facts, c.a[2], depth - 1)
        return x if x == y else None
    if op == "beq":
        x = lookup(facts, c.a[0], depth - 1)
        y = lookup(facts, c.a[1], depth - 1)
        if x is None or y is None:
            return None
        return x == y
    return None


_headers = {}


def loop_headers(f):
    """targets of back edges of a depth-first walk"""
    r = _headers.get(f.name)
    if r is not None:
        return r
    r = set()
    state = {}
    stack = [(f.order[0], iter(succs(f, f.order[0])))]
    state[f.order[0]] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if state.get(s) == 1:
                r.add(s)
            elif s not in state:
                state[s] = 1
                stack.append((s, iter(succs(f, s))))
                break
        else:
            state[b] = 2
            stack.pop()
    _headers[f.name] = r
    return r


def succs(f, b):
    ins = f.blocks[b][-1]
    if ins.op == "br":
        return [ins.a[0]] if len(ins.a) == 1 else [ins.a[1], ins.a[2]]
    if ins.op == "switch":
        return [ins.a[1]] + [lab for _, lab in ins.a[2]]
    return []


_nloops = {}


def natural_loops(f):
    """list of (header, set of body blocks), inner loops first"""
    r = _nloops.get(f.name)
    if r is not None:
        return r
    preds = {}
    for b in f.order:
        for s in succs(f, b):
            preds.setdefault(s, []).append(b)
    # dominators by iteration
    dom = {b: set(f.order) for b in f.order}
    dom[f.order[0]] = {f.order[0]}
    ch = True
    while ch:
        ch = False
        for b in f.order[1:]:
            ps = [dom[p] for p in preds.get(b, []) if p in dom]
            d = set.intersection(*ps) | {b} if ps else {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    by = {}
    for b in f.order:
        for h in succs(f, b):
            if h in dom[b]:
                body = by.setdefault(h, {h})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work += preds.get(x, [])
    r = sorted(by.items(), key=lambda kv: len(kv[1]))
    _nloops[f.name] = r
    return r


_CALLRE = re.compile(r'@("[^"]*"|[\w$.]+)\(')


class Plan:
    """forks the execution deterministically at branches that decide how often a marked function (divide) is called:
    loops whose body calls it are left after exactly `loops` symbolic decisions to stay, and branches with an arm that
    calls it follow `arms` in order.  The cases of a property enumerate the plans; every plan's decisions become part of
    the path condition."""

    def __init__(self, mod, marked, loops=0, arms=()):
        self.mod = mod
        self.t = loops
        self.arms = list(arms)
        self.used = 0
        self.reach = {}
        self.marked = set(marked)
        callers = {}
        for n, f in mod.funcs.items():
            for b in f.blocks.values():
                for ins in b:
                    if isinstance(ins, str):      # not parsed yet
                        for c in _CALLRE.findall(ins) if "call" in ins or "invoke" in ins else ():
                            c = c.strip('"')
                            callers.setdefault(mod.aliases.get(c, c), set()).add(n)
                        continue
                    if ins.op == "call" and ins.x[0] == "g":
                        callers.setdefault(mod.aliases.get(ins.x[1], ins.x[1]), set()).add(n)
        self.r = set(self.marked)
        work = list(self.marked)
        while work:
            for c in callers.get(work.pop(), ()):
                if c not in self.r:
                    self.r.add(c)
                    work.append(c)
        self.nin = {}

    def blockcalls(self, f, b):
        return any(ins.op == "call" and ins.x[0] == "g" and self.mod.aliases.get(ins.x[1], ins.x[1]) in self.r for ins in f.blocks[b])

    def loop(self, f, blk):
        if f.name not in self.r or f.name in self.marked:
            return None
        for h, body in natural_loops(f):
            if blk in body and any(self.blockcalls(f, b) for b in body):
                return h, body
        return None

    def arm(self, f, blk, join, lab):
        """does the region from lab to join call a marked function?"""
        seen = set()
        work = [lab]
        while work:
            b = work.pop()
            if b == join or b in seen or b == "$exit":
                continue
            seen.add(b)
            if self.blockcalls(f, b):
                return True
            work += succs(f, b)
        return False


class Obligation:
    __slots__ = ("pc", "bad", "what", "where")

    def __init__(self, pc, bad, what, where):
        self.pc = pc
        self.bad = bad
        self.what = what
        self.where = where

    def formula(self):
        return T.and_(*self.pc, self.bad)


class Executor:
    def __init__(self, module, feasible=None, max_unwind=4096):
        self.m = module
        self.obl = []
        self.obl_seen = set()
        self.gobj = {}
        self.gmem = {}
        self.block_hooks = {}
        self.branch_log = {}         # (function, block, successor) -> path conditions of the first visits
        self.tlimit = None
        self.lemmas = 0
        self.next_obj = 1
        self.objname = {0: "null"}
        self.undefs = {}
        self.arraybounds = False
        self.naccess = 0
        self.stack = []
        self.visited_funcs = {}
        self.summaries = {}
        self.externs = {}
        self.feasible = feasible
        self.max_unwind = max_unwind
        self.feas_after = 2       # loop re-entries before asking the solver
        self.plan = None
        self.unwind_limit = {}    # function-name substring -> max symbolic loop re-entries
        self.active = []          # stack of dict block->count
        self.cut_paths = []       # pcs cut by unwind limits
        self.nsteps = 0
        self.step_limit = 30_000_000
        self.check_ub = True
        self.trace_objs = {}

    # ---------------------------------------------------------------- objects
    def new_obj(self, st, size, name, zero=False, const=False):
        i = self.next_obj
        self.next_obj += 1
        o = Obj(size, name, zero, const)
        o.owner = st.tok
        st.mem[i] = o
        self.objname[i] = name
        return i

    def where(self):
        return " <- ".join(reversed(self.stack[-4:]))

    def oblige(self, st, bad, what):
        if bad is FALSE or not self.check_ub:
            return
        r = lookup(st.facts, bad)
        if r is False:
            return
        key = (bad.id, tuple(x.id for x in st.pc), what)
        if key in self.obl_seen:
            return
        self.obl_seen.add(key)
        self.obl.append(Obligation(st.pc, bad, what, self.where()))

    def fresh_undef(self, w, why):
        v = T.fresh("undef", w)
        self.undefs[v.k] = why + " @ " + self.where()
        return v

    def global_ptr(self, name):
        name = self.m.aliases.get(name, name)
        i = self.gobj.get(name)
        if i is not None:
            return mkptr(i)
        i = self.next_obj
        self.next_obj += 1
        self.gobj[name] = i
        self.objname[i] = "@" + name
        if name in self.m.globals:
            t, init, const = self.m.globals[name]
            o = Obj(self.m.size(t), "@" + name, zero=False, const=const)
            self.gmem[i] = o
            if init is not None:
                self.init_global(o, 0, t, init)
        else:
            o = Obj(0, "fn:" + name)
            self.gmem[i] = o
        return mkptr(i)

    def init_global(self, o, off, t, v):
        m = self.m
        t = m.resolve(t)
        k = v[0]
        if k == "zero":
            n = m.size(t)
            for j in range(0, n):
                o.cells[off + j] = (T.const(0, 8), 1)
            return
        if k == "str":
            for j, b in enumerate(v[1]):
                o.cells[off + j] = (T.const(b, 8), 1)
            return
        if k == "agg":
            if t[0] == "st":
                offs, _ = m.layout(t)
                for (et, ev), eo in zip(v[1], offs):
                    self.init_global(o, off + eo, et, ev)
            else:
                es = m.size(t[2])
                for j, (et, ev) in enumerate(v[1]):
                    self.init_global(o, off + j * es, et, ev)
            return
        if k == "undef":
            return
        val = self.constval(t, v)
        if val is None:
            return
        n = 8 if isinstance(val, Ptr) else (val.w + 7) // 8
        if not isinstance(val, Ptr) and val.w % 8:
            val = T.zext(val, n * 8)
        o.cells[off] = (val, n)

    def constval(self, t, v):
        t = self.m.resolve(t)
        k = v[0]
        if k == "c":
            return T.const(v[1], t[1])
        if k == "null":
            return NULL
        if k == "g":
            return self.global_ptr(v[1])
        if k == "undef":
            return self.undef_of(t)
        if k == "zero":
            return self.zero_of(t)
        if k == "agg":
            return tuple(self.constval(et, ev) for et, ev in v[1])
        if k == "cgep":
            base = self.constval(("ptr",), v[2][0][1])
            return self.gep(base, v[1], [(tt, self.constval(tt, vv)) for tt, vv in v[2][1:]])
        if k == "ccast":
            x = self.constval(v[2], v[3])
            if v[1] == "inttoptr" and isinstance(x, T.T) and x.op == "c" and x.k == 0:
                return NULL
            return self.ptr2int(x) if v[1] == "ptrtoint" else x
        if k == "flt":
            return T.const(0, 64)
        raise Unsupported("const %r" % (v,))

    def zero_of(self, t):
        t = self.m.resolve(t)
        if t[0] == "i":
            return T.const(0, t[1])
        if t[0] == "ptr":
            return NULL
        if t[0] == "st":
            return tuple(self.zero_of(x) for x in t[1])
        if t[0] == "arr":
            return tuple(self.zero_of(t[2]) for _ in range(t[1]))
        raise Unsupported("zero %r" % (t,))

    def undef_of(self, t):
        t = self.m.resolve(t)
        if t[0] == "i":
            return self.fresh_undef(t[1], "undef")
        if t[0] == "ptr":
            return NULL
        if t[0] == "st":
            return tuple(self.undef_of(x) for x in t[1])
        if t[0] == "arr":
            return tuple(self.undef_of(t[2]) for _ in range(t[1]))
        if t[0] == "fp":
            return T.const(0, 64)
        raise Unsupported("undef %r" % (t,))

    # ---------------------------------------------------------------- memory
    def getobj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            o = self.gmem.get(i)
        return o

    def wobj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            g = self.gmem.get(i)
            if g is None:
                return None
            o = g.copy(st.tok)
            st.mem[i] = o
        elif o.owner is not st.tok:
            o = o.copy(st.tok)
            st.mem[i] = o
        return o

    def ptr2int(self, p):
        if isinstance(p, T.T):
            return p
        r = None
        for g, o, off in reversed(p.alts):
            if o == 0:
                v = off
            else:
                b = T.var("addr!%d" % o, 64, 4096, (1 << 47) - 1)
                b = T.cat(T.ext(b, 63, 4), T.const(0, 4))
                v = T.bvadd(b, off)
            r = v if r is None else T.ite(g, v, r)
        return r

    def read_cells(self, o, off, n):
        """n bytes at constant off -> value (int term of 8n bits or Ptr)"""
        c = o.cells.get(off)
        if c is not None and c[1] == n:
            return c[0]
        # assemble
        parts = []       # low to high
        pos = off
        end = off + n
        while pos < end:
            c = o.cells.get(pos)
            if c is None:
                # a cell starting earlier that covers pos?
                hit = None
                for back in range(1, 17):
                    d = o.cells.get(pos - back)
                    if d is not None:
                        if d[1] > back:
                            hit = (d, back)
                        break
                if hit:
                    (v, m), back = hit
                    take = min(m - back, end - pos)
                    v = self.as_int(v, m)
                    parts.append(T.ext(v, (back + take) * 8 - 1, back * 8))
                    pos += take
                    continue
                # gap
                g = pos
                while g < end and g not in o.cells:
                    g += 1
                take = g - pos
                if o.zero:
                    v = T.const(0, 8 * take)
                else:
                    v = self.fresh_undef(8 * take, "uninitialised read of %s[%d..%d)" % (o.name, pos, pos + take))
                o.cells[pos] = (v, take)     # benign: caching, also on shared objects
                parts.append(v)
                pos += take
                continue
            v, m = c
            take = min(m, end - pos)
            v = self.as_int(v, m)
            parts.append(v if take == m else T.ext(v, take * 8 - 1, 0))
            pos += take
        parts.reverse()
        return T.cat(*parts)

    def as_int(self, v, n):
        if isinstance(v, Ptr):
            return self.ptr2int(v)
        return v

    def write_cells(self, o, off, n, val):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[1] == n:
            cells[off] = (val, n)
            return
        # trim overlapping cells
        end = off + n
        for back in range(1, 17):
            d = cells.get(off - back)
            if d is not None:
                v, m = d
                if m > back:
                    v = self.as_int(v, m)
                    cells[off - back] = (T.ext(v, back * 8 - 1, 0), back)
                    if m - back > n:
                        cells[end] = (T.ext(v, m * 8 - 1, (back + n) * 8), m - back - n)
                break
        for pos in range(off, end):
            d = cells.pop(pos, None)
            if d is not None and pos + d[1] > end:
                v, m = d
                v = self.as_int(v, m)
                k = end - pos
                cells[end] = (T.ext(v, m * 8 - 1, k * 8), m - k)
        cells[off] = (val, n)

    def cand(self, off, limit, n):
        """candidate constant offsets of term off within [0, limit-n]"""
        lo, hi = off.lo, off.hi
        stride = 1
        ps = T.pieces(off)
        if ps[-1].op == "c":
            s = ps[-1]
            stride = 1 << s.w
            base = s.k
        else:
            base = 0
        hi = min(hi, limit - n)
        start = lo - ((lo - base) % stride)
        if start < lo:
            start += stride
        return range(start, hi + 1, stride)

    def access_check(self, st, o, off, n, g, what):
        """emit OOB obligation; returns False when never in bounds"""
        self.naccess += 1
        if o is None:
            self.oblige(st, g, what + " of a dead or invalid object")
            return False
        lim = o.size - n
        if off.lo >= 0 and off.hi <= lim:
            return True
        if lim < 0:
            self.oblige(st, g, "%s outside %s (size %d)" % (what, o.name, o.size))
            return False
        bad = T.and_(g, T.ult(T.const(lim, 64), off))
        self.oblige(st, bad, "%s outside %s (size %d)" % (what, o.name, o.size))
        return bad is not g

    def load(self, st, p, n):
        if isinstance(p, T.T):
            raise Unsupported("load through integer pointer")
        res = None
        for g, oi, off in reversed(p.alts):
            if oi == 0:
                self.oblige(st, g, "null pointer read")
                continue
            if lookup(st.facts, g) is False:
                continue
            o = self.getobj(st, oi)
            if not self.access_check(st, o, off, n, g, "read"):
                continue
            if off.op == "c":
                v = self.read_cells(o, off.k, n)
            else:
                v = None
                cs = self.cand(off, o.size, n)
                if len(cs) > 4096:
                    raise Unsupported("symbolic read over %d cells" % len(cs))
                for c in cs:
                    e = T.eq(off, T.const(c, 64))
                    if e is FALSE or lookup(st.facts, e, 1) is False:
                        continue
                    x = self.read_cells(o, c, n)
                    v = x if v is None else self.mergeval(e, x, v)
                if v is None:
                    continue
            res = v if res is None else self.mergeval(g, v, res)
        if res is None:
            res = self.fresh_undef(8 * n, "invalid read")
        return res

    def store(self, st, p, n, val):
        if isinstance(p, T.T):
            raise Unsupported("store through integer pointer")
        single = len(p.alts) == 1
        for g, oi, off in p.alts:
            if oi == 0:
                self.oblige(st, g, "null pointer write")
                continue
            lk = lookup(st.facts, g)
            if lk is False:
                continue
            o = self.getobj(st, oi)
            if not self.access_check(st, o, off, n, g, "write"):
                continue
            if o.const:
                self.oblige(st, g, "write to constant " + o.name)
                continue
            o = self.wobj(st, oi)
            g2 = TRUE if (single or lk is True) else g
            if off.op == "c":
                if g2 is TRUE:
                    self.write_cells(o, off.k, n, val)
                else:
                    old = self.read_cells(o, off.k, n)
                    self.write_cells(o, off.k, n, self.mergeval(g2, val, old))
            else:
                cs = self.cand(off, o.size, n)
                if len(cs) > 4096:
                    raise Unsupported("symbolic write over %d cells" % len(cs))
                for c in cs:
                    e = T.eq(off, T.const(c, 64))
                    lk2 = lookup(st.facts, e, 1)
                    if e is FALSE or lk2 is False:
                        continue
                    old = self.read_cells(o, c, n)
                    self.write_cells(o, c, n, self.mergeval(T.and_(g2, e), val, old))

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        if len(d.alts) == 1 and len(s.alts) == 1:
            _, so, soff = s.alts[0]
            _, do, doff = d.alts[0]
            if so and do and soff.op == "c" and doff.op == "c":
                os = self.getobj(st, so)
                if self.access_check(st, os, soff, n, TRUE, "read") and \
                        self.access_check(st, self.getobj(st, do), doff, n, TRUE, "write"):
                    src = []
                    a, e = soff.k, soff.k + n
                    pos = a
                    while pos < e:
                        c = os.cells.get(pos)
                        if c is not None and pos + c[1] <= e:
                            src.append((pos - a, c))
                            pos += c[1]
                        elif c is None and not os.zero and all((pos - b) not in os.cells for b in range(0, 17)):
                            # uninitialised byte: leave destination uninitialised too
                            g = pos
                            while g < e and g not in os.cells:
                                g += 1
                            v = self.fresh_undef(8 * (g - pos), "uninitialised copy of %s[%d..%d)" % (os.name, pos, g))
                            os.cells[pos] = (v, g - pos)
                            src.append((pos - a, (v, g - pos)))
                            pos = g
                        else:
                            src.append((pos - a, (self.read_cells(os, pos, 1), 1)))
                            pos += 1
                    od = self.wobj(st, do)
                    if od.const:
                        self.oblige(st, TRUE, "write to constant " + od.name)
                    for o, (v, m) in src:
                        self.write_cells(od, doff.k + o, m, v)
                return
        vals = [self.load(st, self.padd(s, i), 1) for i in range(n)]
        for i, v in enumerate(vals):
            self.store(st, self.padd(d, i), 1, v)

    def padd(self, p, k):
        if isinstance(p, T.T):
            return T.bvadd(p, k if isinstance(k, T.T) else T.const(k, 64))
        k = k if isinstance(k, T.T) else T.const(k, 64)
        return Ptr(tuple((g, o, T.bvadd(off, k)) for g, o, off in p.alts))

    def gep(self, base, sty, idx, st=None):
        m = self.m
        off = Z64
        t = sty
        first = True
        for it, iv in idx:
            iv = T.sext(iv, 64) if iv.w < 64 else iv
            if first:
                off = T.bvadd(off, T.bvmul(iv, T.const(m.size(t), 64)))
                first = False
                continue
            t = m.resolve(t)
            if t[0] == "st":
                if iv.op != "c":
                    raise Unsupported("symbolic struct index")
                offs, _ = m.layout(t)
                off = T.bvadd(off, T.const(offs[iv.k], 64))
                t = t[1][iv.k]
            elif t[0] in ("arr", "vec"):
                n = t[1]
                t = t[2]
                off = T.bvadd(off, T.bvmul(iv, T.const(m.size(t), 64)))
                if st is not None and self.arraybounds and n:
                    bad = T.not_(T.ult(iv, T.const(n, 64)))
                    if bad is not FALSE:
                        self.oblige(st, bad, "array subscript not below %d" % n)
            else:
                raise Unsupported("gep into %r" % (t,))
        return self.padd(base, off)

    # ---------------------------------------------------------------- merging
    def mergeval(self, c, a, b):
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, tuple):
            return tuple(self.mergeval(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1]:
                return Ptr(((TRUE, a.alts[0][1], T.ite(c, a.alts[0][2], b.alts[0][2])),))
            d = {}
            order = []
            for cond, src in ((c, a), (T.not_(c), b)):
                for g, o, off in src.alts:
                    g2 = T.and_(cond, g)
                    if g2 is FALSE:
                        continue
                    if o in d:
                        og, ooff = d[o]
                        d[o] = (T.or_(og, g2), T.ite(g2, off, ooff))
                    else:
                        d[o] = (g2, off)
                        order.append(o)
            return Ptr(tuple((d[o][0], o, d[o][1]) for o in order))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr):
                a = self.ptr2int(a)
            else:
                b = self.ptr2int(b)
            if a.w != b.w:
                raise Unsupported("merge of pointer and %d-bit value" % min(a.w, b.w))
        return T.ite(c, a, b)

    def merge_obj(self, c, a, b, tok):
        if a is b:
            return a
        o = Obj(a.size, a.name, a.zero, a.const)
        o.owner = tok
        o.heap = a.heap
        ca, cb = a.cells, b.cells
        keys = set(ca) | set(cb)
        same = True
        for k in keys:
            x, y = ca.get(k), cb.get(k)
            if x is None or y is None or x[1] != y[1]:
                same = False
                break
        if same:
            cells = {}
            for k in keys:
                x, y = ca[k], cb[k]
                cells[k] = x if x[0] is y[0] else (self.mergeval(c, x[0], y[0]), x[1])
            o.cells = cells
            return o
        bounds = set()
        for cs in (ca, cb):
            for k, (v, n) in cs.items():
                bounds.add(k)
                bounds.add(k + n)
        bl = sorted(bounds)
        cells = {}
        for lo, hi in zip(bl, bl[1:]):
            ina = self._covered(ca, lo)
            inb = self._covered(cb, lo)
            if not ina and not inb:
                continue
            x = self.read_cells(a, lo, hi - lo)
            y = self.read_cells(b, lo, hi - lo)
            cells[lo] = (self.mergeval(c, x, y), hi - lo)
        o.cells = cells
        return o

    @staticmethod
    def _covered(cells, pos):
        if pos in cells:
            return True
        for back in range(1, 17):
            d = cells.get(pos - back)
            if d is not None:
                return d[1] > back
        return False

    def merge(self, c, a, b, prefix):
        """states a (under c) and b (under not c); prefix = pc tuple before the branch"""
        if a is None:
            return b
        if b is None:
            return a
        r = State()
        r.tok = object()
        r.cut = a.cut
        k = len(prefix)
        ra, rb = a.pc[k:], b.pc[k:]
        nc = T.not_(c)
        if ra == (c,) and rb == (nc,):
            r.pc = prefix
            # facts common to both
            r.facts = {i: v for i, v in a.facts.items() if b.facts.get(i) == v}
        else:
            r.pc = prefix
            r.facts = {i: v for i, v in a.facts.items() if b.facts.get(i) == v}
            j = T.or_(T.and_(*ra), T.and_(*rb))
            if j is not TRUE:
                r.assume(j)
        for i in a.mem.keys() | b.mem.keys():
            x, y = a.mem.get(i), b.mem.get(i)
            if x is None:
                g = self.gmem.get(i)
                r.mem[i] = y if g is None else self.merge_obj(c, g, y, r.tok)
            elif y is None:
                g = self.gmem.get(i)
                r.mem[i] = x if g is None else self.merge_obj(c, x, g, r.tok)
            else:
                r.mem[i] = self.merge_obj(c, x, y, r.tok)
        ea, eb = a.env, b.env
        env = {}
        for k2, v in ea.items():
            w = eb.get(k2)
            if w is None or w is v:
                env[k2] = v
            else:
                try:
                    env[k2] = self.mergeval(c, v, w)
                except Unsupported:
                    pass
        for k2, w in eb.items():
            if k2 not in ea:
                env[k2] = w
        r.env = env
        if a.ret is not None or b.ret is not None:
            r.ret = self.mergeval(c, a.ret, b.ret)
        return r

    # ---------------------------------------------------------------- calls
    def call(self, st, name, args):
        """run function by name; st is updated in place; returns value.  Raises Dead if no path returns."""
        name = self.m.aliases.get(name, name)
        s = self.summaries.get(name)
        if s is not None:
            r = s(self, st, args)
            if r is not NotImplemented:
                return r
        f = self.m.funcs.get(name)
        if f is None:
            h = self.externs.get(name)
            if h is None:
                for pre, hh in self.externs.items():
                    if pre.endswith("*") and name.startswith(pre[:-1]):
                        h = hh
                        break
            if h is None:
                h = intrinsic(name)
            if h is None:
                raise Unsupported("external function " + name)
            return h(self, st, args)
        L.prepare(f)
        self.visited_funcs[name] = self.visited_funcs.get(name, 0) + 1
        if len(self.stack) > 200:
            raise Unwound("call depth")
        saved_env = st.env
        st.env = {}
        for (t, pn, at), a in zip(f.params, args):
            st.env[pn] = a
        nobj = self.next_obj
        for (t, pn, at), a in zip(f.params, args):
            if "byval" in at:
                n = self.m.size(L.P(list(at["byval"]), self.m).type())
                c = self.new_obj(st, n, "by-value argument of " + name)
                self.memcpy(st, mkptr(c), a, n)
                st.env[pn] = mkptr(c)
        self.stack.append(name)
        self.active.append({})
        try:
            out = self.run(f, f.order[0], None, st, "$exit")
        finally:
            self.stack.pop()
            self.active.pop()
        if out is None:
            raise Dead()
        ret = out.ret
        # drop this frame's stack objects
        st.mem = {i: o for i, o in out.mem.items() if i < nobj or o.heap or i in self.gmem}
        st.pc = out.pc
        st.facts = out.facts
        st.tok = out.tok
        st.env = saved_env
        st.ret = None
        return ret

    def val(self, st, t, v):
        k = v[0]
        if k == "r":
            x = st.env.get(v[1])
            if x is None:
                raise Unsupported("undefined register %" + v[1])
            return x
        if k == "c":
            return T.const(v[1], t[1])
        return self.constval(t, v)

    def enter(self, f, st, pred, blk):
        """evaluate phis of blk when coming from pred"""
        if blk == "$exit":
            return
        new = None
        for ins in f.blocks[blk]:
            if ins.op != "phi":
                break
            for v, lab in ins.a:
                if lab == pred:
                    if new is None:
                        new = []
                    new.append((ins.res, self.val(st, ins.ty, v)))
                    break
        if new:
            for r, v in new:
                st.env[r] = v

    def run(self, f, blk, pred, st, stop):
        """run from blk (phis already evaluated) until stop; returns merged state or None"""
        while True:
            if blk == stop:
                return st
            if self.tlimit is not None and time.time() > self.tlimit:
                raise Unwound("time limit of the symbolic execution")
            h = self.block_hooks.get(f.name)
            try:
                if h is not None and blk in loop_headers(f):
                    h(self, f, blk, st)
                tgt = self.block(f, blk, st)
            except Dead:
                return None
            if tgt is None:          # returned
                assert stop == "$exit", (f.name, blk, stop)
                return st
            if len(tgt) == 1:
                self.enter(f, st, blk, tgt[0][1])
                pred, blk = blk, tgt[0][1]
                continue
            # symbolic branch; tgt = [(cond, label)...] exclusive and exhaustive
            for c, lab in tgt:
                w = self.branch_log.setdefault((f.name, blk, lab), [])
                if len(w) < 4:
                    w.append(st.pc + (c,))
            join = f.ipdom[blk]
            if join != stop and stop != "$exit" and not self._before(f, join, stop):
                join = stop
            act = self.active[-1]
            if self.plan is not None and f.name in self.plan.r and f.name not in self.plan.marked:
                pick = self.planned(f, blk, st, tgt, join, act)
                if pick is not None:
                    c, lab = pick
                    st.assume(c)
                    self.enter(f, st, blk, lab)
                    pred, blk = blk, lab
                    continue
            act[blk] = act.get(blk, 0) + 1
            cnt = act[blk]
            try:
                live = []
                for c, lab in tgt:
                    if cnt > self.feas_after and self.feasible is not None and lab != join:
                        if not self.feasible(st.pc + (c,)):
                            continue
                    live.append((c, lab))
                lim = self.max_unwind
                for k, v in self.unwind_limit.items():
                    if k in f.name:
                        lim = v
                if cnt > lim:
                    keep = []
                    for c, lab in live:
                        if lab == join:
                            keep.append((c, lab))
                        else:
                            self.cut_paths.append((st.pc + (c,), f.name))
                    live = keep
                st = self.branch(f, blk, st, live, join)
            finally:
                act[blk] -= 1
            if st is None:
                return None
            if join == "$exit":
                return st
            pred, blk = blk, join

    def planned(self, f, blk, st, tgt, join, act):
        lp = self.plan.loop(f, blk)
        if lp is not None:
            stay = [x for x in tgt if x[1] in lp[1]]
            leave = [x for x in tgt if x[1] not in lp[1]]
            if len(stay) == 1 and len(leave) == 1:
                k = ("plan", lp[0])
                act[k] = act.get(k, 0) + 1
                return stay[0] if act[k] <= self.plan.t else leave[0]
            if len(stay) == len(tgt):
                lp = None
        if self.plan.used < len(self.plan.arms) and any(self.plan.arm(f, blk, join, lab) for _, lab in tgt):
            a = self.plan.arms[self.plan.used]
            self.plan.used += 1
            if a < len(tgt):
                return tgt[a]
        return None

    def _before(self, f, a, b):
        """does b post-dominate a?"""
        x = a
        while x != "$exit":
            if x == b:
                return True
            x = f.ipdom[x]
        return b == "$exit"

    def branch(self, f, blk, st, live, join):
        if not live:
            return None
        prefix = st.pc
        if len(live) == 1:
            c, lab = live[0]
            s = st
            s.assume(c)
            self.enter(f, s, blk, lab)
            return self.run(f, lab, blk, s, join)
        c, lab = live[0]
        rest = live[1:]
        nc = T.not_(c)
        a = st.fork()
        a.assume(c)
        self.enter(f, a, blk, lab)
        a = self.run(f, lab, blk, a, join)
        b = st
        if len(rest) == 1:
            b.assume(nc)
            self.enter(f, b, blk, rest[0][1])
            b = self.run(f, rest[0][1], blk, b, join)
        else:
            b.assume(nc)
            b = self.branch(f, blk, b, rest, join)
        return self.merge(c, a, b, prefix)

    # ---------------------------------------------------------------- instructions
    def block(self, f, blk, st):
        """execute blk; returns None on return, else list of (cond, label)"""
        env = st.env
        for ins in f.blocks[blk]:
            op = ins.op
            self.nsteps += 1
            if op == "phi":
                continue
            if op == "load":
                t = self.m.resolve(ins.ty)
                p = self.val(st, ("ptr",), ins.a[1])
                env[ins.res] = self.load_typed(st, p, t)
            elif op == "store":
                (vt, v), (_, pv) = ins.a
                vt = self.m.resolve(vt)
                x = self.val(st, vt, v)
                p = self.val(st, ("ptr",), pv)
                self.store_typed(st, p, vt, x)
            elif op == "getelementptr":
                base = self.val(st, ("ptr",), ins.a[0][1])
                env[ins.res] = self.gep(base, ins.ty, [(t, self.val(st, t, v)) for t, v in ins.a[1:]], st)
            elif op in L._BIN:
                t = ins.ty
                if t[0] != "i":
                    raise Unsupported("vector op")
                env[ins.res] = self.binop(st, op, self.val(st, t, ins.a[0]), self.val(st, t, ins.a[1]), ins.x)
            elif op == "icmp":
                t = self.m.resolve(ins.ty)
                env[ins.res] = self.icmp(st, ins.x, self.val(st, t, ins.a[0]), self.val(st, t, ins.a[1]))
            elif op == "br":
                if len(ins.a) == 1:
                    return [(TRUE, ins.a[0])]
                c = T.v2b(self.val(st, ("i", 1), ins.a[0]))
                r = lookup(st.facts, c)
                if r is True:
                    return [(TRUE, ins.a[1])]
                if r is False:
                    return [(TRUE, ins.a[2])]
                if ins.a[1] == ins.a[2]:
                    return [(TRUE, ins.a[1])]
                return [(c, ins.a[1]), (T.not_(c), ins.a[2])]
            elif op == "call":
                args = [None if v is None else self.val(st, self.m.resolve(t), v) for t, v, _ in ins.a]
                if ins.x[0] == "g":
                    r = self.call(st, ins.x[1], args)
                else:
                    fp = self.val(st, ("ptr",), ins.x)
                    if len(fp.alts) != 1:
                        raise Unsupported("indirect call")
                    nm = self.objname[fp.alts[0][1]]
                    r = self.call(st, nm[1:], args)
                env = st.env
                if ins.res is not None:
                    if r is None:
                        raise Unsupported("no value from call " + ins.text)
                    env[ins.res] = r
            elif op == "ret":
                if ins.a is not None:
                    st.ret = self.val(st, self.m.resolve(ins.ty), ins.a)
                return None
            elif op == "alloca":
                n = 1
                if ins.a is not None:
                    c = self.val(st, ins.a[0], ins.a[1])
                    if c.op != "c":
                        raise Unsupported("symbolic alloca")
                    n = c.k
                env[ins.res] = mkptr(self.new_obj(st, n * self.m.size(ins.ty), "%%%s in %s" % (ins.res, f.name)))
            elif op in L._CAST:
                env[ins.res] = self.cast(st, op, ins.a[0], self.val(st, self.m.resolve(ins.a[0]), ins.a[1]), ins.ty)
            elif op == "select":
                (ct, c), (t, a), (_, b) = ins.a
                c = T.v2b(self.val(st, ct, c))
                t = self.m.resolve(t)
                r = lookup(st.facts, c)
                a, b = self.val(st, t, a), self.val(st, t, b)
                env[ins.res] = a if r is True else b if r is False else self.mergeval(c, a, b)
            elif op == "switch":
                v = self.val(st, ins.ty, ins.a[0])
                by = {}
                order = []
                anyc = []
                for k, lab in ins.a[2]:
                    c = T.eq(v, T.const(k, v.w))
                    r = lookup(st.facts, c)
                    if r is True:
                        return [(TRUE, lab)]
                    if r is False:
                        continue
                    anyc.append(c)
                    if lab not in by:
                        order.append(lab)
                        by[lab] = []
                    by[lab].append(c)
                d = ins.a[1]
                nd = T.not_(T.or_(*anyc))
                out = [(T.or_(*by[lab]), lab) for lab in order if lab != d]
                dc = T.or_(nd, *by.get(d, []))
                if lookup(st.facts, dc) is not False:
                    out.append((dc, d))
                if len(out) == 1:
                    return [(TRUE, out[0][1])]
                return out
            elif op == "extractvalue":
                x = self.val(st, self.m.resolve(ins.a[0]), ins.a[1])
                for i in ins.x:
                    x = x[i]
                env[ins.res] = x
            elif op == "insertvalue":
                (t1, v1), (t2, v2) = ins.a
                x = self.val(st, self.m.resolve(t1), v1)
                y = self.val(st, self.m.resolve(t2), v2)
                env[ins.res] = self.insval(x, y, ins.x)
            elif op == "freeze":
                env[ins.res] = self.val(st, self.m.resolve(ins.a[0]), ins.a[1])
            elif op == "unreachable":
                self.oblige(st, TRUE, "unreachable code reached")
                raise Dead()
            else:
                raise Unsupported(op)
        raise Unsupported("fell off block")

    def insval(self, x, y, idx):
        if not idx:
            return y
        l = list(x)
        l[idx[0]] = self.insval(l[idx[0]], y, idx[1:])
        return tuple(l)

    def load_typed(self, st, p, t):
        k = t[0]
        if k == "i":
            n = (t[1] + 7) // 8
            v = self.load(st, p, n)
            if isinstance(v, Ptr):
                v = self.ptr2int(v)
            if v.w != t[1]:
                v = T.ext(v, t[1] - 1, 0)
            return v
        if k == "ptr":
            v = self.load(st, p, 8)
            if not isinstance(v, Ptr):
                if v.op == "c" and v.k == 0:
                    return NULL
                return v
            return v
        if k == "st":
            offs, _ = self.m.layout(t)
            return tuple(self.load_typed(st, self.padd(p, o), self.m.resolve(x)) for o, x in zip(offs, t[1]))
        if k == "arr":
            es = self.m.size(t[2])
            return tuple(self.load_typed(st, self.padd(p, i * es), self.m.resolve(t[2])) for i in range(t[1]))
        if k == "fp":
            return self.load(st, p, self.m.size(t))
        raise Unsupported("load %r" % (t,))

    def store_typed(self, st, p, t, v):
        k = t[0]
        if k == "i":
            n = (t[1] + 7) // 8
            if not isinstance(v, Ptr) and v.w != 8 * n:
                v = T.zext(v, 8 * n)
            self.store(st, p, n, v)
        elif k == "ptr":
            self.store(st, p, 8, v)
        elif k == "st":
            offs, _ = self.m.layout(t)
            for o, x, y in zip(offs, t[1], v):
                self.store_typed(st, self.padd(p, o), self.m.resolve(x), y)
        elif k == "arr":
            es = self.m.size(t[2])
            for i, y in enumerate(v):
                self.store_typed(st, self.padd(p, i * es), self.m.resolve(t[2]), y)
        elif k == "fp":
            self.store(st, p, self.m.size(t), v)
        else:
            raise Unsupported("store %r" % (t,))

    def binop(self, st, op, a, b, fl):
        if isinstance(a, Ptr):
            a = self.ptr2int(a)
        if isinstance(b, Ptr):
            b = self.ptr2int(b)
        w = a.w
        if op == "add":
            r = T.bvadd(a, b)
            if "nsw" in fl:
                h = 1 << (w - 1)
                if not (a.hi < h and b.hi < h and a.hi + b.hi < h):
                    x = T.bvadd(T.sext(a, w + 1), T.sext(b, w + 1))
                    self.oblige(st, T.not_(T.eq(x, T.sext(r, w + 1))), "signed overflow in addition")
            return r
        if op == "sub":
            r = T.bvsub(a, b)
            if "nsw" in fl:
                h = 1 << (w - 1)
                if not (a.hi < h and b.hi < h):
                    if a.op == "c" and a.k == 0:
                        bad = T.eq(b, T.const(h, w))
                    else:
                        x = T.bvsub(T.sext(a, w + 1), T.sext(b, w + 1))
                        bad = T.not_(T.eq(x, T.sext(r, w + 1)))
                    self.oblige(st, bad, "signed overflow in subtraction")
            return r
        if op == "mul":
            r = T.bvmul(a, b)
            if "nsw" in fl:
                h = 1 << (w - 1)
                if not (a.hi < h and b.hi < h and a.hi * b.hi < h):
                    if b.op == "c" and b.k == (1 << w) - 1:
                        bad = T.eq(a, T.const(h, w))
                    elif a.op == "c" and a.k == (1 << w) - 1:
                        bad = T.eq(b, T.const(h, w))
                    else:
                        x = T.bvmul(T.sext(a, 2 * w), T.sext(b, 2 * w))
                        bad = T.not_(T.eq(x, T.sext(r, 2 * w)))
                    self.oblige(st, bad, "signed overflow in multiplication")
            return r
        if op == "and":
            return T.bvand(a, b)
        if op == "or":
            return T.bvor(a, b)
        if op == "xor":
            return T.bvxor(a, b)
        if op in ("shl", "lshr", "ashr"):
            if b.hi >= w:
                self.oblige(st, T.not_(T.ult(b, T.const(w, w))), "shift amount not below the operand width")
            return {"shl": T.bvshl, "lshr": T.bvlshr, "ashr": T.bvashr}[op](a, b)
        if op in ("udiv", "urem", "sdiv", "srem"):
            if b.lo == 0:
                self.oblige(st, T.eq(b, T.const(0, w)), "integer division by zero")
            if op[0] == "s" and b.hi == (1 << w) - 1:
                self.oblige(st, T.and_(T.eq(a, T.const(1 << (w - 1), w)), T.eq(b, T.const(-1, w))),
                            "signed division overflow")
            return {"udiv": T.bvudiv, "urem": T.bvurem, "sdiv": T.bvsdiv, "srem": T.bvsrem}[op](a, b)
        raise Unsupported(op)

    def icmp(self, st, pred, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if pred in ("eq", "ne"):
                    r = FALSE
                    for g1, o1, f1 in a.alts:
                        for g2, o2, f2 in b.alts:
                            if o1 == o2:
                                r = T.or_(r, T.and_(g1, g2, T.eq(f1, f2)))
                    return T.b2v(r if pred == "eq" else T.not_(r))
                if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1]:
                    a, b = a.alts[0][2], b.alts[0][2]
                else:
                    a, b = self.ptr2int(a), self.ptr2int(b)
            else:
                a = self.ptr2int(a) if isinstance(a, Ptr) else a
                b = self.ptr2int(b) if isinstance(b, Ptr) else b
        if pred == "eq":
            r = T.eq(a, b)
        elif pred == "ne":
            r = T.not_(T.eq(a, b))
        elif pred == "ult":
            r = T.ult(a, b)
        elif pred == "ugt":
            r = T.ult(b, a)
        elif pred == "ule":
            r = T.ule(a, b)
        elif pred == "uge":
            r = T.ule(b, a)
        elif pred == "slt":
            r = T.slt(a, b)
        elif pred == "sgt":
            r = T.slt(b, a)
        elif pred == "sle":
            r = T.sle(a, b)
        else:
            r = T.sle(b, a)
        return T.b2v(r)

    def cast(self, st, op, ft, v, tt):
        tt = self.m.resolve(tt)
        if op == "zext":
            return T.zext(v, tt[1])
        if op == "sext":
            return T.sext(v, tt[1])
        if op == "trunc":
            if isinstance(v, Ptr):
                v = self.ptr2int(v)
            return T.ext(v, tt[1] - 1, 0)
        if op == "ptrtoint":
            v = self.ptr2int(v)
            return T.ext(v, tt[1] - 1, 0) if tt[1] < 64 else v
        if op == "inttoptr":
            if isinstance(v, T.T) and v.op == "c" and v.k == 0:
                return NULL
            return v
        return v


class Dead(Exception):
    """no path continues"""


# -------------------------------------------------------------------- intrinsics
def _conc(v, what):
    if v.op != "c":
        raise Unsupported("symbolic " + what)
    return v.k


def _memcpy(ex, st, a):
    ex.memcpy(st, a[0], a[1], _conc(a[2], "memcpy size"))
    return a[0]


def _memset(ex, st, a):
    n = _conc(a[2], "memset size")
    p = a[0]
    v = a[1]
    v = T.ext(v, 7, 0) if v.w > 8 else v
    i = 0
    while i < n:
        k = 4 if n - i >= 4 and v.op == "c" else 1
        ex.store(st, ex.padd(p, i), k, T.cat(*([v] * k)))
        i += k
    return p


def _nop(ex, st, a):
    return None


def _assume(ex, st, a):
    return None


def _expect(ex, st, a):
    return a[0]


def _dead(what):
    def h(ex, st, a):
        ex.oblige(st, TRUE, what)
        raise Dead()
    return h


def popcount(x, w=None):
    w = w or x.w
    r = T.const(0, w)
    for i in range(x.w):
        r = T.bvadd(r, T.zext(T.ext(x, i, i), w))
    return r


def ctlz(x):
    w = x.w
    r = T.const(w, w)
    for i in range(w):      # highest set bit wins
        r = T.ite(T.v2b(T.ext(x, i, i)), T.const(w - 1 - i, w), r)
    return r


def cttz(x):
    w = x.w
    r = T.const(w, w)
    for i in range(w - 1, -1, -1):
        r = T.ite(T.v2b(T.ext(x, i, i)), T.const(i, w), r)
    return r


def _ovf(op, signed):
    def h(ex, st, a):
        x, y = a
        w = x.w
        if op == "mul":
            W = 2 * w
        else:
            W = w + 1
        e = T.sext if signed else T.zext
        f = {"add": T.bvadd, "sub": T.bvsub, "mul": T.bvmul}[op]
        r = f(x, y)
        if not signed and op == "sub":
            return (r, T.b2v(T.ult(x, y)))
        full = f(e(x, W), e(y, W))
        return (r, T.b2v(T.not_(T.eq(full, e(r, W)))))
    return h


def _fsh(left):
    def h(ex, st, a):
        x, y, n = a
        w = x.w
        if n.op == "c":
            k = n.k % w
            full = T.cat(x, y)
            if left:
                return T.ext(full, 2 * w - 1 - k, w - k)
            return T.ext(full, w + k - 1, k)
        n = T.bvurem(n, T.const(w, w))
        inv = T.bvsub(T.const(w, w), n)
        z = T.eq(n, T.const(0, w))
        if left:
            return T.ite(z, x, T.bvor(T.bvshl(x, n), T.bvlshr(y, inv)))
        return T.ite(z, y, T.bvor(T.bvlshr(y, n), T.bvshl(x, inv)))
    return h


def _minmax(f, mx):
    def h(ex, st, a):
        c = f(a[0], a[1])
        return T.ite(c, a[1], a[0]) if mx else T.ite(c, a[0], a[1])
    return h


def intrinsic(name):
    if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove") or name in ("memcpy", "memmove"):
        return _memcpy
    if name.startswith("llvm.memset") or name == "memset":
        return _memset
    if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.invariant", "llvm.stack")):
        return _nop
    if name.startswith("llvm.assume"):
        return _assume
    if name.startswith("llvm.expect"):
        return _expect
    if name.startswith("llvm.trap") or name.startswith("llvm.ubsantrap"):
        return _dead("trap executed")
    if name in ("abort", "_ZSt9terminatev", "__clang_call_terminate"):
        return _dead("abnormal termination")
    if name == "__assert_fail":
        return _dead("assertion failed")
    if name in ("_ZSt21__glibcxx_assert_failPKciS0_S0_",):
        return _dead("library assertion failed")
    if name.startswith("llvm.ctpop"):
        return lambda ex, st, a: popcount(a[0])
    if name.startswith("llvm.ctlz"):
        return lambda ex, st, a: ctlz(a[0])
    if name.startswith("llvm.cttz"):
        return lambda ex, st, a: cttz(a[0])
    if name.startswith("llvm.bswap"):
        def bs(ex, st, a):
            x = a[0]
            return T.cat(*[T.ext(x, 8 * i + 7, 8 * i) for i in range(x.w // 8)])
        return bs
    for s in ("s", "u"):
        for op in ("add", "sub", "mul"):
            if name.startswith("llvm.%s%s.with.overflow" % (s, op)):
                return _ovf(op, s == "s")
    if name.startswith("llvm.usub.sat"):
        return lambda ex, st, a: T.ite(T.ult(a[0], a[1]), T.const(0, a[0].w), T.bvsub(a[0], a[1]))
    if name.startswith("llvm.fshl"):
        return _fsh(True)
    if name.startswith("llvm.fshr"):
        return _fsh(False)
    if name.startswith("llvm.umin"):
        return _minmax(T.ult, False)
    if name.startswith("llvm.umax"):
        return _minmax(T.ult, True)
    if name.startswith("llvm.smin"):
        return _minmax(T.slt, False)
    if name.startswith("llvm.smax"):
        return _minmax(T.slt, True)
    if name.startswith("llvm.abs"):
        return lambda ex, st, a: T.ite(T.slt(a[0], T.const(0, a[0].w)), T.bvneg(a[0]), a[0])
    return None

"""Division contract: inductive proof of the long-division loop and its use as a summary."""
import re
from . import terms as T, smt, symex as X


class LemmaFailed(Exception):
    """an inductive step has a counterexample; .cand is a list of concrete (n, d) to try natively"""

    def __init__(self, msg, cand):
        Exception.__init__(self, msg)
        self.cand = cand


class LemmaUnknown(Exception):
    pass


def dq(n, d):
    return T.bvudiv(n, d)


def dr(n, d):
    return T.bvurem(n, d)


def divide_name(mod, W):
    """mangled name of Aeu<W>::divide(number, divisor, quotient&, remainder&)"""
    pat = re.compile(r"_ZN3AeuILm%dEE6divideERKS0_S2_RS0_S3_$" % W)
    for n in mod.funcs:
        if pat.match(n):
            return n
    return None


def ldw(ex, st, p, W):
    return T.cat(*[ex.load(st, ex.padd(p, T.const(4 * j, 64)), 4) for j in reversed(range(W // 32))])


def stw(ex, st, p, v):
    for j in range(v.w // 32):
        ex.store(st, ex.padd(p, T.const(4 * j, 64)), 4, T.ext(v, 32 * j + 31, 32 * j))


def _place(p):
    return tuple((o, f.id) for _, o, f in p.alts)


def summary(ex, W):
    """replace divide by its contract (a caller must know that the contract is proved by P03)"""
    nm = divide_name(ex.m, W)
    if nm is None:
        return False

    def f(ex, st, a):
        ins, outs = {_place(x) for x in a[:2]}, [_place(x) for x in a[2:4]]
        if ins & set(outs) or outs[0] == outs[1]:
            return NotImplemented         # the contract speaks of distinct objects
        n, d = ldw(ex, st, a[0], W), ldw(ex, st, a[1], W)
        ex.oblige(st, T.eq(d, T.const(0, W)), "division by zero inside the library")
        ex.contract_uses = getattr(ex, "contract_uses", 0) + 1
        stw(ex, st, a[2], dq(n, d))
        stw(ex, st, a[3], dr(n, d))
        return None
    ex.summaries[nm] = f
    return True


def find(mod, pat):
    r = re.compile(pat)
    return [n for n in mod.funcs if r.search(n)]


def arith(ex, W, ops=("add", "mul", "sub")):
    """replace the compound assignments between two Aeu<W> by their contracts (P01, P02)"""
    pats = {"add": r"_ZpLR3AeuILm%dEERKS0_$", "mul": r"_ZmLR3AeuILm%dEERKS0_$", "sub": r"_ZmIR3AeuILm%dEERKS0_$"}
    fn = {"add": T.bvadd, "mul": T.bvmul, "sub": T.bvsub}
    for o in ops:
        for nm in find(ex.m, pats[o] % W):
            def f(ex, st, a, o=o):
                x, y = ldw(ex, st, a[0], W), ldw(ex, st, a[1], W)
                ex.contract_uses = getattr(ex, "contract_uses", 0) + 1
                stw(ex, st, a[0], fn[o](x, y))
                return a[0]
            ex.summaries[nm] = f


class LoopCut:
    """cuts the long-division loop at its head: remainder and quotient bits become fresh symbols that are
    constrained by the invariant  prefix(n) = Q*d + R, R < d  whose preservation is proved per iteration"""

    def __init__(self, ex, W, timeout=60):
        self.W = W
        self.name = divide_name(ex.m, W)
        self.timeout = timeout
        self.cache = {}
        self.proved = 0
        self.complete = 0
        self.note = None
        if self.name is None:
            self.note = "no divide function found"
            return
        ex.summaries[self.name] = self.entry
        ex.block_hooks[self.name] = self.head

    def entry(self, ex, st, a):
        W = self.W
        st.cut = {"a": a, "n": ldw(ex, st, a[0], W), "d": ldw(ex, st, a[1], W), "hd": None, "t": 0, "i": None, "fail": False}
        return NotImplemented

    def head(self, ex, f, blk, st):
        if st.cut is None or st.cut["fail"]:
            return
        s = st.cut = dict(st.cut)
        W = self.W
        n, d = s["n"], s["d"]
        if s["hd"] is None:
            s["hd"] = blk
        elif s["hd"] != blk:
            return
        Q, R = ldw(ex, st, s["a"][2], W), ldw(ex, st, s["a"][3], W)
        t = s["t"]
        s["t"] += 1
        if t == 0:
            if not (Q.op == "c" and Q.k == 0 and R.op == "c" and R.k == 0):
                s["fail"] = True
                return
            s["Q"], s["R"] = Q, R
            s["bits"] = {}
            return
        # one more bit processed
        if s["i"] is None:
            top = W
            while top > 0 and T.ext(n, top - 1, top - 1).op == "c" and T.ext(n, top - 1, top - 1).k == 0:
                top -= 1
            # candidates: all leading constant-zero bits skipped, or the full width
            cands = [top - 1] + ([W - 1] if top != W else [])
            i = None
            for c in cands:
                nb = T.ext(n, c, c)
                if self.step(s["R"], d, nb, Q, c, R, st, probe=True):
                    i = c
                    break
            if i is None:
                i = cands[0]
            # everything above i must be zero
            s["i"] = i
        else:
            s["i"] -= 1
            i = s["i"]
        if i < 0:
            s["fail"] = True
            self.note = "more iterations than bits"
            return
        nb = T.ext(n, i, i)
        # quotient: only bit i may have changed
        qi = T.ext(Q, i, i)
        hi, lo = (T.ext(Q, W - 1, i + 1) if i + 1 < W else None), (T.ext(Q, i - 1, 0) if i > 0 else None)
        oldhi = T.ext(s["Q"], W - 1, i + 1) if i + 1 < W else None
        if (hi is not None and hi is not oldhi) or (lo is not None and not (lo.op == "c" and lo.k == 0)):
            c = T.TRUE
            goal = T.and_(T.eq(hi, oldhi) if hi is not None else T.TRUE, T.eq(lo, T.const(0, lo.w)) if lo is not None else T.TRUE)
            r, env = smt.check(self.dpre(d) + [T.not_(goal)], self.timeout)
            if r == "sat":
                self.fail(s, env, i, nb, "quotient bits other than bit %d change" % i)
            if r != "unsat":
                raise LemmaUnknown("quotient update not decided at bit %d" % i)
        self.step(s["R"], d, nb, Q, i, R, st, s=s)
        self.proved += 1
        ex.lemmas += 1
        # cut
        if i == 0:
            Qn, Rn = dq(n, d), dr(n, d)
            self.complete += 1
        else:
            q1 = qi if qi.op == "c" else T.fresh("q", 1)
            Qn = T.cat(*([x for x in (oldhi, q1) if x is not None] + [T.const(0, i)]))
            # number of prefix bits that can be non-zero
            tb = 0
            for j in range(W - 1, i - 1, -1):
                x = T.ext(n, j, j)
                if x.op == "c" and x.k == 0 and tb == 0:
                    continue
                tb += 1
            # R never exceeds the prefix of n; rounded up to blocks so that iterations share their queries
            bound = (1 << (W - 1 if tb > W - 32 else (tb + 31) // 32 * 32)) - 1
            bound = min(bound, (1 << ((d.hi.bit_length() + 31) // 32 * 32)) - 1)
            blocks = []
            for j in range(W // 32):
                h = min(0xffffffff, bound >> (32 * j))
                if bound >> (32 * j) == 0:
                    blocks.append(T.const(0, 32))
                else:
                    blocks.append(T.fresh("R", 32, 0, h))
            Rn = T.cat(*reversed(blocks))
            st.assume(T.ult(Rn, d))
        s["Q"], s["R"] = Qn, Rn
        stw(ex, st, s["a"][2], Qn)
        stw(ex, st, s["a"][3], Rn)

    def dpre(self, d):
        return [T.not_(T.eq(d, T.const(0, d.w)))]

    def step(self, Rp, d, nb, Q, i, R, st, probe=False, s=None):
        """R' < d and 2R + n_i = R' + q_i*d  from R < d (R within its range)"""
        W = self.W
        q = T.ext(Q, i, i)
        w = W + 2
        lhs = T.cat(T.const(0, 1), Rp, nb)
        rhs = T.bvadd(T.zext(R, w), T.ite(T.eq(q, T.const(1, 1)), T.zext(d, w), T.const(0, w)))
        goal = T.and_(T.ult(R, d), T.eq(lhs, rhs))
        pre = self.dpre(d) + ([] if Rp.op == "c" else [T.ult(Rp, d)])
        if Rp.op == "c":
            pre.append(T.ult(Rp, d))
        f = T.and_(*pre, T.not_(goal))
        if f is T.FALSE:
            return True
        # rename to share work between iterations
        if nb.op != "c":
            f = T.subst([f], {nb.id: T.var("nb", 1)})[0]
        key = _shape(f)
        c = self.cache.get(key)
        if c:
            return True
        r, env = smt.check([f], 3 if probe else self.timeout)
        if r == "unsat":
            self.cache[key] = True
            return True
        if probe:
            return False
        if r == "sat":
            # the code may have used what this path knows about the divisor
            dv = {v.id for v in T.variables([d])}
            extra = [c for c in st.pc if {v.id for v in T.variables([c])} <= dv]
            if extra:
                g = T.and_(f, *extra)
                key = _shape(g)
                if self.cache.get(key):
                    return True
                r, env = smt.check([g], self.timeout)
                if r == "unsat":
                    self.cache[key] = True
                    return True
        if r == "sat":
            self.fail(s, env, i, nb, "step at bit %d" % i)
        raise LemmaUnknown("division step at bit %d not decided" % i)

    def fail(self, s, env, i, nb, msg):
        W = self.W
        Rp = T.evaluate([s["R"]], env)[0]
        d = T.evaluate([s["d"]], env)[0]
        b = env["nb"] if "nb" in env else T.evaluate([nb], env)[0] if nb.op != "c" else nb.k
        top = ((2 * Rp + b) << i) & ((1 << W) - 1)
        cand = []
        for low in (0, (1 << i) - 1, 1, (1 << i) // 3):
            cand.append((top | (low & ((1 << i) - 1)), d))
        # also with a non-zero quotient prefix
        for k in range(1, 40):
            for m in (k, (1 << k) - 1, 1 << k):
                pre = m * d + Rp
                v = ((2 * pre + b) << i)
                if v < (1 << W):
                    cand.append((v, d))
        raise LemmaFailed(msg, cand)


def _shape(f):
    """structure of a formula up to names of variables with equal ranges"""
    ids = {}
    out = []
    vn = {}
    for t in T.postorder([f]):
        ids[t.id] = len(ids)
        if t.op in ("v", "bv"):
            vn[t.id] = len(vn)
            out.append((t.op, t.w, t.lo, t.hi))
        else:
            out.append((t.op, t.w, t.k) + tuple(ids[x.id] for x in t.a))
    return tuple(out)

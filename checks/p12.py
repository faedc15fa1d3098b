"""P12: power2 and squareRoot are exact"""
import math
from .common import *
from engine import contracts as C

ID = "P12"


def isqrt_ok(r, n):
    """r*r <= n < (r+1)^2 on terms, without overflow"""
    W = n.w
    w = 2 * W + 2
    R, N = T.zext(r, w), T.zext(n, w)
    R1 = T.bvadd(R, T.const(1, w))
    return T.and_(T.not_(T.ult(N, T.bvmul(R, R))), T.ult(N, T.bvmul(R1, R1)))


def isqrt_spec(r, n):
    if r.op == "c" and n.op == "c":
        return T.TRUE if math.isqrt(n.k) == r.k else T.FALSE
    return isqrt_ok(r, n)


def peel(x, n):
    """x = (s >> 1) with s = p + n/p  ->  (p, udiv term, s)"""
    W = x.w
    s = None
    e = x
    if x.op == "cat" and len(x.a) == 2 and x.a[0].op == "c" and x.a[0].k == 0:
        e = x.a[1]
    if e.op == "ext" and e.k[1] == 1 and e.a[0].w == W and e.a[0].hi < 1 << (e.k[0] + 1):
        s = e.a[0]
    if x.op == "lshr" and x.a[1].op == "c" and x.a[1].k == 1:
        s = x.a[0]
    if s is None or s.op != "add" or len(s.a) != 2:
        return None
    for p, q in (s.a, s.a[::-1]):
        if q is T.bvudiv(n, p):
            return p, q, s
    return None


_lem = {}


def nia(name):
    """integer lemmas about one Newton step (unbounded integers)"""
    if name in _lem:
        return _lem[name]
    import z3
    n, x, q, r, y, h = z3.Ints("n x q r y h")
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(n >= 1, x >= 1, n == q * x + r, r >= 0, r < x, q >= 0)
    if name == "step":       # y = (x+q) div 2:  (y+1)^2 > n and y >= 1
        s.add(x + q == 2 * y + h, h >= 0, h <= 1)
        # (x+q+1)^2 - 4n = (x-q-1)^2 + 4(x-r) > 0  and x+q+1 <= 2(y+1)
        d = z3.Int("d")
        s.add(d == x - q - 1)
        s.push()
        s.add((x + q + 1) * (x + q + 1) != d * d + 4 * q * x + 4 * x)
        ok = s.check() == z3.unsat
        s.pop()
        # with the identity: (x+q+1)^2 >= 4qx + 4x > 4n
        k = z3.Int("k")
        s2 = z3.Solver()
        s2.set("timeout", 20000)
        u, v, n4 = z3.Ints("u v n4")
        s2.add(u >= 2, v >= u, u * u > n4, z3.Not(v * v > n4))
        ok = ok and s2.check() == z3.unsat
        s.push()
        s.add(z3.Not(4 * q * x + 4 * x > 4 * n))
        ok = ok and s.check() == z3.unsat
        s.pop()
        s.push()
        s.add(z3.Not(z3.And(2 * (y + 1) >= x + q + 1, y >= 1)))
        s3 = z3.Solver()
        s3.set("timeout", 20000)
        s3.add(x >= 1, q >= 0, z3.Implies(x == 1, q >= 1), x + q == 2 * y + h, h >= 0, h <= 1, z3.Not(z3.And(2 * (y + 1) >= x + q + 1, y >= 1)))
        ok = ok and s3.check() == z3.unsat
        s.pop()
        s.push()
        s.add(x == 1, q < 1)
        ok = ok and s.check() == z3.unsat
        s.pop()
    elif name == "small":    # (x+1)^2 > n  ->  q <= x + 2
        s.add((x + 1) * (x + 1) > n, q >= x + 3)
        # q >= x+3 -> n >= (x+3)x >= (x+1)^2 unless x < 1
        ok = s.check() == z3.unsat
    elif name == "exit":     # (x+q) div 2 >= x  ->  x^2 <= n
        s.add(x + q == 2 * y + h, h >= 0, h <= 1, y >= x, x * x > n)
        ok = s.check() == z3.unsat
    smt.STATS["queries"] += 1
    smt.STATS["unsat" if ok else "unknown"] += 1
    _lem[name] = ok
    return ok


def newton(ctx, case):
    """induction over the Newton iterations of the path"""
    W, n, res = case.W, ctx.i["a"].wide, ctx.o["o"].wide
    xs = [res]
    sums = []
    x = res
    while x.op != "c":
        p = peel(x, n)
        if p is None:       # the first step may have been simplified away: try every power of two as start
            for k in range(W):
                s = T.bvadd(T.const(1 << k, W), T.bvudiv(n, T.const(1 << k, W)))
                y = T.lshr_c(s, 1)
                if y.hi < x.lo or y.lo > x.hi:
                    continue
                if y is x or smt.check(list(ctx.pre) + [T.not_(T.eq(x, y))], 5)[0] == "unsat":
                    p = T.const(1 << k, W), None, s
                    break
        if p is None:
            return [("result is an iterate of (x + n/x)/2", "unknown", None)]
        xs.append(p[0])
        sums.append(p[2])
        x = p[0]
    xs.reverse()
    out = []
    nhi = n.hi
    x0 = xs[0].k
    # base: (x0+1)^2 > n, x0 >= 1
    if not ((x0 + 1) ** 2 > nhi and x0 >= 1 and n.lo >= 1 and x0 < 1 << (W - 2)):
        # candidates at both ends of the case's range
        for env in cand(ctx):
            out.append(("start value is below the root", "sat", env))
        return out
    ok = nia("step") and nia("small") and nia("exit")
    out.append(("integer lemmas about a Newton step", "unsat" if ok else "unknown", None))
    # the path condition must say x_{i+1} < x_i and, for the last iterate, next >= x
    last = xs[-1]
    nxt = T.cat(T.const(0, 1), T.ext(T.bvadd(last, T.bvudiv(n, last)), W - 1, 1))
    rel = [("iterate %d decreases" % i, T.ult(xs[i + 1], xs[i])) for i in range(len(xs) - 1)]
    rel.append(("loop left when the next iterate does not decrease", T.not_(T.ult(nxt, last))))
    for lab, c in rel:
        fs = list(ctx.pc) + [T.not_(c)]
        # generalise: the sums are arbitrary words
        m = {}
        for t in T.postorder(fs):
            if t.op == "add" and t.w == W:
                m[t.id] = T.var("sum!%d" % t.id, W)
        fs = T.subst(fs, m)
        r, env = smt.check(fs, 20)
        if r == "sat":      # perhaps only because the sums were taken as arbitrary
            fs = list(ctx.pc) + [T.not_(c)]
            fs = T.subst(fs, {t.id: T.var("quot!%d" % t.id, W, t.lo, t.hi) for t in T.postorder(fs) if t.op == "udiv" and t.w == W})
            r2 = smt.check(fs, 20)[0]
            r = r2 if r2 == "unsat" else r
        if r == "unsat":
            out.append((lab, "unsat", None))
        else:
            cs = cand(ctx)
            out += [(lab, "sat", e) for e in cs[:12]] if r == "sat" else [(lab, "unknown", None)]
    return out


def cand(ctx):
    """inputs around squares inside the case's range (for a refuted step)"""
    n = ctx.i["a"].wide
    vs = [v for v in T.variables([n])]
    out = []
    lo, hi = n.lo, n.hi
    rs = [math.isqrt(lo), math.isqrt(hi), math.isqrt((lo + hi) // 2), math.isqrt(lo + (hi - lo) // 3)]
    for r in rs:
        for v in (r * r, r * r - 1, r * r + 2 * r, (r + 1) ** 2 - 1, (r + 1) ** 2, lo, hi):
            if lo <= v <= hi:
                env = {}
                for t in ctx.i["a"].items:
                    pass
                ok = True
                for j, t in enumerate(ctx.i["a"].items):
                    w = v >> (32 * j) & 0xffffffff
                    if t.op == "v":
                        env[t.k] = w
                        ok = ok and t.lo <= w <= t.hi
                    elif t.op == "c":
                        ok = ok and t.k == w
                    else:
                        for u in T.variables([t]):
                            env[u.k] = w & ((1 << u.w) - 1)
                if ok:
                    out.append(env)
    return out


def nbits(name, n, b):
    """blocks of a number with exactly b significant bits"""
    if b == 0:
        return Blocks([T.const(0, 32)] * n)
    k = (b - 1) // 32
    hb = b - 32 * k
    out = []
    for i in range(n):
        if i < k:
            out.append(V("%s%d" % (name, i), 32))
        elif i == k:
            out.append(T.const(1, 32) if hb == 1 else V("%s%d_%d" % (name, i, hb), 32, 1 << (hb - 1), (1 << hb) - 1))
        else:
            out.append(T.const(0, 32))
    return Blocks(out)


def plan(t, W, exact=False):
    def setup(ex):
        C.summary(ex, W)
        C.arith(ex, W, ("add",))
        nm = C.divide_name(ex.m, W)
        ex.feasible = None
        ex.plan = X.Plan(ex.m, [nm], t)
        if nm is None:
            raise X.Unsupported("no divide function")
    return setup


def build():
    ops, cases = [], []
    # ---- power2
    for W in ([96, 128, 256, 512, 2048] if Q else [96, 128, 160, 192, 256, 512, 1024, 2048, 4096, 8192]):
        n = W // 32
        for cls, st, ns in (("Aeu", "stu", 0), ("Aesi", "sts", 1)):
            def spec(i, o, ns=ns, n=n, W=W):
                k = i["k"]
                big = T.not_(T.ult(k, T.const(W, 64)))
                one = T.const(1, W)
                sh = T.bvshl(one, wz(k, W))
                v = T.ite(big, T.const(0, W), sh)
                g = [("value", o["o"].sl(ns, ns + n), v)]
                if ns:
                    g.append(("sign", o["o"][0], T.ite(big, T.const(1, 32), T.const(2, 32))))
                return g
            op = Op("%s_power2_%d" % (cls, W), [("k", ("u", 64)), ("o", ("out", W // 8 + 4 * ns))],
                    "{2}<{1}>({0}<{1}>::power2(k), o);".format(cls, W, st), spec)
            ops.append(op)
            for b in range(n):
                cases.append(Case(op, "%s bit in block %d" % (op.name, b), lambda b=b: {"k": V("k%d" % b, 64, 32 * b, 32 * b + 31)}, weight=0.05,
                                  vectors=8, bounds="W=%d, every exponent in this block" % W))
            cases.append(Case(op, op.name + " out of range", lambda W=W: {"k": V("kbig", 64, W)}, weight=0.1, vectors=20, bounds="W=%d, every exponent >= W" % W))
    # ---- square root
    K = 11 if Q else 14
    for W in ([96, 128, 256, 512, 1024] if Q else [96, 128, 160, 256, 512, 1024, 2048]):
        n = W // 32
        for cls, ld, st, ns in (("u", "ldu", "stu", 0), ("s", "lds", "sts", 1)):
            if cls == "s" and W > 96 and Q:
                continue
            def spec(i, o, ns=ns, n=n):
                g = [("floor of the root", isqrt_spec(o["o"].sl(ns, ns + n), i["a"].sl(ns, ns + n)))]
                if ns:
                    g.append(("sign", o["o"][0], T.ite(T.eq(o["o"].sl(1, 1 + n), T.const(0, 32 * n)), T.const(1, 32), T.const(2, 32))))
                return g
            op = Op("%s_sqrt_%d" % (cls, W), [("a", ("in", W // 8 + 4 * ns)), ("o", ("out", W // 8 + 4 * ns))],
                    "{0}<{2}>({1}<{2}>(a).squareRoot(), o);".format(st, ld, W), spec)
            ops.append(op)

            def mk(b, cls=cls, n=n):
                x = nbits("a", n, b)
                return {"a": x if cls == "u" else Blocks([T.const(1, 32)] + x.items)}
            # exact small numbers, real arithmetic on the values (contract of divide)
            small = 10 if Q else 14
            if W <= 128:
                for b in range(1 if cls == "s" else 0, small + 1):
                    for t in range(0, 6 if b else 1):
                        cases.append(Case(op, "%s %d bits, %d steps (exact)" % (op.name, b, t), lambda b=b, mk=mk: mk(b), setup=plan(t, W) if b else None, weight=0.3,
                                          vacuous=True, vectors=40, timeout=40, bounds="W=%d, every number of %d bits taking %d Newton steps" % (W, b, t + 1)))
            if cls == "s":
                z = Op("s_sqrt_nonpos_%d" % W, op.params, op.body, lambda i, o, n=n: [("zero", o["o"].sl(1, 1 + n), T.const(0, 32 * n)), ("zero sign", o["o"][0], T.const(1, 32))])
                ops.append(z)
                for sg in (0, -1):
                    cases.append(Case(z, z.name + (" zero" if sg == 0 else " negative"), lambda sg=sg, n=n: {"a": sblocks("a", n, sg)}, weight=0.05,
                                      bounds="every %s number" % ("zero" if sg == 0 else "negative")))
                continue
            for b in range(small + 1, W + 1):
                if Q and W > 128 and b % 64 not in (0, 1):
                    continue
                if Q and W > 256 and b not in (W, W - 1, W - 2, W // 2 + 1, W - 63, 64 + 1):
                    continue
                if Q and W == 128 and b % 4 and b % 32 not in (1, 31):
                    continue
                for t in range(0, min(K + (W >= 512), b.bit_length() + 3)):
                    c = Case(op, "%s %d bits, %d steps" % (op.name, b, t), lambda b=b, mk=mk: mk(b), setup=plan(t, W), weight=0.02 if W <= 256 else 0.3, prove=newton,
                             vacuous=True, vectors=3, bounds="W=%d, every number of %d bits taking %d Newton steps" % (W, b, t + 1))
                    c.W = W
                    cases.append(c)
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="squareRoot: up to log2(bits)+3 Newton steps from the start value, every bit length; power2: every exponent",
                 assumptions=["squareRoot is proved against the contracts of divide (P03) and += (P01); the Newton step lemmas are discharged over unbounded integers"])

"""P10: gcd, Bezout coefficients and lcm"""
import math
from .common import *
from engine import contracts as C

ID = "P10"


def plan(W, t, arm, ops=()):
    def setup(ex):
        if not C.summary(ex, W):
            raise X.Unsupported("no divide function")
        C.arith(ex, W, ops)
        ex.feasible = None
        ex.plan = X.Plan(ex.m, [C.divide_name(ex.m, W)], t, arms=[arm])
    return setup


def split(v, name, n):
    return {"%s%d" % (name, j): v >> (32 * j) & 0xffffffff for j in range(n)}


def follow(rng, W, t, first_greater):
    """operands for which Euclid's algorithm takes t extra steps (None: none found)"""
    for _ in range(60):
        budget = W
        g = rng.choice([1, 2, 3, (1 << 32) - 1, 1 << 32, (1 << 33) + 1, rng.getrandbits(rng.randrange(1, W)) | 1])
        r, d = 0, g
        small = rng.random() < 0.5
        for s in range(t + 1):
            c = rng.random()
            if c < 0.5 or t > 24:
                q = rng.choice([1, 1, 1, 2, 3]) if t < 60 else 1
            elif c < 0.7:
                q = rng.choice([(1 << 32) - 1, 1 << 32, 1 << 31, (1 << 32) + 1])
            else:
                q = rng.getrandbits(rng.randrange(1, max(2, W // (t + 1)))) | 1
            if s == 0 and t > 0:       # the last quotient is at least two
                q = max(q, 2)
            r, d = d, q * d + r
        n, d = d, r
        if n >= 1 << W or d == 0:
            continue
        if n == d and first_greater:
            continue
        return (n, d) if first_greater else (d, n)
    return None


def mkgen(W, t, arm):
    n = W // 32

    def gen(rng):
        p = follow(rng, W, t, arm)
        if p is None:
            return None
        return {**split(p[0], "a", n), **split(p[1], "b", n)}
    return gen


def G(a, b):
    if a.op == "c" and b.op == "c":
        return T.const(math.gcd(a.k, b.k), a.w)
    if a.op == "c" and a.k == 0:
        return b
    if b.op == "c" and b.k == 0:
        return a
    return T.uf("gcd", a.w, a, b)


def cands(case, n=24):
    import random
    rng = random.Random(core.SEED)
    out = []
    for _ in range(n):
        e = case.gen(rng)
        if e:
            out.append(e)
    return out


def abstract(fs, W):
    """wide products and divisions become uninterpreted functions"""
    m = {}
    for t in T.postorder(fs):
        if t.op in ("udiv", "urem", "mul") and t.w == W and any(x.op != "c" for x in t.a):
            a = T.subst(list(t.a), m) if m else list(t.a)
            if t.op == "mul" and a[0].id > a[1].id:
                a = a[::-1]
            m[t.id] = T.uf("u" + t.op, W, *a)
    return (T.subst(list(fs), m) if m else list(fs)), m


def euclid(ctx, case, goal):
    """goal(G) under the facts G(n,d) = G(d, n mod d), G(x,0) = x, G(x,y) = G(y,x) for the divisions of the path"""
    W = case.W
    a, b = ctx.i["a"].wide, ctx.i["b"].wide
    res = []
    fs = list(ctx.pc)
    z = T.const(0, W)
    gl = goal(ctx)
    ax = [T.eq(G(a, b), G(b, a))]
    for t in T.postorder(fs + [x for l, r in gl for x in (l, r)]):
        if t.op == "urem" and t.w == W:
            n, d = t.a
            ax.append(T.implies(T.not_(T.eq(d, z)), T.eq(G(n, d), G(d, t))))
            ax.append(T.implies(T.eq(t, z), T.eq(G(d, t), d)))
    for l, r in gl:
        q, _ = abstract(fs + ax + [T.not_(T.eq(l, r))], W)
        s, env = smt.check(q, case.timeout)
        res.append(("equals the gcd", s) if False else s)
    return res


def outcome(case, lab, s):
    if s == "sat":
        cs = cands(case)
        return [(lab, "sat", e) for e in cs] or [(lab, "unknown", None)]
    return [(lab, s, None)]


def prove_gcd(ctx, case):
    out = []
    for lab, s in zip(("greatest common divisor",), euclid(ctx, case, lambda c: [(c.o["o"].wide, G(c.i["a"].wide, c.i["b"].wide))])):
        out += outcome(case, lab, s)
    return out


def prove_lcm(ctx, case):
    out = []
    a, b = ctx.i["a"].wide, ctx.i["b"].wide
    for lab, s in zip(("a / gcd * b",), euclid(ctx, case, lambda c: [(c.o["o"].wide, T.bvmul(T.bvudiv(a, G(a, b)), b))])):
        out += outcome(case, lab, s)
    return out


class NotPoly(Exception):
    pass


def ring(roots, W):
    """terms over +,-,* and Euclidean division -> integer polynomials (n mod d is n - (n div d)*d)"""
    import z3
    memo = {}
    for t in T.postorder(roots):
        a = [memo.get(x.id) for x in t.a]
        if t.op == "c":
            v = t.k
            r = z3.IntVal(v if v < 1 << (t.w - 1) else v - (1 << t.w)) if t.w == W else None
        elif t.op in ("add", "mul", "sub") and t.w == W:
            r = a[0] + a[1] if t.op == "add" else a[0] * a[1] if t.op == "mul" else a[0] - a[1]
        elif t.op == "udiv" and t.w == W:
            r = z3.Int("q%d_%d" % (t.a[0].id, t.a[1].id))
        elif t.op == "urem" and t.w == W:
            r = a[0] - z3.Int("q%d_%d" % (t.a[0].id, t.a[1].id)) * a[1]
        elif t.w == W and t.op in ("v", "cat"):
            r = z3.Int("x%d" % t.id)
        else:
            r = None
        memo[t.id] = r
    for t in roots:
        if memo[t.id] is None:
            raise NotPoly(t.op)
    return [memo[t.id] for t in roots]


def prove_bezout(ctx, case):
    import z3, time
    W = case.W
    a, b = ctx.i["a"].wide, ctx.i["b"].wide
    out = prove_gcd(ctx, case)
    if any(s != "unsat" for _, s, _ in out):
        return out
    x, y, g = ctx.o["x"].wide, ctx.o["y"].wide, ctx.o["o"].wide
    lab = "a*x + b*y = gcd"
    try:
        A, B, xx, yy, gg = ring([a, b, x, y, g], W)
    except (NotPoly, TypeError) as e:
        # not a polynomial: only a direct query remains
        s, env = smt.check(abstract(list(ctx.pc) + [T.not_(T.eq(T.bvadd(T.bvmul(a, x), T.bvmul(b, y)), g))], W)[0], 5)
        return out + ([(lab, "sat", e) for e in cands(case)] if s != "unsat" else [(lab, s, None)])
    s = z3.Solver()
    s.set("timeout", 60000)
    d = z3.simplify(A * xx + B * yy - gg, som=True)
    s.add(d != 0)
    t0 = time.time()
    r = str(s.check())
    smt.STATS["queries"] += 1
    smt.STATS[r] += 1
    smt.STATS["time"] += time.time() - t0
    if r == "unsat":
        return out + [(lab, r, None)]
    if r == "sat":
        return out + outcome(case, lab, "sat")
    return out + [(lab, "unknown", None)]


def nz(i):
    return [T.not_(T.eq(i["a"].wide, T.const(0, i["a"].wide.w))), T.not_(T.eq(i["b"].wide, T.const(0, i["b"].wide.w)))]


def build():
    ops, cases = [], []
    for W in ([96, 128, 256] if Q else [96, 128, 160, 192, 256, 512]):
        n = W // 32
        p = [("a", B(W)), ("b", B(W)), ("o", O(W))]

        def sg(i, o):
            return [("greatest common divisor", o["o"].wide, G(i["a"].wide, i["b"].wide))]

        def sb(i, o):
            a, b = i["a"].wide, i["b"].wide
            return sg(i, o) + [("a*x + b*y = gcd", T.bvadd(T.bvmul(a, o["x"].wide), T.bvmul(b, o["y"].wide)), o["o"].wide)]

        def sl(i, o):
            a, b = i["a"].wide, i["b"].wide
            return [("a / gcd * b", o["o"].wide, T.bvmul(T.bvudiv(a, G(a, b)), b))]
        og = Op("gcd_%d" % W, p, "stu<{0}>(Aeu<{0}>::gcd(ldu<{0}>(a), ldu<{0}>(b)), o);".format(W), sg)
        ob = Op("bezout_%d" % W, p + [("x", O(W)), ("y", O(W))],
                "Aeu<{0}> X, Y; stu<{0}>(Aeu<{0}>::gcd(ldu<{0}>(a), ldu<{0}>(b), X, Y), o); stu<{0}>(X, x); stu<{0}>(Y, y);".format(W), sb)
        ol = Op("lcm_%d" % W, p, "stu<{0}>(Aeu<{0}>::lcm(ldu<{0}>(a), ldu<{0}>(b)), o);".format(W), sl)
        ops += [og, ob, ol]
        inp = lambda n=n: {"a": ublocks("a", n), "b": ublocks("b", n)}
        if W == 96:
            ts = list(range(0, 41)) + [45, 50, 60, 70, 80, 100, 120] if Q else list(range(0, 141))
        else:
            ts = (range(0, 9) if W == 128 else [0, 1, 2, 5]) if Q else range(0, 60)
        for t in ts:
            for arm in (0, 1):
                bd = "W=%d, every pair whose Euclid run has %d steps" % (W, t + 1)
                c = Case(og, "gcd_%d steps %d arm %d" % (W, t + 1, arm), inp, assume=nz, setup=plan(W, t, arm), prove=prove_gcd, vacuous=True,
                         weight=0.1 + 0.02 * t, bounds=bd, vectors=12, timeout=60)
                cs = [c]
                if t <= (9 if Q else 14):
                    cs.append(Case(ob, "bezout_%d steps %d arm %d" % (W, t + 1, arm), inp, assume=nz, setup=plan(W, t, arm, ("add", "mul", "sub")), prove=prove_bezout,
                                   vacuous=True, weight=0.3 + 0.05 * t, bounds=bd, vectors=30, timeout=60))
                if t <= (6 if Q else 30):
                    cs.append(Case(ol, "lcm_%d steps %d arm %d" % (W, t + 1, arm), inp, assume=nz, setup=plan(W, t, arm, ("add", "mul", "sub")), prove=prove_lcm,
                                   vacuous=True, weight=0.3, bounds=bd, vectors=30, timeout=60))
                for c in cs:
                    c.W = W
                    c.gen = mkgen(W, t, None)
                    c.t = t
                    c.arm = arm
                    c.gen = None
                    c.gens = [mkgen(W, t, False), mkgen(W, t, True)]
                    c.gen = (lambda rng, gs=c.gens: rng.choice(gs)(rng))
                cases += cs
        for o in (og, ob):
            for k in range(1, n + 1):
                cases.append(Case(o, "%s (0, %d blocks)" % (o.name, k), lambda n=n, k=k: {"a": ublocks("a", n, 0), "b": ublocks("b", n, k)}, weight=0.3,
                                  bounds="gcd(0, b), every b of %d blocks" % k))
                cases.append(Case(o, "%s (%d blocks, 0)" % (o.name, k), lambda n=n, k=k: {"a": ublocks("a", n, k), "b": ublocks("b", n, 0)}, weight=0.3,
                                  bounds="gcd(a, 0), every a of %d blocks" % k))
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="Euclid runs of up to 41 steps (and 46, 51, 61, 71, 81, 101, 121) at 96 bits, fewer at other widths; thorough: every run length at 96 bits; Bezout up to 10 (thorough 15) steps; "
                 "zero operands by filled blocks",
                 assumptions=["gcd is proved against the contracts of divide (P03), +=, -= and *= (P01, P02)",
                              "the identities gcd(n,d) = gcd(d, n mod d), gcd(x,0) = x and gcd(x,y) = gcd(y,x) define gcd"])

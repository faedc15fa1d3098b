"""P11: powm is modular exponentiation"""
import random
from .common import *
from engine import contracts as C

ID = "P11"


def spec(i, o):
    b, e, m = i["b"].wide, i["e"].wide, i["m"].wide
    if b.op == "c" and e.op == "c" and m.op == "c":
        return [("base^exponent mod modulus", o["o"].wide, T.const(pow(b.k, e.k, m.k), b.w))]
    return [("base^exponent mod modulus", T.TRUE)]


def setup(W):
    def f(ex):
        if not C.summary(ex, W):
            raise X.Unsupported("no divide function")
        C.arith(ex, W, ("mul",))
        ex.feasible = None
        ex.step_limit = 3_000_000
    return f


class NoTag(Exception):
    pass


def tag(root, base, m, tw, one=1):
    """root is base^tag mod m, reduced; raises NoTag when the term is not built from products modulo m"""
    memo = {}
    zero = T.const(0, tw)

    def split(t):
        """t as a choice between two values, block by block"""
        if t.op == "ite":
            return t.a
        if t.op != "cat":
            return None
        cs = [x.a[0] for x in t.a if x.op == "ite"]
        if not cs:
            return None
        c = cs[0]
        hi, lo = [], []
        for x in t.a:
            if x.op == "ite" and x.a[0] is c:
                hi.append(x.a[1])
                lo.append(x.a[2])
            elif x.op == "c":
                hi.append(x)
                lo.append(x)
            else:
                return None
        return c, T.cat(*hi), T.cat(*lo)

    def go(t):
        r = memo.get(t.id, 0)
        if r != 0:
            return r
        memo[t.id] = None
        if t is base:
            r = (T.const(1, tw), False)
        elif t.op == "c":
            r = (zero, m.lo > 1) if t.k == 1 else None
        elif t.op == "urem" and t.a[1] is m:
            x = t.a[0]
            r = None
            if x.op == "mul":
                p, q = go(x.a[0]), go(x.a[1])
                if p and q and p[1] and q[1]:
                    r = (T.bvadd(p[0], q[0]), True)
            else:
                p = go(x)
                if p is not None:
                    r = (p[0], True)
        else:
            r = None
            s = split(t)
            if s is not None:
                p, q = go(s[1]), go(s[2])
                if p and q:
                    r = (T.ite(s[0], p[0], q[0]), p[1] and q[1])
        memo[t.id] = r
        return r
    r = go(root)
    if r is None:
        raise NoTag("result is not built from products modulo m")
    if not r[1]:
        raise NoTag("result is not reduced")
    return r[0]


def put(t, name, v, n):
    out = {}
    for j, x in enumerate(t.items):
        w = v >> (32 * j) & 0xffffffff
        if x.op == "v":
            if not x.lo <= w <= x.hi:
                return None
            out[x.k] = w
        elif x.op != "c" or x.k != w:
            return None
    return out


def pool(rng, W, lo, hi):
    """exponent, base, modulus triples at the corners"""
    h = 1 << (W // 2)
    es = [lo, hi, (lo + hi) // 2, rng.randrange(lo, hi + 1), min(hi, lo | 17), min(hi, lo | 1), max(lo, hi & ~1)]
    bm = [(0, 1), (0, 7), (1, 1), (1, 5), (2, 3), (3, h - 1), (h - 2, h - 1), (h, h - 1), (2 * h + 5, h - 59), ((1 << W) - 1, h - 1), (6, 2), (5, h // 2), ((1 << W) - 1, 1 << 31),
          (7, (1 << 32) + 15), (2, 8), (2, 1 << 31), (6, 1 << 20), (10, h // 2), (h // 2 - 1, h // 2), (4, 5), (h - 1, h - 1), (rng.getrandbits(W), rng.randrange(1, h))]
    return es, bm


def cands(ctx, case, env=None):
    rng = random.Random(core.SEED)
    n, p = case.W // 32, case.P // 32
    out = []
    es, bm = pool(rng, case.W, ctx.i["e"].wide.lo, ctx.i["e"].wide.hi)
    if env:
        es.insert(0, T.evaluate([ctx.i["e"].wide], {v.k: env.get(v.k, v.lo) for v in T.variables([ctx.i["e"].wide])})[0])
    for e in es:
        for b, m in bm:
            x, y, z = put(ctx.i["b"], "b", b, n), put(ctx.i["m"], "m", m, n), put(ctx.i["e"], "e", e, p)
            if x is not None and y is not None and z is not None:
                out.append({**x, **y, **z})
    return out


def prove(ctx, case):
    b, e, m, o = ctx.i["b"].wide, ctx.i["e"].wide, ctx.i["m"].wide, ctx.o["o"].wide
    lab = "base^exponent mod modulus"
    if m.op == "c" and m.k == 1:
        r, env = smt.check(list(ctx.pc) + [T.not_(T.eq(o, T.const(0, o.w)))], case.timeout)
        if r == "sat":
            return [(lab, "sat", x) for x in [env] + cands(ctx, case)]
        return [(lab, r, env)]
    tw = case.P + 2
    try:
        # products of reduced values do not overflow: m*m < 2^W
        assert m.hi * m.hi < 1 << o.w
        t = tag(o, b, m, tw)
    except NoTag as x:
        case.note = str(x)
        return [("%s (%s)" % (lab, x), "sat", c) for c in cands(ctx, case)] + [(lab + " (" + str(x) + ")", "unknown", None)]
    r, env = smt.check(list(ctx.pc) + [T.not_(T.eq(t, T.zext(e, tw)))], case.timeout)
    if r == "sat":
        return [(lab, "sat", c) for c in cands(ctx, case, env)]
    if r == "unknown":
        return [(lab, "sat", c) for c in cands(ctx, case)] + [(lab, r, None)]
    return [(lab, r, None)]


def half(name, W, lo=1):
    n = W // 32
    hb = W // 2
    return [V("%s%d" % (name, i), 32) if 32 * i + 32 <= hb else V("%sh%d" % (name, i), 32, 0, (1 << (hb - 32 * i)) - 1) if 32 * i < hb else T.const(0, 32) for i in range(n)]


def mkgen(W, P, inp):
    i = inp()

    def gen(rng):
        es, bm = pool(rng, W, i["e"].wide.lo, i["e"].wide.hi)
        e = rng.choice(es)
        b, m = rng.choice(bm)
        x, y, z = put(i["b"], "b", b, W // 32), put(i["m"], "m", m, W // 32), put(i["e"], "e", e, P // 32)
        return None if x is None or y is None or z is None else {**x, **y, **z}
    return gen


def build():
    ops, cases = [], []
    ws = [96, 128, 256, 512] if Q else [96, 128, 160, 192, 256, 512, 1024]
    combos = [(w, p) for w in ws for p in ws]
    for W, P in combos:
        n, p = W // 32, P // 32
        for form in (["plain", "template"] if W == P else ["template"]):
            name = "powm_%s_%d_%d" % (form, W, P)
            call = "Aeu<%d>::powm%s" % (W, "<%d>" % P if form == "template" else "")
            op = Op(name, [("b", B(W)), ("e", B(P)), ("m", B(W)), ("o", O(W))],
                    "stu<{0}>({2}(ldu<{0}>(b), ldu<{1}>(e), ldu<{0}>(m)), o);".format(W, P, call), spec)
            ops.append(op)
            for k in range(0, p + 1):
                if W == P and form == "template" and Q and k > 2:
                    continue
                if p > 8 and k > 4 and k not in (p // 2, p // 2 + 1, p - 1, p) and (Q or k % 4):
                    continue
                for mm in ("any", "one"):
                    for bb in ("any",):
                        if mm == "one" and (bb != "any" or k > 2):
                            continue
                        if bb != "any" and k > 1:
                            continue

                        def inp(n=n, p=p, k=k, mm=mm, bb=bb, W=W):
                            m = Blocks(half("m", W)) if mm == "any" else Blocks([T.const(1, 32)] + [T.const(0, 32)] * (n - 1))
                            b = ublocks("b", n) if bb == "any" else Blocks([T.const(1 if bb == "one" else 0, 32)] + [T.const(0, 32)] * (n - 1))
                            return {"b": b, "e": ublocks("e", p, k), "m": m}
                        c = Case(op, "%s exponent %d blocks, base %s, modulus %s" % (name, k, bb, mm), inp,
                                 assume=lambda i: [T.not_(T.eq(i["m"].wide, T.const(0, i["m"].wide.w)))],
                                 setup=setup(W), prove=prove, weight=0.05 + 0.08*k, vectors=40, timeout=30,
                                 bounds="W=%d, exponent width %d with %d filled blocks, every base (%s) and modulus (%s) below 2^%d" % (W, P, k, bb, mm, W // 2))
                        c.W, c.P = W, P
                        c.gen = mkgen(W, P, inp)
                        cases.append(c)
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, job_timeout=1200 if core.THOROUGH else 120, bounds="exponent widths up to 512 (thorough 1024) by filled blocks, every base, every modulus below 2^(W/2)",
                 assumptions=["powm is proved against the contracts of divide (P03) and *= (P02)",
                              "x*y mod m = b^(s+t) mod m for x = b^s mod m and y = b^t mod m (no overflow because m*m < 2^W)"])

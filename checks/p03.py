"""P03: unsigned division gives the unique quotient and remainder"""
from .common import *
from engine import contracts as C

ID = "P03"


def qr(ctx, case):
    """quotient and remainder equal n div d and n mod d; if that is not decided, Q*d + R = n and R < d on the paths where they
    are not literally that"""
    out = []
    for g in core.goals_of(case.op, ctx.i, ctx.o):
        r, env = core.smt_goal(ctx.pc, g, case.strategy, case.timeout)
        out.append((g[0], r, env))
        if r == "sat":
            return out
    if all(r == "unsat" for _, r, _ in out):
        return out
    n, d, q, r = ctx.i["a"].wide, ctx.i["b"].wide, ctx.o["q"].wide, ctx.o["r"].wide
    w = 2 * n.w
    same = T.and_(T.eq(q, C.dq(n, d)), T.eq(r, C.dr(n, d)))
    mul = T.and_(T.ult(r, d), T.eq(T.bvadd(T.bvmul(T.zext(q, w), T.zext(d, w)), T.zext(r, w)), T.zext(n, w)))
    fs = list(ctx.pc) + [T.not_(T.or_(same, mul))]
    m = {t.id: T.fresh("dv", t.w) for t in T.postorder(fs) if t.op in ("udiv", "urem")}
    res, env = smt.check(T.subst(fs, m), 60)
    return [("n = q*d + r and r < d", res, env)]


def build():
    ops, cases = [], []
    plan = {96: None, 128: None, 160: [(5, 1), (5, 2), (5, 3), (5, 5), (3, 2), (2, 3)], 256: [(8, 1), (8, 4), (8, 8), (4, 2), (1, 1), (3, 8)],
            512: [(16, 1), (2, 1), (2, 16), (3, 2), (10, 9)], 192: [(6, 6), (6, 1), (6, 3), (4, 2)], 224: [(7, 4), (7, 7)], 1024: [(3, 2)], 2048: [(4, 3)], 8192: [(2, 1), (3, 3)]}
    sparse = {} if Q else {512: [((0, 15), (0, 15)), ((0, 15), (0, 8))], 1024: [((0, 31), (0, 31)), ((31,), (16,))]}
    if not Q:
        plan = {96: None, 128: None, 160: None, 192: None, 256: None, 512: [(16, 1), (16, 8), (16, 15), (16, 16), (8, 4), (2, 1), (2, 16)], 1024: [(32, 1), (32, 32), (4, 2)]}
    for W, parts in plan.items():
        n = W // 32
        cut = lambda ex, W=W: C.LoopCut(ex, W)
        op = Op("u_divide_%d" % W, [("a", B(W)), ("b", B(W)), ("q", O(W)), ("r", O(W))],
                "const auto x = ldu<{0}>(a), y = ldu<{0}>(b); Aeu<{0}> q_, r_; Aeu<{0}>::divide(x, y, q_, r_); stu<{0}>(q_, q); stu<{0}>(r_, r);".format(W),
                lambda i, o: [("quotient", o["q"].wide, C.dq(i["a"].wide, i["b"].wide)), ("remainder", o["r"].wide, C.dr(i["a"].wide, i["b"].wide))])
        ops.append(op)
        for ka, kb in parts or [(i, j) for i in range(n + 1) for j in range(1, n + 1)]:
            cases.append(Case(op, "%s filled %d,%d" % (op.name, ka, kb),
                              lambda n=n, ka=ka, kb=kb: {"a": ublocks("a", n, ka), "b": ublocks("b", n, kb)},
                              setup=cut, weight=0.1 if ka < kb else 1 + ka * ka, vectors=40, strategy=(("bv", 30),), prove=qr,
                              bounds="W=%d, exactly %d and %d significant blocks" % (W, ka, kb)))
        for xa, xb in sparse.get(W, ()):
            cases.append(Case(op, "%s blocks %s by %s" % (op.name, xa, xb), lambda n=n, xa=xa, xb=xb: {"a": wblocks("a", n, *[(x, 1) for x in xa], top=True), "b": wblocks("b", n, *[(x, 1) for x in xb], top=True)},
                              setup=cut, weight=W // 8, vectors=20, strategy=(("bv", 30),), prove=qr, bounds="W=%d, blocks %s and %s symbolic, the others zero, the highest of them not" % (W, xa, xb)))
        # the other entry points, given the contract of divide proved above
        summ = lambda ex, W=W: C.summary(ex, W)
        nz = lambda i: [T.not_(T.eq(i["b"].wide, T.const(0, i["b"].wide.w)))]
        q = lambda i: C.dq(i["a"].wide, i["b"].wide)
        r = lambda i: C.dr(i["a"].wide, i["b"].wide)
        forms = [("div", "stu<{0}>(ldu<{0}>(a) / ldu<{0}>(b), o); stu<{0}>(ldu<{0}>(a), p);", q, lambda i: i["a"].wide),
                 ("mod", "stu<{0}>(ldu<{0}>(a) % ldu<{0}>(b), o); stu<{0}>(ldu<{0}>(a), p);", r, lambda i: i["a"].wide),
                 ("diveq", "auto x = ldu<{0}>(a); const auto y = ldu<{0}>(b); auto& z = (x /= y); stu<{0}>(z, o); stu<{0}>(x, p);", q, q),
                 ("modeq", "auto x = ldu<{0}>(a); const auto y = ldu<{0}>(b); auto& z = (x %= y); stu<{0}>(z, o); stu<{0}>(x, p);", r, r),
                 ("pair", "const auto z = Aeu<{0}>::divide(ldu<{0}>(a), ldu<{0}>(b)); stu<{0}>(z.first, o); stu<{0}>(z.second, p);", q, r),
                 ("both", "const auto x = ldu<{0}>(a), y = ldu<{0}>(b); stu<{0}>((x / y) * y + x % y - x, o); stu<{0}>(x, p);", None, lambda i: i["a"].wide)]
        for nm, body, f, g in forms:
            if nm == "both":
                continue
            op = Op("u_%s_%d" % (nm, W), [("a", B(W)), ("b", B(W)), ("o", O(W)), ("p", O(W))], body.format(W),
                    lambda i, o, f=f, g=g: [("first result", o["o"].wide, f(i)), ("second result", o["p"].wide, g(i))])
            ops.append(op)
            cases.append(Case(op, op.name, lambda n=n: {"a": ublocks("a", n), "b": ublocks("b", n)}, assume=nz, setup=summ, vectors=12, weight=0.2,
                              bounds="W=%d, all values, non-zero divisor (contract of divide)" % W))
        if W > 160:
            continue
        for tn, ct, bits in UTYPES:
            for nm, sy, f in (("div", "/", C.dq), ("mod", "%", C.dr)):
                op = Op("u_%si_%s_%d" % (nm, tn, W), [("a", B(W)), ("k", ("u", 64)), ("o", O(W)), ("p", O(W))],
                        "auto x = ldu<{0}>(a); const {1} y = static_cast<{1}>(k); stu<{0}>(x {2} y, o); x {2}= y; stu<{0}>(x, p);".format(W, ct, sy),
                        lambda i, o, f=f, bits=bits, W=W: [(l, o[v].wide, f(i["a"].wide, wz(trunc(i["k"], bits), W))) for v, l in (("o", "operator"), ("p", "assignment"))])
                op2 = Op("u_i%s_%s_%d" % (nm, tn, W), [("a", B(W)), ("k", ("u", 64)), ("o", O(W))],
                         "const auto x = ldu<{0}>(a); const {1} y = static_cast<{1}>(k); stu<{0}>(y {2} x, o);".format(W, ct, sy),
                         lambda i, o, f=f, bits=bits, W=W: [("built-in first", o["o"].wide, f(wz(trunc(i["k"], bits), W), i["a"].wide))])
                ops += [op, op2]
                kin = (lambda: T.const(1, 64)) if bits == 1 else (lambda bits=bits: T.cat(V("kj", 64 - bits), V("k", bits, 1)) if bits < 64 else V("k", 64, 1))
                cases.append(Case(op, op.name, lambda n=n, kin=kin: {"a": ublocks("a", n), "k": kin()}, setup=summ, vectors=8, weight=0.1,
                                  bounds="W=%d, all values, non-zero %s divisor (contract of divide)" % (W, ct)))
                cases.append(Case(op2, op2.name, lambda n=n: {"a": ublocks("a", n), "k": V("k", 64)}, setup=summ, vectors=8, weight=0.1,
                                  assume=lambda i, W=W: [T.not_(T.eq(i["a"].wide, T.const(0, W)))],
                                  bounds="W=%d, all values, non-zero divisor (contract of divide)" % W))
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="widths and significant-block counts listed per case; all values, non-zero divisors",
                 assumptions=["divide is proved by induction over the iterations of its loop: the invariant prefix(n) = Q*d + R, R < d is discharged by the solver for every iteration",
                              "the operators are proved against the contract of divide established by the same run"])

"""P19: signed multiplication is exact"""
from .signed import *

ID = "P19"
STRAT = (("lin", 40), ("semi", 40), ("bv", 10))


def build():
    ops, cases = [], []
    plan = {96: [(i, j) for i in range(1, 4) for j in range(1, 4)], 128: [(4, 4), (1, 4), (4, 2), (2, 2), (2, 3)], 256: [(8, 1), (2, 3)]}
    if not Q:
        plan = {W: [(i, j) for i in range(1, W // 32 + 1) for j in range(1, W // 32 + 1)] for W in (96, 128, 160)}
        plan[256] = [(8, 1), (1, 8), (4, 4), (3, 8), (8, 8)]

    def prod(i):
        (n1, m1), (n2, m2) = sval(i["a"]), sval(i["b"])
        return T.not_(T.beq(n1, n2)), T.bvmul(m1, m2)
    for W, parts in plan.items():
        n = W // 32
        for nm, body in (("mul", "const auto x = lds<{0}>(a), y = lds<{0}>(b); sts<{0}>(x * y, o);"),
                         ("muleq", "auto x = lds<{0}>(a); const auto y = lds<{0}>(b); auto& r = (x *= y); r *= Aesi<{0}>(1); sts<{0}>(x, o);")):
            op = Op("s_%s_%d" % (nm, W), [("a", SB(W)), ("b", SB(W)), ("o", SO(W))], body.format(W),
                    lambda i, o: sgoals("product", o["o"], *prod(i)))
            ops.append(op)
            if nm == "muleq" and W > 128:
                continue
            for s1 in SIGNS:
                for s2 in SIGNS:
                    if s1 == 0 or s2 == 0:
                        cases.append(Case(op, "%s signs %d %d" % (op.name, s1, s2), lambda n=n, s1=s1, s2=s2: {"a": sblocks("a", n, s1), "b": sblocks("b", n, s2)},
                                          assume=canonical("a", "b"), strategy=(("bv", 30),), weight=0.1, bounds="W=%d, all magnitudes" % W))
                        continue
                    ps = parts if nm == "mul" else parts[-2:]
                    if nm == "mul" and Q and s1 * s2 * s1 != 1 and W > 96:
                        ps = parts[:2]
                    for ka, kb in ps:
                        cases.append(Case(op, "%s signs %d %d filled %d,%d" % (op.name, s1, s2, ka, kb),
                                          lambda n=n, ka=ka, kb=kb, s1=s1, s2=s2: {"a": sblocks("a", n, s1, ka), "b": sblocks("b", n, s2, kb)},
                                          strategy=STRAT, timeout=40, weight=0.25 if W <= 128 else 1,
                                          bounds="W=%d, exactly %d and %d significant blocks" % (W, ka, kb)))
    # wide operands: a few symbolic blocks far apart, everything wraps modulo 2^W
    for W in ([512, 1024, 2080] if Q else [512, 1024, 2048, 2080]):
        n, h = W // 32, W // 64
        op = Op("s_mulsparse_%d" % W, [("a", SB(W)), ("b", SB(W)), ("o", SO(W))], "const auto x = lds<{0}>(a), y = lds<{0}>(b); sts<{0}>(x * y, o);".format(W),
                lambda i, o: sgoals("product", o["o"], *prod(i)))
        ope = Op("s_muleqsparse_%d" % W, [("a", SB(W)), ("b", SB(W)), ("o", SO(W))], "auto x = lds<{0}>(a); const auto y = lds<{0}>(b); x *= y; sts<{0}>(x, o);".format(W),
                 lambda i, o: sgoals("product", o["o"], *prod(i)))
        ops += [op, ope]
        for o_ in (op, ope):
            for xa, xb in (((0, h, n - 1), (0,)), ((0,), (0, h, n - 1)), ((0, n - 2), (0, 1)), ((1, h - 1), (0, h - 1)), ((h,), (h - 1,))):
                for s1, s2 in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                    if o_ is ope and s1 == s2:
                        continue
                    cases.append(Case(o_, "%s signs %d %d blocks %s,%s" % (o_.name, s1, s2, xa, xb),
                                      lambda n=n, xa=xa, xb=xb, s1=s1, s2=s2: {"a": swblocks("a", n, s1, [(x, 1) for x in xa], True), "b": swblocks("b", n, s2, [(x, 1) for x in xb], True)},
                                      strategy=STRAT, timeout=40, weight=0.5, vectors=8, bounds="W=%d, blocks %s and %s symbolic, the others zero" % (W, xa, xb)))
    for W in ([96] if Q else [96, 128]):
        n = W // 32
        for tn, ct, bits, sg in ITYPES:
            def kprod(i, bits=bits, sg=sg):
                n1, m1 = sval(i["a"])
                n2, m2 = ival(i["k"], bits, sg, m1.w)
                return T.not_(T.beq(n1, n2)), T.bvmul(m1, m2)
            if bits == 1:
                ks = kcases(1, False)
            elif bits <= 32:
                ks = [x for x in kcases(bits, sg) if x[0] != "<0"]
                if sg:
                    ks.append(("<0", lambda bits=bits: T.cat(V("kj", 64 - bits), T.bvneg(V("k", bits, 1, (1 << (bits - 1)) - 1)))))
            else:
                # 64 bits: magnitude below or above 2^32
                ks = [("0", lambda: T.const(0, 64)), ("32bit", lambda: V("k", 64, 1, (1 << 32) - 1))]
                if sg:
                    ks += [("64bit", lambda: T.cat(V("kh", 32, 1, (1 << 31) - 1), V("kl", 32))),
                           ("-32bit", lambda: T.bvneg(V("k", 64, 1, (1 << 32) - 1))),
                           ("-64bit", lambda: T.bvneg(T.cat(V("kh", 32, 1, (1 << 31) - 1), V("kl", 32)))),
                           ("min", lambda: T.const(1 << 63, 64))]
                else:
                    ks += [("64bit", lambda: T.cat(V("kh", 32, 1), V("kl", 32)))]
            for nm, e in (("muli", "x * y"), ("muleqi", "x *= y"), ("imul", "y * x")):
                op = Op("s_%s_%s_%d" % (nm, tn, W), [("a", SB(W)), ("k", ("u", 64)), ("o", SO(W))],
                        "auto x = lds<{0}>(a); const {1} y = static_cast<{1}>(k); sts<{0}>({2}, o);".format(W, ct, e),
                        lambda i, o, f=kprod: sgoals("product", o["o"], *f(i)))
                ops.append(op)
                for s in SIGNS:
                    for kn, kf in ks:
                        if s == 0:
                            cases.append(Case(op, "%s sign 0 k%s" % (op.name, kn), lambda n=n, kf=kf: {"a": sblocks("a", n, 0), "k": kf()}, strategy=(("bv", 30),), weight=0.03, vectors=2,
                                              bounds="W=%d, all %s of that class" % (W, ct)))
                            continue
                        for k in (range(1, n + 1) if nm == "muli" and tn not in ("ul", "sl") or not Q else (2,) if bits == 64 else (1, n)):
                            cases.append(Case(op, "%s sign %d filled %d k %s" % (op.name, s, k, kn), lambda n=n, s=s, k=k, kf=kf: {"a": sblocks("a", n, s, k), "k": kf()},
                                              strategy=STRAT, timeout=40, weight=0.04, vectors=2, bounds="W=%d, %d significant blocks, all %s of that class" % (W, k, ct)))
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="widths, significant-block counts, signs and built-in classes listed per case; all values within each",
                 assumptions=["partial products of two symbolic blocks are abstracted to integers within their exact range (sound for 'holds')"])

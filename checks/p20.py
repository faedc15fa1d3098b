"""P20: signed division truncates toward zero and the remainder follows the dividend"""
from .signed import *
from engine import contracts as C

ID = "P20"


def qr(a, b):
    (n1, m1), (n2, m2) = a, b
    return (T.not_(T.beq(n1, n2)), C.dq(m1, m2)), (n1, C.dr(m1, m2))


def build():
    ops, cases = [], []
    for W in ([96, 160, 256, 512] if Q else [96, 128, 160, 256, 512, 1024, 2048]):
        n = W // 32
        summ = lambda ex, W=W: C.summary(ex, W)
        pair = lambda i: qr(sval(i["a"]), sval(i["b"]))
        same = lambda i: (sval(i["a"]), sval(i["a"]))
        forms = [("div", "x / y", "x", lambda i: (pair(i)[0], sval(i["a"]))), ("mod", "x % y", "x", lambda i: (pair(i)[1], sval(i["a"]))),
                 ("diveq", "x /= y", "x", lambda i: (pair(i)[0],) * 2), ("modeq", "x %= y", "x", lambda i: (pair(i)[1],) * 2)]
        for nm, e, e2, f in forms:
            op = Op("s_%s_%d" % (nm, W), [("a", SB(W)), ("b", SB(W)), ("o", SO(W)), ("p", SO(W))],
                    "auto x = lds<{0}>(a); const auto y = lds<{0}>(b); sts<{0}>({1}, o); sts<{0}>({2}, p);".format(W, e, e2),
                    lambda i, o, f=f: sgoals("result", o["o"], *f(i)[0]) + sgoals("left operand", o["p"], *f(i)[1]))
            ops.append(op)
            for s1 in SIGNS:
                for s2 in (1, -1):
                    cases.append(Case(op, "%s signs %d %d" % (op.name, s1, s2), lambda n=n, s1=s1, s2=s2: {"a": sblocks("a", n, s1), "b": sblocks("b", n, s2)},
                                      assume=canonical("a", "b"), setup=summ, vectors=6, weight=0.2, bounds="W=%d, all magnitudes, non-zero divisor (contract of Aeu::divide)" % W))
        # divide with dirty result objects
        op = Op("s_divide_%d" % W, [("a", SB(W)), ("b", SB(W)), ("d", SB(W)), ("o", SO(W)), ("p", SO(W))],
                "const auto x = lds<{0}>(a), y = lds<{0}>(b); auto q = lds<{0}>(d), r = lds<{0}>(d); Aesi<{0}>::divide(x, y, q, r); sts<{0}>(q, o); sts<{0}>(r, p);".format(W),
                lambda i, o: sgoals("quotient", o["o"], *pair(i)[0]) + sgoals("remainder", o["p"], *pair(i)[1]))
        ops.append(op)
        for s1 in SIGNS:
            for s2 in (1, -1):
                for s3 in SIGNS:
                    cases.append(Case(op, "%s signs %d %d old results %d" % (op.name, s1, s2, s3),
                                      lambda n=n, s1=s1, s2=s2, s3=s3: {"a": sblocks("a", n, s1), "b": sblocks("b", n, s2), "d": sblocks("d", n, s3)},
                                      assume=canonical("a", "b", "d"), setup=summ, vectors=6, weight=0.2,
                                      bounds="W=%d, all magnitudes, non-zero divisor, any previous content of the results (contract of Aeu::divide)" % W))
        if W > 128:
            continue
        for tn, ct, bits, sg in ITYPES:
            for nm, sy, j in (("div", "/", 0), ("mod", "%", 1)):
                op = Op("s_%si_%s_%d" % (nm, tn, W), [("a", SB(W)), ("k", ("u", 64)), ("o", SO(W)), ("p", SO(W))],
                        "auto x = lds<{0}>(a); const {1} y = static_cast<{1}>(k); sts<{0}>(x {2} y, o); x {2}= y; sts<{0}>(x, p);".format(W, ct, sy),
                        lambda i, o, j=j, bits=bits, sg=sg, W=W: [g for v, l in (("o", "operator"), ("p", "assignment")) for g in
                                                                  sgoals(l, o[v], *qr(sval(i["a"]), ival(i["k"], bits, sg, W))[j])])
                op2 = Op("s_i%s_%s_%d" % (nm, tn, W), [("a", SB(W)), ("k", ("u", 64)), ("o", SO(W))],
                         "const auto x = lds<{0}>(a); const {1} y = static_cast<{1}>(k); sts<{0}>(y {2} x, o);".format(W, ct, sy),
                         lambda i, o, j=j, bits=bits, sg=sg, W=W: sgoals("built-in first", o["o"], *qr(ival(i["k"], bits, sg, W), sval(i["a"]))[j]))
                ops += [op, op2]
                for s in SIGNS:
                    for kn, kf in kcases(bits, sg):
                        if kn not in ("0", "false"):
                            cases.append(Case(op, "%s sign %d k%s" % (op.name, s, kn), lambda n=n, s=s, kf=kf: {"a": sblocks("a", n, s), "k": kf()}, assume=canonical("a"),
                                              setup=summ, vectors=4, weight=0.05, bounds="W=%d, all magnitudes, all %s of that sign (contract of Aeu::divide)" % (W, ct)))
                        if s:
                            cases.append(Case(op2, "%s sign %d k%s" % (op2.name, s, kn), lambda n=n, s=s, kf=kf: {"a": sblocks("a", n, s), "k": kf()}, assume=canonical("a"),
                                              setup=summ, vectors=4, weight=0.05, bounds="W=%d, all magnitudes, all %s of that sign (contract of Aeu::divide)" % (W, ct)))
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="widths and sign combinations listed per case; all magnitudes, non-zero divisors",
                 assumptions=["Aeu::divide meets its contract (established by the check of P03)"])

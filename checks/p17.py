"""P17: a signed zero is always the canonical zero"""
from .signed import *
from engine import contracts as C

ID = "P17"
STRAT = (("abs", 20), ("bv", 40), ("cvc5", 30))
TAIL = (" sts<{1}>(r, o); p[0] = uint32_t(r == 0) | uint32_t(r < 0) << 1 | uint32_t(r > 0) << 2 | uint32_t(r == Aesi<{1}>(0)) << 3 | uint32_t(r.bitCount() == 0) << 4"
        " | uint32_t(r.isZero() && (r.isPositive() || r.isNegative())) << 5;")


def spec(i, o):
    ob = o["o"]
    m = ob.sl(1, len(ob))
    z = T.eq(m, T.const(0, m.w))
    f, p = ob[0], o["p"][0]
    bit = lambda n: T.v2b(T.ext(p, n, n))
    return canon_goals("result", ob) + [("== 0", T.beq(bit(0), z)), ("== Aesi(0)", T.beq(bit(3), z)), ("bitCount is 0", T.beq(bit(4), z)),
                                        ("< 0 iff negative", T.beq(bit(1), T.eq(f, T.const(4, 32)))), ("> 0 iff positive", T.beq(bit(2), T.eq(f, T.const(2, 32)))),
                                        ("zero is unsigned", T.not_(bit(5)))]


def build():
    ops, cases = [], []
    for W in ([96, 128, 256] if Q else [96, 128, 160, 256, 512]):
        n = W // 32
        summ = lambda ex, W=W: C.summary(ex, W)

        def op2(nm, e, pre="", nzb=False, W2=None, **kw):
            W2 = W2 or W
            op = Op("s_z%s_%d" % (nm, W), [("a", SB(W)), ("b", SB(W)), ("o", SO(W2)), ("p", ("out", 4))],
                    ("auto x = lds<{0}>(a); auto y = lds<{0}>(b); " + pre + " const Aesi<{1}> r = " + e + ";" + TAIL).format(W, W2), spec)
            ops.append(op)
            for s1 in SIGNS:
                for s2 in SIGNS:
                    if nzb and s2 == 0:
                        continue
                    cases.append(Case(op, "%s signs %d %d" % (op.name, s1, s2), lambda n=n, s1=s1, s2=s2: {"a": sblocks("a", n, s1), "b": sblocks("b", n, s2)},
                                      assume=canonical("a", "b"), weight=0.15, vectors=12, strategy=STRAT, bounds="W=%d, all magnitudes (also wrapping results)" % W, **kw))
        op2("add", "x + y")
        op2("sub", "x - y")
        op2("addeq", "x", "x += y;")
        op2("subeq", "x", "x -= y;")
        if W <= 128 or not Q:
            op2("mul", "x * y")
            op2("muleq", "x", "x *= y;")
        op2("div", "x / y", nzb=True, setup=summ)
        op2("diveq", "x", "x /= y;", nzb=True, setup=summ)
        op2("mod", "x % y", nzb=True, setup=summ)
        op2("modeq", "x", "x %= y;", nzb=True, setup=summ)
        op2("dq", "y", "auto u = y; Aesi<{0}>::divide(x, lds<{0}>(b), y, u);", nzb=True, setup=summ)
        op2("dr", "y", "auto u = y; Aesi<{0}>::divide(x, lds<{0}>(b), u, y);", nzb=True, setup=summ)
        op2("copy", "y", "y = x;")

        def op1(nm, e, pre="", W2=None, **kw):
            W2 = W2 or W
            op = Op("s_z%s_%d" % (nm, W), [("a", SB(W)), ("o", SO(W2)), ("p", ("out", 4))],
                    ("auto x = lds<{0}>(a); " + pre + " const Aesi<{1}> r = " + e + ";" + TAIL).format(W, W2), spec)
            ops.append(op)
            for s1 in SIGNS:
                cases.append(Case(op, "%s sign %d" % (op.name, s1), lambda n=n, s1=s1: {"a": sblocks("a", n, s1)}, assume=canonical("a"), weight=0.1, vectors=12,
                                  strategy=STRAT, bounds="W=%d, all magnitudes (also wrapping results)" % W, **kw))
        op1("neg", "-x")
        op1("plus", "+x")
        op1("preinc", "++x")
        op1("predec", "--x")
        op1("incd", "x", "x++;")
        op1("decd", "x", "x--;")
        op1("inv", "x", "x.inverse();")
        op1("swap", "y", "Aesi<{0}> y(5); y.swap(x);")
        op1("self_sub", "x", "x -= x;")
        op1("diff", "x - x")
        op1("sumneg", "x + (-x)")
        op1("times0", "x * Aesi<{0}>(0)")
        op1("times0i", "x * 0")
        op1("times0a", "x", "x *= 0u;")
        op1("zerotimes", "Aesi<{0}>(0) * x")
        op1("frou", "Aesi<{0}>(x.unsignedCast())")
        for W2 in (96, 128, 256, 512):
            if W2 != W:
                op1("prec%d" % W2, "x.template precisionCast<%d>()" % W2, W2=W2)

        op = Op("s_zpower2_%d" % W, [("k", ("u", 64)), ("o", SO(W)), ("p", ("out", 4))], ("const Aesi<{0}> r = Aesi<{0}>::power2(k);" + TAIL).format(W, W), spec)
        ops.append(op)
        cases.append(Case(op, op.name + " in range", lambda W=W: {"k": V("k", 64, 0, W - 1)}, weight=0.2, bounds="all exponents below %d" % W))
        cases.append(Case(op, op.name + " out of range", lambda W=W: {"k": V("k", 64, W)}, weight=0.1, bounds="all exponents from %d" % W))
        if W > 96 and Q:
            continue
        for tn, ct, bits, sg in ITYPES:
            op = Op("s_zmix_%s_%d" % (tn, W), [("a", SB(W)), ("k", ("u", 64)), ("j", ("u", 32)), ("o", SO(W)), ("p", ("out", 4))],
                    ("const auto x = lds<{0}>(a); const {2} y = static_cast<{2}>(k); const Aesi<{0}> r = j == 0 ? Aesi<{0}>(y) : j == 1 ? x + y : j == 2 ? x - y : j == 3 ? x * y : j == 4 ? y - x : j == 5 ? y * x : y + x;" + TAIL).format(W, W, ct), spec)
            ops.append(op)
            for s in SIGNS:
                for kn, kf in kcases(bits, sg):
                    for j in range(7):
                        cases.append(Case(op, "%s form %d sign %d k%s" % (op.name, j, s, kn), lambda n=n, s=s, kf=kf, j=j: {"a": sblocks("a", n, s), "k": kf(), "j": T.const(j, 32)},
                                          assume=canonical("a"), weight=0.02, vectors=2, strategy=STRAT, bounds="W=%d, all magnitudes, all %s of that sign" % (W, ct)))
            op = Op("s_zmixd_%s_%d" % (tn, W), [("a", SB(W)), ("k", ("u", 64)), ("j", ("u", 32)), ("o", SO(W)), ("p", ("out", 4))],
                    ("const auto x = lds<{0}>(a); const {2} y = static_cast<{2}>(k); const Aesi<{0}> r = j == 0 ? x / y : x % y;" + TAIL).format(W, W, ct), spec)
            ops.append(op)
            for s in SIGNS:
                for kn, kf in kcases(bits, sg):
                    if kn in ("0", "false"):
                        continue
                    for j in range(2):
                        cases.append(Case(op, "%s form %d sign %d k%s" % (op.name, j, s, kn), lambda n=n, s=s, kf=kf, j=j: {"a": sblocks("a", n, s), "k": kf(), "j": T.const(j, 32)},
                                          assume=canonical("a"), setup=summ, weight=0.02, vectors=2, strategy=STRAT, bounds="W=%d, all magnitudes, all %s of that sign" % (W, ct)))
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="widths, signs and built-in types listed per case; all magnitudes, also where the result wraps around",
                 assumptions=["Aeu::divide meets its contract (established by the check of P03)"])

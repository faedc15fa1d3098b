"""P21: signed comparison is the order of the integers"""
from .signed import *

ID = "P21"
CMPTO = " | uint32_t(x.compareTo(y)) << 8"


def order(a, b, W):
    """-> (a < b, a == b) of (neg, mag) pairs; magnitudes canonical"""
    (n1, m1), (n2, m2) = a, b
    m1, m2 = wz(m1, W), wz(m2, W)
    eq = T.and_(T.beq(n1, n2), T.eq(m1, m2))
    lt = T.bite(T.beq(n1, n2), T.bite(n1, T.ult(m2, m1), T.ult(m1, m2)), n1)
    return lt, eq


def build():
    ops, cases = [], []
    pairs = [(96, 96), (128, 128), (256, 256), (96, 128), (128, 96), (160, 256), (256, 160), (96, 512), (512, 96), (192, 192), (512, 512), (1024, 1024), (1024, 128)]
    if not Q:
        pairs += [(2048, 2048), (224, 224), (512, 544), (544, 512), (96, 1024), (1024, 96)]
    for W, V2 in pairs:
        n, m = W // 32, V2 // 32
        X = max(W, V2)
        body = "const auto x = lds<%d>(a); const auto y = lds<%d>(b); " % (W, V2) + CMPBODY.replace(";", CMPTO + ";")
        op = Op("s_cmp_%d_%d" % (W, V2), [("a", SB(W)), ("b", SB(V2))], body,
                lambda i, o, X=X: cmpgoals(o["ret"], *order(sval(i["a"]), sval(i["b"]), X), True), ret=32)
        ops.append(op)
        for s1 in SIGNS:
            for s2 in SIGNS:
                cases.append(Case(op, "%s signs %d %d" % (op.name, s1, s2), lambda n=n, m=m, s1=s1, s2=s2: {"a": sblocks("a", n, s1), "b": sblocks("b", m, s2)},
                                  assume=canonical("a", "b"), strategy=(("bv", 60), ("cvc5", 30)), weight=0.2 if X <= 256 else 1,
                                  bounds="all magnitude pairs of widths %d and %d" % (W, V2)))
    for W in ([96, 128, 256, 1024] if Q else [96, 128, 160, 256, 512]):
        n = W // 32
        for tn, ct, bits, sg in ITYPES:
            for rev in (0, 1):
                b = "const auto x_ = lds<%d>(a); const %s y_ = static_cast<%s>(k); " % (W, ct, ct)
                b += ("const auto& x = x_; const auto& y = y_; " + CMPBODY.replace(";", CMPTO + ";")) if not rev else \
                     ("const auto& y = x_; const auto& x = y_; " + CMPBODY)

                def spec(i, o, W=W, bits=bits, sg=sg, rev=rev):
                    a, k = sval(i["a"]), ival(i["k"], bits, sg, W)
                    if rev:
                        a, k = k, a
                    return cmpgoals(o["ret"], *order(a, k, W), not rev)
                op = Op("s_cmp%s_%s_%d" % ("r" if rev else "", tn, W), [("a", SB(W)), ("k", ("u", 64))], b, spec, ret=32)
                ops.append(op)
                for s in SIGNS:
                    for kn, kf in kcases(bits, sg):
                        cases.append(Case(op, "%s sign %d k%s" % (op.name, s, kn), lambda n=n, s=s, kf=kf: {"a": sblocks("a", n, s), "k": kf()}, assume=canonical("a"),
                                          strategy=(("bv", 60), ("cvc5", 30)), weight=0.05, vectors=2, bounds="all magnitudes of width %d and all %s of that sign" % (W, ct)))
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="widths, width pairs, signs and built-in types listed per case; all values")

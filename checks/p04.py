"""P04: unsigned comparison is the order of the values, at any mix of widths"""
from .common import *

ID = "P04"
CMPTO = " | uint32_t(x.compareTo(y)) << 8"


def build():
    ops, cases = [], []
    pairs = [(96, 96), (128, 128), (256, 256), (512, 512), (96, 128), (128, 96), (128, 256), (256, 128), (160, 512), (512, 160), (224, 256), (192, 192), (1024, 1024), (2048, 1024), (96, 2048)]
    if not Q:
        pairs += [(160, 160), (1024, 1024), (2048, 2048), (96, 1024), (1024, 96), (512, 544), (544, 512), (4096, 4096)]
    for W, V2 in pairs:
        n, m = W // 32, V2 // 32
        body = "const auto x = ldu<%d>(a); const auto y = ldu<%d>(b); " % (W, V2) + CMPBODY.replace(";", CMPTO + ";")
        X = max(W, V2)
        op = Op("u_cmp_%d_%d" % (W, V2), [("a", B(W)), ("b", B(V2))], body,
                lambda i, o, X=X: cmpgoals(o["ret"], T.ult(wz(i["a"].wide, X), wz(i["b"].wide, X)), T.eq(wz(i["a"].wide, X), wz(i["b"].wide, X)), True), ret=32)
        ops.append(op)
        cases.append(Case(op, op.name, lambda n=n, m=m: {"a": ublocks("a", n), "b": ublocks("b", m)}, strategy=(("bv", 60), ("cvc5", 30)),
                          weight=0.5 if X <= 256 else 1, bounds="all value pairs of widths %d and %d" % (W, V2)))
    for W, V2 in [(8192, 8192), (8192, 4096), (1536, 6144)]:
        n, m = W // 32, V2 // 32
        body = "const auto x = ldu<%d>(a); const auto y = ldu<%d>(b); " % (W, V2) + CMPBODY.replace(";", CMPTO + ";")
        X = max(W, V2)
        op = Op("u_cmp_%d_%d" % (W, V2), [("a", B(W)), ("b", B(V2))], body,
                lambda i, o, X=X: cmpgoals(o["ret"], T.ult(wz(i["a"].wide, X), wz(i["b"].wide, X)), T.eq(wz(i["a"].wide, X), wz(i["b"].wide, X)), True), ret=32)
        ops.append(op)
        for (lab, wa, _), (_, _, wb) in zip(windows(n), windows(m)):
            cases.append(Case(op, "%s: %s" % (op.name, lab), lambda n=n, m=m, wa=wa, wb=wb: {"a": wblocks("a", n, *wa), "b": wblocks("b", m, *wb)},
                              strategy=(("bv", 60), ("cvc5", 30)), weight=0.3, vectors=8, bounds="widths %d and %d, %s symbolic" % (W, V2, lab)))
    for W in ([96, 128, 256, 512, 1024] if Q else [96, 128, 160, 192, 256, 512, 1024, 2048]):
        n = W // 32
        for tn, ct, bits in UTYPES:
            for rev in (0, 1):
                b = "const auto x_ = ldu<%d>(a); const %s y_ = static_cast<%s>(k); " % (W, ct, ct)
                b += ("const auto& x = x_; const auto& y = y_; " + CMPBODY.replace(";", CMPTO + ";")) if not rev else \
                     ("const auto& y = x_; const auto& x = y_; " + CMPBODY)

                def spec(i, o, W=W, bits=bits, rev=rev):
                    a, k = i["a"].wide, wz(trunc(i["k"], bits), W)
                    if rev:
                        a, k = k, a
                    return cmpgoals(o["ret"], T.ult(a, k), T.eq(a, k), not rev)
                op = Op("u_cmp%s_%s_%d" % ("r" if rev else "", tn, W), [("a", B(W)), ("k", ("u", 64))], b, spec, ret=32)
                ops.append(op)
                cases.append(Case(op, op.name, lambda n=n: {"a": ublocks("a", n), "k": V("k", 64)}, strategy=(("bv", 60), ("cvc5", 30)),
                                  weight=0.3, bounds="all values of width %d and of %s" % (W, ct)))
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="widths and width pairs listed per case; all values")

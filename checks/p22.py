"""P22: signed conversions keep value and sign"""
from .signed import *

ID = "P22"


def build():
    ops, cases = [], []

    def case(op, nm, inp, b, **k):
        cases.append(Case(op, nm, inp, weight=0.05, bounds=b, **k))
    for W in ([96, 128, 192, 256, 512, 1024] if Q else [96, 128, 160, 192, 256, 512, 1024, 4096]):
        n = W // 32
        for tn, ct, bits, sg in ITYPES + [("wc", "wchar_t", 32, True), ("ch", "char", 8, True)]:
            op = Op("s_from_%s_%d" % (tn, W), [("k", ("u", 64)), ("d", SB(W)), ("o", SO(W)), ("p", SO(W)), ("q", SO(W))],
                    "const {1} v = static_cast<{1}>(k); const Aesi<{0}> x(v); sts<{0}>(x, o); Aesi<{0}> y = v; sts<{0}>(y, p); auto z = lds<{0}>(d); z = v; sts<{0}>(z, q);".format(W, ct),
                    lambda i, o, W=W, bits=bits, sg=sg: [g for v, l in (("o", "constructor"), ("p", "copy-initialisation"), ("q", "assignment")) for g in sgoals(l, o[v], *ival(i["k"], bits, sg, W))])
            ops.append(op)
            for kn, kf in kcases(bits, sg):
                for s in SIGNS:
                    case(op, "%s k%s over sign %d" % (op.name, kn, s), lambda n=n, kf=kf, s=s: {"k": kf(), "d": sblocks("d", n, s)}, "all values of %s of that sign, any old value" % ct, assume=canonical("d"))
            op = Op("s_to_%s_%d" % (tn, W), [("a", SB(W))],
                    "const auto x = lds<%d>(a); return uint64_t(%sx.integralCast<%s>());" % (W, "(int64_t)" if sg else "", ct), None, ret=64)

            def spec(i, o, bits=bits, sg=sg, W=W):
                neg, m = sval(i["a"])
                if bits == 1:
                    lo = T.ext(m, 63, 0)
                    return [("integralCast", o["ret"], T.zext(T.b2v(T.not_(T.eq(lo, T.const(0, 64)))), 64))]
                v = T.ext(m, bits - 1, 0)
                if sg:
                    return [("integralCast", o["ret"], T.sext(T.ite(neg, T.bvneg(v), v), 64))]
                # unsigned target: the value where it is representable (magnitude of negative numbers is not fixed)
                return [("integralCast", T.or_(neg, T.eq(o["ret"], T.zext(v, 64))))]
            op.spec = spec
            ops.append(op)
            for s in SIGNS:
                case(op, "%s sign %d" % (op.name, s), lambda n=n, s=s: {"a": sblocks("a", n, s)}, "all magnitudes of width %d" % W, assume=canonical("a"))
        op = Op("s_fromu_%d" % W, [("a", B(W)), ("o", SO(W)), ("p", O(W))],
                "const auto x = ldu<{0}>(a); const Aesi<{0}> y(x); sts<{0}>(y, o); stu<{0}>(y.unsignedCast(), p);".format(W),
                lambda i, o: sgoals("from unsigned", o["o"], T.FALSE, i["a"].wide) + [("unsignedCast", o["p"].wide, i["a"].wide)])
        ops.append(op)
        case(op, op.name, lambda n=n: {"a": ublocks("a", n)}, "all values of width %d" % W)
        op = Op("s_copy_%d" % W, [("a", SB(W)), ("b", SB(W)), ("o", SO(W)), ("p", SO(W)), ("q", SO(W)), ("z", SO(W))],
                "auto x = lds<{0}>(a); Aesi<{0}> y(x); Aesi<{0}> z_ = lds<{0}>(b); Aesi<{0}> e{{}}; auto& r = (z_ = x); x = lds<{0}>(b); sts<{0}>(y, o); sts<{0}>(r, p); sts<{0}>(x, q); sts<{0}>(e, z);".format(W),
                lambda i, o, W=W: sgoals("copy", o["o"], *sval(i["a"])) + sgoals("assigned copy", o["p"], *sval(i["a"])) + sgoals("reassigned", o["q"], *sval(i["b"])) +
                sgoals("value-initialised", o["z"], T.FALSE, T.const(0, W)))
        ops.append(op)
        for s in SIGNS:
            for s2 in SIGNS:
                case(op, "%s signs %d %d" % (op.name, s, s2), lambda n=n, s=s, s2=s2: {"a": sblocks("a", n, s), "b": sblocks("b", n, s2)}, "all magnitudes", assume=canonical("a", "b"))
        for W2 in ([96, 128, 192, 256, 512, 1024] if Q else [96, 128, 160, 192, 256, 512, 1024, 4096]):
            if W2 == W:
                continue
            op = Op("s_prec_%d_%d" % (W, W2), [("a", SB(W)), ("o", SO(W2)), ("p", SO(W))],
                    "const auto x = lds<{0}>(a); sts<{1}>(x.template precisionCast<{1}>(), o); sts<{0}>(x, p);".format(W, W2),
                    lambda i, o, W2=W2: sgoals("precisionCast", o["o"], sval(i["a"])[0], wz(sval(i["a"])[1], W2)) + sgoals("operand", o["p"], *sval(i["a"])))
            ops.append(op)
            for s in SIGNS:
                case(op, "%s sign %d" % (op.name, s), lambda n=n, s=s: {"a": sblocks("a", n, s)}, "all magnitudes of width %d" % W, assume=canonical("a"))
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="widths, width pairs, signs and built-in types listed per case; all values")

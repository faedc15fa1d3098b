"""P09: unsigned conversions keep the value or its low-order part"""
from .common import *

ID = "P09"


def castspec(v, bits, signed):
    """64-bit image of static_cast<T>(low 64 bits) sign- or zero-extended"""
    if bits == 1:
        return T.zext(T.b2v(T.not_(T.eq(v, T.const(0, v.w)))), 64)
    lo = T.ext(v, bits - 1, 0)
    return (T.sext if signed else T.zext)(lo, 64)


def build():
    ops, cases = [], []

    def add(op, inp, b, **k):
        ops.append(op)
        cases.append(Case(op, op.name, inp, weight=0.1, bounds=b, **k))
    for W in ([96, 128, 192, 256, 512, 1024, 8192] if Q else [96, 128, 160, 192, 256, 512, 1024, 4096, 8192]):
        n = W // 32
        for tn, ct, bits in UTYPES:
            add(Op("u_from_%s_%d" % (tn, W), [("k", ("u", 64)), ("o", O(W)), ("p", O(W)), ("q", O(W))],
                   "const {1} v = static_cast<{1}>(k); const Aeu<{0}> x(v); stu<{0}>(x, o); Aeu<{0}> y = v; stu<{0}>(y, p); Aeu<{0}> z(~0ull); z = v; stu<{0}>(z, q);".format(W, ct),
                   lambda i, o, W=W, bits=bits: [(l, o[v].wide, wz(trunc(i["k"], bits), W)) for v, l in (("o", "constructor"), ("p", "copy-initialisation"), ("q", "assignment"))]),
                lambda: {"k": V("k", 64)}, "all values of %s" % ct)
        for tn, ct, bits in UTYPES + STYPES + [("wc", "wchar_t", 32), ("ch", "char", 8)]:
            sg = tn[0] == "s" or tn in ("wc", "ch")
            add(Op("u_to_%s_%d" % (tn, W), [("a", B(W)), ], "const auto x = ldu<%d>(a); return uint64_t(int64_t(x.integralCast<%s>()));" % (W, ct) if sg else
                   "const auto x = ldu<%d>(a); return uint64_t(x.integralCast<%s>());" % (W, ct),
                   lambda i, o, bits=bits, sg=sg: [("integralCast", o["ret"], castspec(i["a"].sl(0, 2), bits, sg))], ret=64),
                lambda n=n: {"a": ublocks("a", n)}, "all values of width %d" % W)
        for W2 in ([96, 128, 192, 256, 512, 1024, 8192] if Q else [96, 128, 160, 192, 256, 512, 1024, 4096, 8192]):
            if W2 == W:
                continue
            m = W2 // 32
            add(Op("u_prec_%d_%d" % (W, W2), [("a", B(W)), ("o", O(W2)), ("p", O(W))],
                   "const auto x = ldu<{0}>(a); stu<{1}>(x.template precisionCast<{1}>(), o); stu<{0}>(x, p);".format(W, W2),
                   lambda i, o, W2=W2: [("precisionCast", o["o"].wide, wz(i["a"].wide, W2)), ("operand", o["p"].wide, i["a"].wide)]),
                lambda n=n: {"a": ublocks("a", n)}, "all values of width %d" % W)
        add(Op("u_copy_%d" % W, [("a", B(W)), ("b", B(W)), ("o", O(W)), ("p", O(W)), ("q", O(W)), ("z", O(W))],
               "auto x = ldu<{0}>(a); Aeu<{0}> y(x); Aeu<{0}> z_ = ldu<{0}>(b); Aeu<{0}> e{{}}; auto& r = (z_ = x); x = ldu<{0}>(b); stu<{0}>(y, o); stu<{0}>(r, p); stu<{0}>(x, q); stu<{0}>(e, z);".format(W),
               lambda i, o, W=W: [("copy", o["o"].wide, i["a"].wide), ("assigned copy", o["p"].wide, i["a"].wide), ("reassigned", o["q"].wide, i["b"].wide),
                                  ("value-initialised", o["z"].wide, T.const(0, W))]),
            lambda n=n: {"a": ublocks("a", n), "b": ublocks("b", n)}, "all values of width %d" % W)
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="widths, width pairs and built-in types listed per case; all values")

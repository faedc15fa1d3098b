"""P05: bitwise operators act on every bit independently"""
from .common import *

ID = "P05"
F = {"xor": ("^", T.bvxor), "and": ("&", T.bvand), "or": ("|", T.bvor)}


def build():
    ops, cases = [], []

    def add(op, inp, b):
        ops.append(op)
        cases.append(Case(op, op.name, inp, strategy=(("bv", 40), ("cvc5", 20)), weight=0.2, bounds=b))
    for W in ([96, 128, 192, 224, 256, 512, 1024, 8192] if Q else [96, 128, 160, 192, 224, 256, 512, 1024, 2048, 4096, 8192]):
        n = W // 32
        add(Op("u_not_%d" % W, [("a", B(W)), ("o", O(W)), ("p", O(W))], "const auto x = ldu<%d>(a); stu<%d>(~x, o); stu<%d>(x, p);" % (W, W, W),
               lambda i, o: [("~a", o["o"].wide, T.bvnot(i["a"].wide)), ("operand", o["p"].wide, i["a"].wide)]),
            lambda n=n: {"a": ublocks("a", n)}, "all values of width %d" % W)
        for nm, (sy, f) in F.items():
            add(Op("u_%s_%d" % (nm, W), [("a", B(W)), ("b", B(W)), ("o", O(W)), ("p", O(W))],
                   "auto x = ldu<{0}>(a); const auto y = ldu<{0}>(b); stu<{0}>(x {1} y, o); auto& r = (x {1}= y); r {1}= y; stu<{0}>(x, p);".format(W, sy),
                   lambda i, o, f=f: [("operator", o["o"].wide, f(i["a"].wide, i["b"].wide)),
                                      ("assignment twice", o["p"].wide, f(f(i["a"].wide, i["b"].wide), i["b"].wide))]),
                lambda n=n: {"a": ublocks("a", n), "b": ublocks("b", n)}, "all values of width %d" % W)
            if W > 512:
                continue
            for tn, ct, bits in UTYPES:
                add(Op("u_%si_%s_%d" % (nm, tn, W), [("a", B(W)), ("k", ("u", 64)), ("o", O(W)), ("p", O(W)), ("q", O(W))],
                       "auto x = ldu<{0}>(a); const {2} y = static_cast<{2}>(k); stu<{0}>(x {1} y, o); stu<{0}>(y {1} x, p); x {1}= y; stu<{0}>(x, q);".format(W, sy, ct),
                       lambda i, o, f=f, bits=bits, W=W: [(l, o[v].wide, f(i["a"].wide, wz(trunc(i["k"], bits), W)))
                                                         for v, l in (("o", "number op built-in"), ("p", "built-in op number"), ("q", "assignment"))]),
                    lambda n=n: {"a": ublocks("a", n), "k": V("k", 64)}, "all values of width %d and of %s" % (W, ct))
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="widths listed per case; all values")

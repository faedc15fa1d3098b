"""P01: unsigned addition, subtraction, negation, increment, decrement are exact modulo 2^W"""
from .common import *

ID = "P01"


def build():
    ops, cases = [], []

    def wide(op, n, second, bound):
        for lab, wa, wb in windows(n):
            cases.append(Case(op, "%s: %s" % (op.name, lab), lambda wa=wa, wb=wb: dict({"a": wblocks("a", n, *wa)}, **({"b": wblocks("b", n, *wb)} if second else {})),
                              strategy=(("bv", 20), ("lin", 40)), weight=0.3, vectors=8, bounds="%s, %s symbolic" % (bound, lab)))
    widths = [96, 128, 160, 192, 224, 256, 512, 1024, 2048, 8192] if Q else [96, 128, 160, 192, 224, 256, 320, 512, 768, 1024, 2048, 3072, 4096, 8192]

    def two(W, name, expr, f):
        n = W // 32
        op = Op("u_%s_%d" % (name, W), [("a", B(W)), ("b", B(W)), ("o", O(W))], expr % {"W": W},
                lambda i, o: [("result", o["o"].wide, f(i["a"].wide, i["b"].wide))])
        ops.append(op)
        if W > (512 if Q else 1024):
            return wide(op, n, True, "width %d" % W)
        cases.append(Case(op, op.name, lambda: {"a": ublocks("a", n), "b": ublocks("b", n)}, strategy=(("bv", 20), ("lin", 40), ("semi", 20)),
                          weight=0.2 if W <= 256 else 1, bounds="all operands of width %d" % W))

    def one(W, name, expr, f):
        n = W // 32
        op = Op("u_%s_%d" % (name, W), [("a", B(W)), ("o", O(W)), ("p", O(W))], expr % {"W": W},
                lambda i, o: [("returned value", o["o"].wide, f(i["a"].wide)[0]), ("new value", o["p"].wide, f(i["a"].wide)[1])])
        ops.append(op)
        if W > (1024 if Q else 4096):
            return wide(op, n, False, "width %d" % W)
        cases.append(Case(op, op.name, lambda: {"a": ublocks("a", n)}, strategy=(("bv", 20), ("lin", 40)),
                          weight=0.2 if W <= 256 else 1, bounds="all operands of width %d" % W))

    def mixed(W, tn, ct, bits, name, expr, f):
        n = W // 32
        op = Op("u_%s_%s_%d" % (name, tn, W), [("a", B(W)), ("x", ("u", 64)), ("o", O(W))],
                expr % {"W": W, "T": ct},
                lambda i, o: [("result", o["o"].wide, f(i["a"].wide, wz(trunc(i["x"], bits), W)))])
        ops.append(op)
        cases.append(Case(op, op.name, lambda: {"a": ublocks("a", n), "x": V("x", 64)}, strategy=(("bv", 20), ("lin", 40)),
                          weight=0.2 if W <= 256 else 1, bounds="all operands of width %d and all values of %s" % (W, ct)))
    for W in widths:
        two(W, "add", "stu<%(W)d>(ldu<%(W)d>(a) + ldu<%(W)d>(b), o);", T.bvadd)
        two(W, "sub", "stu<%(W)d>(ldu<%(W)d>(a) - ldu<%(W)d>(b), o);", T.bvsub)
        two(W, "addeq", "auto x = ldu<%(W)d>(a); const auto y = ldu<%(W)d>(b); auto& r = (x += y); r += Aeu<%(W)d>(0u); stu<%(W)d>(x, o);", T.bvadd)
        two(W, "subeq", "auto x = ldu<%(W)d>(a); const auto y = ldu<%(W)d>(b); auto& r = (x -= y); r -= Aeu<%(W)d>(0u); stu<%(W)d>(x, o);", T.bvsub)
        c1 = T.const(1, W)
        pair = "stu<%(W)d>(r, o); stu<%(W)d>(x, p);"
        one(W, "neg", "auto x = ldu<%(W)d>(a); const auto r = -x; " + pair, lambda a: (T.bvneg(a), a))
        one(W, "plus", "auto x = ldu<%(W)d>(a); const auto r = +x; " + pair, lambda a: (a, a))
        one(W, "preinc", "auto x = ldu<%(W)d>(a); const auto r = ++x; " + pair, lambda a: (T.bvadd(a, T.const(1, a.w)),) * 2)
        one(W, "predec", "auto x = ldu<%(W)d>(a); const auto r = --x; " + pair, lambda a: (T.bvsub(a, T.const(1, a.w)),) * 2)
        one(W, "postinc", "auto x = ldu<%(W)d>(a); const auto r = x++; " + pair, lambda a: (a, T.bvadd(a, T.const(1, a.w))))
        one(W, "postdec", "auto x = ldu<%(W)d>(a); const auto r = x--; " + pair, lambda a: (a, T.bvsub(a, T.const(1, a.w))))
    for W in ([96, 128, 256, 512, 1024] if Q else [96, 128, 160, 192, 256, 512, 1024, 2048]):
        for tn, ct, bits in UTYPES:
            mixed(W, tn, ct, bits, "addi", "const auto x_ = ldu<%(W)d>(a); stu<%(W)d>(x_ + static_cast<%(T)s>(x), o);", T.bvadd)
            mixed(W, tn, ct, bits, "addeqi", "auto x_ = ldu<%(W)d>(a); x_ += static_cast<%(T)s>(x); stu<%(W)d>(x_, o);", T.bvadd)
            mixed(W, tn, ct, bits, "iadd", "const auto x_ = ldu<%(W)d>(a); stu<%(W)d>(static_cast<%(T)s>(x) + x_, o);", T.bvadd)
            mixed(W, tn, ct, bits, "isub", "const auto x_ = ldu<%(W)d>(a); stu<%(W)d>(static_cast<%(T)s>(x) - x_, o);", lambda a, x: T.bvsub(x, a))
            mixed(W, tn, ct, bits, "subi", "const auto x_ = ldu<%(W)d>(a); stu<%(W)d>(x_ - static_cast<%(T)s>(x), o);", T.bvsub)
            mixed(W, tn, ct, bits, "subeqi", "auto x_ = ldu<%(W)d>(a); x_ -= static_cast<%(T)s>(x); stu<%(W)d>(x_, o);", T.bvsub)
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="widths listed per case; all operand values",
                 assumptions=["little-endian host, as the library's raw layout"])

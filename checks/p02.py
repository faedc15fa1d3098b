"""P02: unsigned multiplication is exact modulo 2^W"""
from .common import *

ID = "P02"
STRAT = (("lin", 40), ("semi", 40), ("bv", 10))


def build():
    ops, cases = [], []
    plan = {96: "all", 128: "all", 160: "some", 192: "some", 224: "some", 256: [(8, 8), (8, 3), (3, 8), (5, 4), (4, 4), (1, 8), (8, 1), (8, 0), (0, 5)],
            512: [(16, 1), (1, 16), (9, 1), (5, 5), (1, 1), (14, 2)], 1024: [(17, 1), (3, 3), (1, 12)]}
    sparse = {512: 1, 1024: 1, 2048: 1, 8192: 1}
    if not Q:
        plan = {96: "all", 128: "all", 160: "all", 192: "all", 224: "some", 256: "some", 512: [(16, 1), (1, 16), (16, 2), (2, 16), (8, 8), (16, 4)], 1024: [(32, 1), (1, 32), (3, 3), (31, 2)]}
    for W, parts in plan.items():
        n = W // 32
        if parts == "all":
            pl = [(i, j) for i in range(n + 1) for j in range(n + 1)]
        elif parts == "some":
            s = [0, 1, n // 2, n - 1, n]
            pl = [(i, j) for i in s for j in s]
        else:
            pl = parts
        forms = [("mul", "stu<%d>(ldu<%d>(a) * ldu<%d>(b), o);" % (W, W, W))]
        if W in (96, 128):
            forms.append(("muleq", "auto x = ldu<%d>(a); const auto y = ldu<%d>(b); auto& r = (x *= y); r += Aeu<%d>(0u); stu<%d>(x, o);" % (W, W, W, W)))
        for nm, body in forms:
            op = Op("u_%s_%d" % (nm, W), [("a", B(W)), ("b", B(W)), ("o", O(W))], body,
                    lambda i, o: [("product", o["o"].wide, T.bvmul(i["a"].wide, i["b"].wide))])
            ops.append(op)
            for ka, kb in pl:
                cases.append(Case(op, "%s filled %d,%d" % (op.name, ka, kb),
                                  lambda n=n, ka=ka, kb=kb: {"a": ublocks("a", n, ka), "b": ublocks("b", n, kb)},
                                  strategy=STRAT if W <= 128 else (("lin", 150), ("semi", 100), ("bv", 10)), timeout=40 if W <= 128 else 150, weight=0.25 if W <= 128 else 1 if ka * kb < 20 else 5,
                                  bounds="W=%d, exactly %d and %d non-zero leading blocks" % (W, ka, kb)))
    # one object as both factors
    for W in ([96, 128, 192, 256] if Q else [96, 128, 160, 192, 224, 256]):
        n = W // 32
        for nm, body in (("sq", "const auto x = ldu<%d>(a); stu<%d>(x * x, o);" % (W, W)), ("sqeq", "auto x = ldu<%d>(a); x *= x; stu<%d>(x, o);" % (W, W))):
            op = Op("u_%s_%d" % (nm, W), [("a", B(W)), ("o", O(W))], body, lambda i, o: [("square", o["o"].wide, T.bvmul(i["a"].wide, i["a"].wide))])
            ops.append(op)
            for k in range(n + 1):
                cases.append(Case(op, "%s filled %d" % (op.name, k), lambda n=n, k=k: {"a": ublocks("a", n, k)}, strategy=STRAT if W <= 128 else (("lin", 150), ("semi", 100), ("bv", 10)),
                                  timeout=40 if W <= 128 else 150, weight=0.3 if W <= 128 else 1 if k < 5 else 5, bounds="W=%d, %d leading blocks, the same object on both sides" % (W, k)))
    # very wide operands: a few symbolic blocks far apart
    for W in sparse:
        n = W // 32
        h = n // 2
        for nm, body in (("sqsparse", "const auto x = ldu<%d>(a); stu<%d>(x * x, o);" % (W, W)), ("sqeqsparse", "auto x = ldu<%d>(a); x *= x; stu<%d>(x, o);" % (W, W))):
            op = Op("u_%s_%d" % (nm, W), [("a", B(W)), ("o", O(W))], body, lambda i, o: [("square", o["o"].wide, T.bvmul(i["a"].wide, i["a"].wide))])
            ops.append(op)
            for xa in ((0, 1), (0, h), (1, h - 1)):
                if W > 2048 and xa != (0, 1):
                    continue
                cases.append(Case(op, "%s blocks %s" % (op.name, xa), lambda n=n, xa=xa: {"a": wblocks("a", n, *[(x, 1) for x in xa], top=True)},
                                  strategy=STRAT, timeout=40, weight=0.5 if W < 2048 else 1, vectors=8, bounds="W=%d, blocks %s symbolic, the others zero, the same object on both sides" % (W, xa)))
        op = Op("u_mulsparse_%d" % W, [("a", B(W)), ("b", B(W)), ("o", O(W))], "stu<%d>(ldu<%d>(a) * ldu<%d>(b), o);" % (W, W, W),
                lambda i, o: [("product", o["o"].wide, T.bvmul(i["a"].wide, i["b"].wide))])
        ops.append(op)
        for xa, xb in (((0, h, n - 1), (0,)), ((0,), (0, h, n - 1)), ((0, n - 2), (0, 1)), ((1, h - 1), (0, h)), ((h,), (h,)), ((h,), (h - 1,)), ((n - 1,), (n - 1,)), ((0, 1), (0, n - 2))):
            if W > 2048 and len(xb) > 1 and len(xa) > 1 and xb[-1] > 1:
                continue
            cases.append(Case(op, "%s blocks %s and %s" % (op.name, xa, xb), lambda n=n, xa=xa, xb=xb: {"a": wblocks("a", n, *[(x, 1) for x in xa], top=True), "b": wblocks("b", n, *[(x, 1) for x in xb], top=True)},
                              strategy=STRAT, timeout=40, weight=0.3 if W < 2048 else 1, vectors=8, bounds="W=%d, blocks %s and %s symbolic, the others zero, the highest of them not" % (W, xa, xb)))
    for W in ([96, 160] if Q else [96, 128, 160, 256]):
        n = W // 32
        for tn, ct, bits in UTYPES:
            for nm, body in (("muli", "auto x_ = ldu<%d>(a); stu<%d>(x_ * static_cast<%s>(x), o);" % (W, W, ct)),
                             ("muleqi", "auto x_ = ldu<%d>(a); x_ *= static_cast<%s>(x); stu<%d>(x_, o);" % (W, ct, W)),
                             ("imul", "const auto x_ = ldu<%d>(a); stu<%d>(static_cast<%s>(x) * x_, o);" % (W, W, ct))):
                op = Op("u_%s_%s_%d" % (nm, tn, W), [("a", B(W)), ("x", ("u", 64)), ("o", O(W))], body,
                        lambda i, o, bits=bits, W=W: [("product", o["o"].wide, T.bvmul(i["a"].wide, wz(trunc(i["x"], bits), W)))])
                ops.append(op)
                if bits == 1:
                    xs = [("true", lambda: T.const(1, 64)), ("false", lambda: T.const(0, 64)), ("many", lambda: T.const(1 << 40, 64))]
                else:
                    def top(lo, hi, wd):
                        return lambda: T.cat(T.const(0, 64 - wd), V("x", wd, lo, hi)) if wd < 64 else V("x", 64, lo, hi)
                    xs = [("0", lambda: T.const(0, 64)), ("32bit", top(1, None, min(bits, 32)))]
                    if bits == 64:
                        xs.append(("64bit", lambda: T.cat(V("xh", 32, 1), V("xl", 32))))
                    else:
                        xs.append(("any64", lambda bits=bits: T.cat(V("xj", 64 - bits), V("x", bits, 1))))
                        xs.append(("0junk", lambda bits=bits: T.cat(V("xj", 64 - bits), T.const(0, bits))))
                for xn, xf in xs:
                    for k in range(n + 1):
                        cases.append(Case(op, "%s x=%s filled %d" % (op.name, xn, k),
                                          lambda n=n, k=k, xf=xf: {"a": ublocks("a", n, k), "x": xf()},
                                          strategy=STRAT, timeout=40, weight=0.04,
                                          bounds="W=%d, %d leading blocks, multiplier %s" % (W, k, xn)))
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="operand widths and filled-block counts listed per case; all values within each",
                 assumptions=["partial products of two symbolic blocks are abstracted to integers within their exact range (sound for 'holds')"])

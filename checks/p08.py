"""P08: counts and predicates describe the magnitude exactly"""
from .common import *

ID = "P08"


def msb(mag, unit=1):
    """number of significant units"""
    r = T.const(0, 32)
    for k in range(mag.w // unit):
        r = T.ite(T.eq(T.ext(mag, k * unit + unit - 1, k * unit), T.const(0, unit)), r, T.const(k + 1, 32))
    return r


def build():
    ops, cases = [], []
    for W in ([96, 128, 256, 512, 2048, 4128, 8192] if Q else [96, 128, 160, 192, 256, 512, 1024, 2048, 4096, 4128, 8192, 16384]):
        n = W // 32
        pick = {0, 1, 2, 3, n // 2, n // 2 + 1, n - 1, n} | {x for j in range(2, 10) for x in ((1 << j) - 1, 1 << j, (1 << j) + 1)} | (set() if Q else set(range(0, n, 16)))
        for cls in ("u", "s"):
            ld, st, ns, ty = ("ldu", "stu", 0, "Aeu") if cls == "u" else ("lds", "sts", 1, "Aesi")
            BB, OO = ("in", W // 8 + 4 * ns), ("out", W // 8 + 4 * ns)

            def spec(i, o, W=W, ns=ns, n=n):
                m = i["a"].sl(ns, ns + n)
                z = T.eq(m, T.const(0, W))
                odd = T.v2b(T.ext(m, 0, 0))
                f = o["o"]
                return [("bitCount", f[0], msb(m)), ("byteCount", f[1], msb(m, 8)), ("filledBlocksNumber", f[2], msb(m, 32)),
                        ("isZero", T.beq(T.v2b(T.ext(f[3], 0, 0)), z)), ("isOdd", T.beq(T.v2b(T.ext(f[3], 1, 1)), odd)),
                        ("isEven", T.beq(T.v2b(T.ext(f[3], 2, 2)), T.not_(odd))),
                        ("getBitness", f[4], T.const(W, 32)), ("totalBlocksNumber", f[5], T.const(W // 32, 32))]
            op = Op("%s_counts_%d" % (cls, W), [("a", BB), ("o", ("out", 24))],
                    "const auto x = {0}<{1}>(a); o[0] = uint32_t(x.bitCount()); o[1] = uint32_t(x.byteCount()); o[2] = uint32_t(x.filledBlocksNumber());"
                    " o[3] = uint32_t(x.isZero()) | uint32_t(x.isOdd()) << 1 | uint32_t(x.isEven()) << 2; o[4] = uint32_t({2}<{1}>::getBitness());"
                    " o[5] = uint32_t({2}<{1}>::totalBlocksNumber());".format(ld, W, ty), spec)
            ops.append(op)
            for sg in ([None] if cls == "u" else [1, -1, 0]):
                for k in range(0 if sg is None else 1, n + 1):
                    if sg == 0 and k > 1:
                        continue
                    if n > 64 and k not in pick:
                        continue
                    cases.append(Case(op, "%s sign %s %d significant blocks" % (op.name, sg, k),
                                      lambda n=n, sg=sg, k=k: {"a": ublocks("a", n, k) if sg is None else sblocks("a", n, sg, k)},
                                      strategy=(("bv", 60),), weight=0.2, bounds="all values of width %d with exactly %d significant blocks" % (W, k)))

            def sspec(i, o, ns=ns, n=n):
                out = []
                for src, dst in (("a", "q"), ("b", "p")):
                    out.append(("swap magnitude", o[dst].sl(ns, ns + n), i[src].sl(ns, ns + n)))
                    if ns:
                        s = i[src][0]
                        out.append(("swap sign", o[dst][0], sgn_out(s)))
                return out
            op = Op("%s_swap_%d" % (cls, W), [("a", BB), ("b", BB), ("p", OO), ("q", OO)],
                    "auto x = {0}<{1}>(a); auto y = {0}<{1}>(b); x.swap(y); {2}<{1}>(x, p); {2}<{1}>(y, q);".format(ld, W, st), sspec)
            ops.append(op)
            if cls == "u":
                cases.append(Case(op, op.name, lambda n=n: {"a": ublocks("a", n), "b": ublocks("b", n)}, weight=0.1, bounds="all values of width %d" % W))
            else:
                for s1 in (0, 1, -1):
                    for s2 in (0, 1, -1):
                        cases.append(Case(op, "%s signs %d %d" % (op.name, s1, s2), lambda n=n, s1=s1, s2=s2: {"a": sblocks("a", n, s1), "b": sblocks("b", n, s2)},
                                          weight=0.1, bounds="all values of width %d" % W))
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="widths and significant-block counts listed per case; all values")

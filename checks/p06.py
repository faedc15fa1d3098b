"""P06: shifts multiply or divide by a power of two; out-of-range shifts do nothing"""
from .common import *

ID = "P06"


def build():
    ops, cases = [], []
    for W in ([96, 128, 160, 256, 512, 1024, 2048, 8192] if Q else [96, 128, 160, 192, 224, 256, 320, 512, 1024, 2048, 8192]):
        n = W // 32
        for tn, ct, bits in UTYPES:
            few = W > 128 and tn not in ("u32", "ul") and (Q or W > 512)
            if bits == 1 and W > 128 or few and W not in (160, 256, 512, 2048):
                continue
            for nm, sy, f in (("shl", "<<", T.shl_c), ("shr", ">>", T.lshr_c)):
                def spec(i, o, f=f, bits=bits, W=W, few=few):
                    a, s = i["a"].wide, trunc(i["s"], bits)
                    if W > 1024 and not T.is_c(s) or few and not T.is_c(s):
                        e = a          # these cases have only counts out of range
                    elif T.is_c(s):
                        e = f(a, s.k) if s.k < W else a
                    else:
                        e = a
                        for k in range(1, min(W, 1 << bits)):
                            e = T.ite(T.eq(s, T.const(k, 64)), f(a, k), e)
                    return [(l, o[v].wide, e) for v, l in (("o", "operator"), ("p", "assignment"))] + [("operand", o["q"].wide, a)]
                op = Op("u_%s_%s_%d" % (nm, tn, W), [("a", B(W)), ("s", ("u", 64)), ("o", O(W)), ("p", O(W)), ("q", O(W))],
                        "auto x = ldu<{0}>(a); const {2} s_ = static_cast<{2}>(s); stu<{0}>(x {1} s_, o); stu<{0}>(x, q); auto& r = (x {1}= s_); stu<{0}>(r, p);".format(W, sy, ct), spec)
                ops.append(op)
                mx = (1 << bits) - 1
                pts = range(0, W) if W <= 128 or not Q or tn == "ul" else range(0, W, 1)
                if few or W > (256 if Q else 512):
                    h = W // 2
                    pts = sorted({p + d for p in (128, 256, 512, 1024, 2048, 4096) if p + 1 < W for d in (-1, 0, 1, 6)} | {0, 1, 7, 31, 32, 33, 63, 64, 65, 95, 96, h - 33, h - 32, h - 31, h - 1, h, h + 1, h + 31, h + 32, W - 65, W - 64, W - 63, W - 33, W - 32, W - 31, W - 2, W - 1})
                for s in pts:
                    if s <= mx:
                        cases.append(Case(op, "%s by %d" % (op.name, s), lambda n=n, s=s: {"a": ublocks("a", n), "s": T.const(s, 64)},
                                          weight=0.01, vectors=1, strategy=(("bv", 20),), bounds="all values of width %d, shift %d" % (W, s)))
                if not few and (W <= 160 or not Q and W <= 512):
                    for q in range(n):
                        if bits > 1:
                            lo, hi = max(32 * q, 1), 32 * q + 31
                            cases.append(Case(op, "%s by %d..%d" % (op.name, lo, hi), lambda n=n, lo=lo, hi=hi: {"a": ublocks("a", n), "s": V("s", 64, lo, hi)},
                                              weight=0.3, strategy=(("bv", 60),), bounds="all values of width %d, every shift in %d..%d" % (W, lo, hi)))
                if bits > 1 and mx >= W:
                    cases.append(Case(op, "%s by %d and more" % (op.name, W), lambda n=n, W=W, mx=mx: {"a": ublocks("a", n), "s": V("s", 64, W, mx)},
                                      weight=0.05, strategy=(("bv", 20),), bounds="all values of width %d, every shift in %d..%d" % (W, W, mx)))
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="widths listed; shift counts in range are cases of their own (every count up to width 256), out-of-range counts symbolic; all values")

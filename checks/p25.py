"""P25: conversion from and comparison with GMP integers"""
from .signed import *
from engine import gmp

ID = "P25"
PRE = r'''
#define AESI_GMP_INTEGRATION
#include <gmpxx.h>
''' + PRELUDE + r'''
static inline void mkz(mpz_class& z, const unsigned char* p, uint64_t n, uint32_t neg) {
    mpz_import(z.get_mpz_t(), n, -1, 1, -1, 0, p);
    if (neg) mpz_neg(z.get_mpz_t(), z.get_mpz_t());
}
'''
HKW = dict(prelude=PRE, libs=["-lgmpxx", "-lgmp"])
SIG = [("d", ("inbytes", None)), ("n", ("u", 64)), ("g", ("u", 32))]


def setup(ex):
    gmp.register(ex)


def value(i, W, extra=0):
    """magnitude of the GMP integer modulo 2^W and whether it has higher bits"""
    m = T.cat(*reversed(i["d"].items)) if len(i["d"]) else T.const(0, 8)
    return wz(m, W), T.not_(T.eq(wz(m, max(m.w, W)), T.zext(wz(m, W), max(m.w, W))))


def number(b, g):
    """inputs of a GMP integer with exactly b bits"""
    def f():
        k = -(-b // 8)
        bs = [V("z%d" % j, 8) for j in range(k)]
        if b % 8 == 1:
            bs[-1] = T.const(1, 8)
        elif b:
            t = (b - 1) % 8
            bs[-1] = V("zt%d" % t, 8, 1 << t, (2 << t) - 1)
        return {"d": Blocks(bs, 8), "n": T.const(k, 64), "g": T.const(g, 32)}
    return f


def build():
    ops, cases = [], []
    for W in ([96, 128] if Q else [96, 128, 160, 256, 512]):
        n = W // 32
        lens = list(range(0, W + 70)) if Q or W <= 160 else list(range(0, 70)) + list(range(W - 40, W + 100)) + [W // 2, 2 * W - 1, 2 * W]
        lens += [2 * W + 1, 4 * W]

        def uval(i, o, W=W):
            return [("value modulo 2^%d" % W, o["o"].wide, value(i, W)[0])]
        for nm, body in (("ctor", "const Aeu<{0}> v(z);"), ("assign", "Aeu<{0}> v(7u); v = z;"), ("neg", "const Aeu<{0}> v(mpz_class(-z));")):
            op = Op("u_gmp_%s_%d" % (nm, W), SIG + [("o", O(W))], ("mpz_class z; mkz(z, d, n, g); " + body + " stu<{0}>(v, o);").format(W), uval)
            ops.append(op)
            for b in lens if nm == "ctor" else lens[::9]:
                for g in (0, 1) if b else (0,):
                    cases.append(Case(op, "%s %s%d bits" % (op.name, "-" if g else "", b), number(b, g), setup=setup, weight=0.03, vectors=2,
                                      bounds="all %s values of exactly %d bits" % ("negative" if g else "non-negative", b)))
        for nm, body in (("ctor", "const Aesi<{0}> v(z);"), ("assign", "Aesi<{0}> v(-7); v = z;"), ("neg", "const Aesi<{0}> v(mpz_class(-z));")):
            flip = nm == "neg"

            def sv(i, o, W=W, flip=flip):
                m, _ = value(i, W)
                return sgoals("value", o["o"], T.mkbool((i["g"].k == 1) != flip), m)
            op = Op("s_gmp_%s_%d" % (nm, W), SIG + [("o", SO(W))], ("mpz_class z; mkz(z, d, n, g); " + body + " sts<{0}>(v, o);").format(W), sv)
            ops.append(op)
            for b in lens if nm == "ctor" else lens[::9]:
                for g in (0, 1) if b else (0,):
                    cases.append(Case(op, "%s %s%d bits" % (op.name, "-" if g else "", b), number(b, g), setup=setup, weight=0.03, vectors=2,
                                      bounds="all %s values of exactly %d bits" % ("negative" if g else "non-negative", b)))

        def ueq(i, o, W=W, flip=False):
            m, over = value(i, W)
            neg = T.mkbool((i["g"].k == 1) != flip)
            e = T.and_(T.eq(i["a"].wide, m), T.not_(over), T.or_(T.not_(neg), T.eq(m, T.const(0, W))))
            return [("equal", T.beq(T.v2b(T.ext(o["ret"], k, k)), e if k % 2 == 0 else T.not_(e))) for k in range(4)]

        def seq(i, o, W=W, flip=False):
            m, over = value(i, W)
            neg = T.mkbool((i["g"].k == 1) != flip)
            n1, m1 = sval(i["a"])
            e = T.and_(T.eq(m1, m), T.not_(over), T.or_(T.eq(m, T.const(0, W)), T.beq(n1, neg)))
            return [("equal", T.beq(T.v2b(T.ext(o["ret"], k, k)), e if k % 2 == 0 else T.not_(e))) for k in range(4)]
        for nm, e, flip in (("eq", "z", False), ("eqneg", "-z", True)):
            for cls, ld, sp, sg in (("u", "ldu", ueq, (None,)), ("s", "lds", seq, SIGNS)):
                op = Op("%s_gmp_%s_%d" % (cls, nm, W), SIG + [("a", ("in", W // 8 + (4 if cls == "s" else 0)))],
                        "mpz_class z; mkz(z, d, n, g); const auto x = %s<%d>(a); return uint32_t(x == %s) | uint32_t(x != %s) << 1 | uint32_t(%s == x) << 2 | uint32_t(%s != x) << 3;" % (ld, W, e, e, e, e),
                        lambda i, o, sp=sp, flip=flip: sp(i, o, flip=flip), ret=32)
                ops.append(op)
                for b in lens[::(7 if nm == "eq" else 23)] + [W - 1, W, W + 1, W + 64, 2 * W]:
                    for g in (0, 1) if b else (0,):
                        for s in sg:
                            def inp(b=b, g=g, s=s, n=n):
                                d = number(b, g)()
                                d["a"] = ublocks("a", n) if s is None else sblocks("a", n, s)
                                return d
                            cases.append(Case(op, "%s %s %s%d bits" % (op.name, s, "-" if g else "", b), inp, assume=canonical("a") if s is not None else (), setup=setup, weight=0.05, vectors=2,
                                              bounds="W=%d, all values, GMP integer of exactly %d bits" % (W, b)))
    seen = {}
    for c in cases:
        seen.setdefault(c.name, c)
    return ops, list(seen.values())


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, **HKW, bounds="widths listed per case; GMP integers of every number of bits up to W+69 and some beyond, both signs",
                 assumptions=["GMP's mpz functions as documented (mpz_export, mpz_import, mpz_sizeinbase, comparison), 64-bit limbs; the gmpxx inline code is executed"])

"""helpers for the checks of the signed class"""
from .common import *

SIGNS = (0, 1, -1)
# declared name, C type, bits, signed
ITYPES = [(a, b, c, False) for a, b, c in UTYPES] + [(a, b, c, True) for a, b, c in STYPES]


def SB(w):
    return ("in", w // 8 + 4)


def SO(w):
    return ("out", w // 8 + 4)


def sval(b):
    """operand buffer -> (negative, magnitude) with a concrete sign"""
    s = b[0]
    assert s.op == "c"
    m = b.sl(1, len(b))
    if s.k == 0:
        return T.FALSE, T.const(0, m.w)
    return T.mkbool(s.k != 1), m


def swblocks(name, n, sign, wins, top=False):
    """signed operand of which only windows are symbolic (see wblocks)"""
    if sign == 0:
        return Blocks([T.const(0, 32)] * (n + 1))
    return Blocks([T.const(1 if sign > 0 else 2, 32)] + wblocks(name, n, *wins, top=top).items)


def canonical(*names):
    """precondition: a non-zero sign comes with a non-zero magnitude"""
    def f(i):
        out = []
        for n in names:
            b = i[n]
            if b[0].op == "c" and b[0].k != 0:
                m = b.sl(1, len(b))
                out.append(T.not_(T.eq(m, T.const(0, m.w))))
        return out
    return f


def flags(neg, mag):
    """flags word written by sts for a canonical number"""
    return T.ite(T.eq(mag, T.const(0, mag.w)), T.const(1, 32), T.ite(neg, T.const(4, 32), T.const(2, 32)))


def sgoals(label, ob, neg, mag):
    # the second goal may use the first: zero is recognised by the magnitude that came out
    return [(label + " magnitude", ob.sl(1, len(ob)), mag), (label + " sign", ob[0], flags(neg, ob.sl(1, len(ob))))]


def canon_goals(label, ob):
    """flags agree with the magnitude: zero iff zero magnitude, otherwise exactly one sign"""
    m = ob.sl(1, len(ob))
    z = T.eq(m, T.const(0, m.w))
    f = ob[0]
    isz = T.eq(f, T.const(1, 32))
    one = T.or_(T.eq(f, T.const(2, 32)), T.eq(f, T.const(4, 32)))
    return [(label + ": zero magnitude iff zero sign", T.bite(z, isz, one))]


def sadd(a, b):
    """exact sum of two (neg, mag) pairs -> (neg, mag of w+1 bits)"""
    (n1, m1), (n2, m2) = a, b
    w = m1.w + 1
    same = T.beq(n1, n2)
    lt = T.ult(m1, m2)
    diff = T.ite(lt, T.bvsub(m2, m1), T.bvsub(m1, m2))
    return T.bite(same, n1, T.bite(lt, n2, n1)), T.ite(same, T.bvadd(T.zext(m1, w), T.zext(m2, w)), T.zext(diff, w))


def sneg(a):
    return T.not_(a[0]), a[1]


def ival(k, bits, signed, W):
    """64-bit parameter after conversion to a built-in type -> (neg, magnitude of W bits)"""
    if bits == 1:
        return T.FALSE, wz(trunc(k, 1), W)
    v = T.ext(k, bits - 1, 0)
    if not signed:
        return T.FALSE, wz(v, W)
    neg = T.v2b(T.ext(v, bits - 1, bits - 1))
    return neg, wz(T.ite(neg, T.bvneg(v), v), W)


def kcases(bits, signed):
    """partition of a built-in operand by sign: list of (name, function() -> 64-bit term)"""
    def mk(lo, hi):
        def f():
            if bits == 64:
                return V("k", 64, lo, hi)
            return T.cat(V("kj", 64 - bits), V("k", bits, lo, hi))
        return f
    if bits == 1:
        return [("false", lambda: T.const(0, 64)), ("true", lambda: V("k", 64, 1))]
    out = [("0", (lambda: T.const(0, 64)) if bits == 64 else (lambda: T.cat(V("kj", 64 - bits), T.const(0, bits))))]
    if signed:
        out += [(">0", mk(1, (1 << (bits - 1)) - 1)), ("<0", mk((1 << (bits - 1)) + 1, (1 << bits) - 1)), ("min", (lambda: T.const(1 << 63, 64)) if bits == 64 else (lambda: T.cat(V("kj", 64 - bits), T.const(1 << (bits - 1), bits))))]
    else:
        out += [(">0", mk(1, (1 << bits) - 1))]
    return out


def kmix(bits, signed):
    """all values in one case"""
    return [("any", lambda: V("k", 64))]

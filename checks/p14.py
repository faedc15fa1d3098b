"""P14: getString writes the shortest numeral and never leaves the buffer"""
from .common import *
from engine import contracts as C, models

ID = "P14"
BITS = {2: 1, 8: 3, 16: 4}
PREFIX = {2: "0b", 8: "0o", 16: "0x", 10: ""}


def need(base, digits, prefix, neg):
    return digits + (len(PREFIX[base]) if prefix else 0) + (1 if neg else 0) + 1


def blocks_of(wide):
    return [T.ext(wide, 32 * j + 31, 32 * j) for j in range(wide.w // 32)]


def shaped(W, base, D, lowb=None):
    """a number of exactly D digits (D = 0: zero); lowb: range of the blocks below the top one (base 16)"""
    if D == 0:
        return T.const(0, W)
    if base == 10:
        return V("n", W, 10 ** (D - 1), min(10 ** D, 1 << W) - 1)
    b = BITS[base]
    low = b * (D - 1)
    if base == 16:                     # the top block has a known range, the others are free
        k = low // 32
        d = low % 32
        top = V("t", 32, 1 << d, (1 << (d + 4)) - 1)
        parts = [T.const(0, W - 32 * (k + 1))] if W > 32 * (k + 1) else []
        return T.cat(*(parts + [top] + [V("r%d" % j, 32, *(lowb or ())) if lowb != (0, 0) else T.const(0, 32) for j in reversed(range(k))]))
    tb = min(b, W - low)
    parts = [T.const(0, W - low - tb)] if W > low + tb else []
    return T.cat(*(parts + [V("t", tb, 1)] + ([V("r", low)] if low else [])))


def maxdigits(W, base):
    n = 0
    v = (1 << W) - 1
    while v:
        v //= base
        n += 1
    return n


def digits(n, base, D, upper, cw):
    """characters of the numeral, most significant digit first"""
    if D == 0:
        return [T.const(48, cw)]
    out = []
    v = n
    for j in range(D):
        if base == 10:
            d = T.ext(T.bvurem(v, T.const(10, v.w)), 7, 0)
            v = T.bvudiv(v, T.const(10, v.w))
        else:
            b = BITS[base]
            d = T.zext(T.ext(n, min(n.w - 1, b * j + b - 1), b * j), 8)
        d = T.zext(d, cw) if cw > 8 else d
        a = T.bvadd(d, T.const(48, cw))
        out.append(a if base <= 10 else T.ite(T.ult(d, T.const(10, cw)), a, T.bvadd(d, T.const((65 if upper else 97) - 10, cw))))
    return out[::-1]


def charvalue(c, base):
    """value of a digit character"""
    low = T.bvsub(c, T.const(48, c.w))
    if base <= 10:
        return low
    r = T.const(255, c.w)
    for first, n, add in ((65, 6, 10), (97, 6, 10), (48, 10, 0)):
        off = T.bvsub(c, T.const(first, c.w))
        r = T.ite(T.ult(off, T.const(n, c.w)), T.bvadd(off, T.const(add, c.w)), r)
    return r


def numstr(v, base, upper):
    if v == 0:
        return "0"
    s = ""
    while v:
        s = ("0123456789ABCDEF" if upper else "0123456789abcdef")[v % base] + s
        v //= base
    return s


def spec(base, upper, cw, signed, prefix):
    pre = [ord(c) for c in (PREFIX[base] if prefix else "")]

    def f(i, o):
        n = i["n"].k
        a = i["a"]
        if all(x.op == "c" for x in a.items):
            mag = a.sl(1, len(a)).k if signed else a.wide.k
            txt = [T.const(ord(c), cw) for c in numstr(mag, base, upper)]
            neg = signed and a[0].k not in (0, 1)
            zero = mag == 0
        else:
            mag = a.sl(1, len(a)) if signed else a.wide
            txt = digits(mag, base, i["D"], upper, cw)
            neg = signed and a[0].k not in (0, 1)
            zero = i["D"] == 0
        txt = ([T.const(45, cw)] if neg else []) + [T.const(c, cw) for c in pre] + txt
        if n <= len(txt):
            return []            # only the bounds of the buffer matter
        out = [("character %d" % j, o["buf"][j], c) for j, c in enumerate(txt)]
        out.append(("terminator", o["buf"][len(txt)], T.const(0, cw)))
        if "D" in i and not zero and n == len(txt) + 1 and not signed and cw == 8 and not prefix and not upper and (base != 10 or i["D"] <= 16):
            mag = a.sl(1, len(a)) if signed else a.wide
            w = mag.w + 8
            v = T.const(0, w)
            ds = o["buf"].items[len(pre) + (1 if neg else 0):len(txt)]
            for c in ds:
                v = T.bvadd(T.bvmul(v, T.const(base, w)), T.zext(charvalue(c, base), w))
            out.append(("the written digits have the number's value", v, T.zext(mag, w)))
            out.append(("no leading zero", T.not_(T.eq(ds[0], T.const(48, cw)))))
        out.append(("number of characters written", o["r"].wide, T.const(len(txt) + 1, 64)))
        return out
    return f


def lin_feasible(pc):
    return lin.check(list(pc), 5, want_model=False)[0] != "unsat"


def setup(W):
    def f(ex):
        models.charprops(ex)
        models.printf(ex)
        C.summary(ex, W)
        iszero(ex, W)
        ex.feas_after = 0
        ex.feasible = lin_feasible
        ex.step_limit = 5_000_000
    return f


def iszero(ex, W):
    """isZero by its contract (P08)"""
    for nm in C.find(ex.m, r"_ZNK3AeuILm%dEE6isZeroEv$" % W):
        def f(ex, st, a):
            ex.contract_uses = getattr(ex, "contract_uses", 0) + 1
            return T.b2v(T.eq(C.ldw(ex, st, a[0], W), T.const(0, W)))
        ex.summaries[nm] = f


def mkop(W, signed, cw, base, upper, prefix):
    cls = "Aesi" if signed else "Aeu"
    ch = {8: "char", 32: "wchar_t"}[cw]
    nm = "getString_%s_%s_%d%s%s_%d" % (cls, ch, base, "U" if upper else "", "_prefix" if prefix else "", W)
    body = "const %s<%d> v = %s<%d>(a); *(uint64_t*)r = v.template getString<%d, %s>((%s*)buf, n, %s);" % (
        cls, W, "lds" if signed else "ldu", W, base, "true" if upper else "false", ch, "true" if prefix else "false")
    sz = lambda i: (i["n"].k if isinstance(i["n"], T.T) else i["n"]) * cw // 8
    return Op(nm, [("a", B(W + 32 if signed else W)), ("buf", ("outbytes" if cw == 8 else "out", sz)), ("n", ("u", 64)), ("r", ("out", 8))],
              body, spec(base, upper, cw, signed, prefix))


def build():
    ops, cases = [], []
    for W in ([96, 128, 512] if Q else [96, 128, 160, 256, 512, 1024]):
        for signed in (False, True):
            for cw in (8, 32):
                for base, upper in ((2, False), (8, False), (10, False), (16, False), (16, True)):
                    for prefix in (False, True):
                        if W != 96 and (signed and cw == 32) and Q:
                            continue
                        if W >= 512 and (signed or cw == 32 and base != 16):
                            continue
                        op = mkop(W, signed, cw, base, upper, prefix)
                        ops.append(op)
                        dm = maxdigits(W, base)
                        Ds = range(0, dm + 1)
                        if (base == 2 or W > 128) and Q or base == 2 and W > 128:
                            Ds = sorted({0, 1, 2, 3, 4, 5, 31, 32, 33, 34, dm // 2, dm - 1, dm})
                        if W >= 512:
                            Ds = [1, dm // 2 + 1, dm - 1, dm]
                        for D in Ds:
                            for neg in ((False, True) if signed and D else (False,)):
                                full = need(base, max(D, 1), prefix, neg)
                                sizes = {0, 1, 2, 3, 4, 5, 6, full - 9, full - 8, full - 2, full - 1, full, full + 1, full + 7}
                                if Q and D not in (1, 2, 9, 17, dm):
                                    sizes = {full - 1, full, full + 2} | ({2, 3, 4} if D < 6 else set())
                                for n in sorted(sizes):
                                    if n < 0 or n > full + 7:
                                        continue

                                    def inp(W=W, base=base, D=D, neg=neg, n=n, signed=signed):
                                        a = blocks_of(shaped(W, base, D))
                                        if signed:
                                            a = [T.const(0 if D == 0 else 2 if neg else 1, 32)] + a
                                        return {"a": Blocks(a), "n": T.const(n, 64), "D": D}
                                    c = Case(op, "%s: %s%d digits, buffer %d" % (op.name, "negative, " if neg else "", D, n), inp, setup=setup(W),
                                             weight=1 if base == 10 and n == full and 8 < D < 17 and not signed and cw == 8 and not prefix else 0.02 + 0.001 * D, vectors=3, timeout=90, strategy=("lin", "bv") if base == 10 else ("bv", "lin"), bounds="every value of width %d with %d digits in base %d, buffer of %d" % (W, D, base, n))
                                    cases.append(c)
    return ops, cases


HKW = dict(prelude=PRELUDE, flags=["-D_GLIBCXX_EXTERN_TEMPLATE=0"])


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, **HKW, bounds="widths 96 and 128 (thorough up to 256; some digit counts at 512 and up), every number of digits, buffer sizes around 0 and around the numeral's length",
                 assumptions=["division and isZero by the contracts that P03 and P08 prove", "snprintf/swprintf as specified by C (glibc: swprintf truncates, terminates and returns -1)"])

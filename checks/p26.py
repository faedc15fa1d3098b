"""P26: the signed and the unsigned class agree on non-negative values"""
from .signed import *
from . import p13, p14, p15
from engine import contracts as C, models, streams

ID = "P26"
PRE = PRELUDE + streams.PRE + r'''
#include <string>
'''
NPRE = PRELUDE + streams.PRE + r'''
#include <string>
#include <clocale>
static const char* set_c_locale = setlocale(LC_ALL, "C");
'''
HKW = dict(prelude=PRE, native_prelude=NPRE, native_extra=streams.NATIVE, flags=["-D_GLIBCXX_EXTERN_TEMPLATE=0"])
LD = "const auto ux = ldu<{0}>(a + 1); const auto sx = lds<{0}>(a); "
LD2 = LD + "const auto uy = ldu<{0}>(b + 1); const auto sy = lds<{0}>(b); "
STRAT = (("abs", 20), ("bv", 40), ("lin", 30), ("cvc5", 30))


def agree(i, o):
    """unsigned result o, signed result p"""
    m = o["o"].wide
    return [("magnitude of the signed result", o["p"].sl(1, len(o["p"])), m), ("sign of the signed result", o["p"][0], flags(T.FALSE, o["p"].sl(1, len(o["p"]))))]


def same(i, o):
    return [("answers agree [%d]" % j, x, y) for j, (x, y) in enumerate(zip(o["o"].items, o["p"].items))]


def mag(i, n):
    return i[n].sl(1, len(i[n]))


def width(W, ops, cases):
    n = W // 32
    summ = lambda ex, W=W: C.summary(ex, W)
    nosum = lambda i: T.not_(T.v2b(T.ext(T.bvadd(T.zext(mag(i, "a"), W + 1), T.zext(mag(i, "b"), W + 1)), W, W)))
    ge = lambda i: T.not_(T.ult(mag(i, "a"), mag(i, "b")))

    def two(nm, e, pre="", signs=((0, 0), (0, 1), (1, 0), (1, 1)), cond=None, spec=agree, blocks=None, W2=None, **kw):
        W2 = W2 or W
        body = (LD2 + pre.replace("@", "u") + " stu<{1}>(" + e.replace("@", "u") + ", o); " + pre.replace("@", "s").replace("Aeu<", "Aesi<") + " sts<{1}>(" + e.replace("@", "s").replace("Aeu<", "Aesi<") + ", p);").format(W, W2)
        op = Op("ag_%s_%d" % (nm, W), [("a", SB(W)), ("b", SB(W)), ("o", O(W2)), ("p", SO(W2))], body, spec)
        ops.append(op)
        for s1, s2 in signs:
            for kk in (blocks or [None]):
                if kk and (s1, s2) != (1, 1):
                    continue

                def inp(s1=s1, s2=s2, kk=kk):
                    return {"a": sblocks("a", n, s1, kk and kk[0]), "b": sblocks("b", n, s2, kk and kk[1])}
                assume = lambda i, s1=s1, s2=s2: canonical("a", "b")(i) + ([cond(i)] if cond else [])
                cases.append(Case(op, "%s signs %d %d%s" % (op.name, s1, s2, " blocks %s" % (kk,) if kk else ""), inp, assume=assume, weight=0.2, vectors=6, strategy=STRAT,
                                  bounds="W=%d, all non-negative values whose exact result is non-negative and fits" % W, **kw))
    two("add", "@x + @y", cond=nosum)
    two("addeq", "@z", "auto @z = @x; @z += @y;", cond=nosum)
    g3 = ((0, 0), (1, 0), (1, 1))
    two("sub", "@x - @y", cond=ge, signs=g3)
    two("subeq", "@z", "auto @z = @x; @z -= @y;", cond=ge, signs=g3)
    fits = [(i, j) for i in range(1, n) for j in range(1, n + 1 - i)]
    two("mul", "@x * @y", blocks=fits)
    two("muleq", "@z", "auto @z = @x; @z *= @y;", blocks=fits)
    two("mulzero", "@x * @y", signs=((0, 0), (0, 1), (1, 0)))
    d = ((0, 1), (1, 1))
    two("div", "@x / @y", signs=d, setup=summ)
    two("diveq", "@z", "auto @z = @x; @z /= @y;", signs=d, setup=summ)
    two("mod", "@x % @y", signs=d, setup=summ)
    two("modeq", "@z", "auto @z = @x; @z %= @y;", signs=d, setup=summ)
    two("quot", "@q", "auto @q = @x, @r = @x; Aeu<{0}>::divide(@x, @y, @q, @r);", signs=d, setup=summ)
    two("rem", "@r", "auto @q = @x, @r = @x; Aeu<{0}>::divide(@x, @y, @q, @r);", signs=d, setup=summ)
    two("swap", "@z", "auto @z = @x, @w = @y; @z.swap(@w);")
    two("copy", "@z", "auto @z = @x; @z = @y;")
    two("incd", "@z", "auto @z = @x; ++@z;", signs=((0, 0), (1, 0)), cond=lambda i: T.not_(T.eq(mag(i, "a"), T.const((1 << W) - 1, W))))
    two("pinc", "@z + @w", "auto @z = @x; const auto @w = @z++; @z -= @w;", signs=((0, 0), (1, 0)), cond=lambda i: T.not_(T.v2b(T.ext(mag(i, "a"), W - 1, W - 1))))
    two("decd", "@z", "auto @z = @x; --@z;", signs=((1, 0),))
    two("pdec", "@w", "auto @z = @x; const auto @w = @z--;", signs=((1, 0),))
    two("plus", "+@x", signs=((0, 0), (1, 0)))
    for W2 in (96, 128, 160, 256, 512):
        if W2 != W:
            two("prec%d" % W2, "@x.template precisionCast<%d>()" % W2, signs=((0, 0), (1, 0)), W2=W2)

    def root(ex, W=W):
        """the square root of the unsigned class as an unspecified function: both classes are measured by it"""
        for nm in C.find(ex.m, r"_ZNK3AeuILm%dEE10squareRootEv$" % W):
            def f(ex, st, a):
                v = C.ldw(ex, st, a[-1], W)
                r = T.ite(T.eq(v, T.const(0, W)), T.const(0, W), T.uf("squareRoot%d" % W, W, v, lo=1))
                if len(a) == 2:
                    return C.stw(ex, st, a[0], r)
                return [T.ext(r, min(k + 63, W - 1), k) for k in range(0, W, 64)]   # returned in registers
            ex.summaries[nm] = f
    two("sqrt", "@x.squareRoot()", signs=((0, 0), (1, 0)), setup=root)

    # ---- comparisons and counts
    def obs(nm, params, f, signs, pre="", **kw):
        def side(s):
            return f.replace("@", s)
        body = ((LD2 if "b" in [p[0] for p in params] else LD) + pre + "".join("o[%d] = uint32_t(%s); " % (j, side("u")) for j, side in enumerate([lambda s, e=e: e.replace("@", s) for e in f]))
                + "".join("p[%d] = uint32_t(%s); " % (j, side("s")) for j, side in enumerate([lambda s, e=e: e.replace("@", s) for e in f]))).format(W) if isinstance(f, list) else None
        op = Op("ag_%s_%d" % (nm, W), params + [("o", ("out", 4 * len(f))), ("p", ("out", 4 * len(f)))], body, same)
        ops.append(op)
        for inp, label in signs:
            cases.append(Case(op, "%s %s" % (op.name, label), inp, assume=canonical(*[p[0] for p in params if p[0] in "ab"]), weight=0.2, vectors=6, strategy=STRAT,
                              bounds="W=%d, all non-negative values" % W, **kw))
    ab = [(lambda s1=s1, s2=s2: {"a": sblocks("a", n, s1), "b": sblocks("b", n, s2)}, "signs %d %d" % (s1, s2)) for s1 in (0, 1) for s2 in (0, 1)]
    P2 = [("a", SB(W)), ("b", SB(W))]
    obs("compare", P2, ["@x == @y", "@x != @y", "@x < @y", "@x <= @y", "@x > @y", "@x >= @y", "ord(@x <=> @y)", "@x.compareTo(@y)"], ab)
    for W2 in ((128, 256) if W == 96 else (96,)):
        obs("comparemixed%d" % W2, P2, ["@x == @v", "@x != @v", "@x < @v", "@x > @v", "ord(@x <=> @v)", "@v < @x", "@v >= @x"], ab,
            pre="const auto uv = uy.template precisionCast<%d>(); const auto sv = sy.template precisionCast<%d>(); " % (W2, W2))
    oneside = [(lambda s=s, k=k: {"a": sblocks("a", n, s, k)}, "%s blocks" % k) for s, k in [(0, None)] + [(1, k) for k in range(1, n + 1)]]
    P1 = [("a", SB(W))]
    obs("counts", P1, ["@x.bitCount()", "@x.byteCount()", "@x.filledBlocksNumber()", "@x.isZero()", "@x.isOdd()", "@x.isEven()", "@x.getBitness()", "@x.totalBlocksNumber()"], oneside)
    for acc, lim in (("Bit", W), ("Byte", W // 8), ("Block", n)):
        obs("get" + acc, P1 + [("k", ("u", 64))], ["@x.get%s(k)" % acc],
            [(lambda s=s, lo=lo, hi=hi: {"a": sblocks("a", n, s), "k": V("k", 64, lo, hi)}, "%d %s" % (s, lb)) for s in (0, 1) for lo, hi, lb in ((0, lim - 1, "in range"), (lim, (1 << 64) - 1, "out of range"))])
    for tn, ct, bits, sg in ITYPES:
        obs("cast_" + tn, P1, ["uint64_t(@x.template integralCast<%s>())" % ct, "uint64_t(@x.template integralCast<%s>()) >> 32" % ct], oneside)
        # a built-in operand: the value the unsigned class takes is the same value in the signed class
        mk = "const %s y = static_cast<%s>(k); const bool neg = y < 0; if(neg) {{ for(int j = 0; j < 13; ++j) o[j] = p[j] = 0; return; }} " % (ct, ct)
        uy = "y" if not sg else "static_cast<std::make_unsigned_t<%s>>(y)" % ct
        es = ["@x == Y", "@x != Y", "@x < Y", "@x <= Y", "@x > Y", "@x >= Y", "ord(@x <=> Y)"]
        body = (LD + mk + "".join("o[%d] = uint32_t(%s); p[%d] = uint32_t(%s); " % (j, e.replace("@", "u").replace("Y", uy), j, e.replace("@", "s").replace("Y", "y")) for j, e in enumerate(es))).format(W)
        op = Op("ag_cmpk_%s_%d" % (tn, W), P1 + [("k", ("u", 64)), ("o", ("out", 52)), ("p", ("out", 52))], body, lambda i, o: [g for j, g in enumerate(same(i, o)) if j < 7])
        ops.append(op)
        for s in (0, 1):
            for kn, kf in kcases(bits, sg):
                if kn in ("<0", "min"):
                    continue
                cases.append(Case(op, "%s sign %d k%s" % (op.name, s, kn), lambda s=s, kf=kf: {"a": sblocks("a", n, s), "k": kf()}, assume=canonical("a"), weight=0.1, vectors=6, strategy=STRAT,
                                  bounds="W=%d, all non-negative values of the number and of %s" % (W, ct)))
        for nm, e, cond, zok in (("addk", "@x + Y", lambda i, k: T.not_(T.v2b(T.ext(mag(i, "a"), W - 1, W - 1))), True), ("subk", "@x - Y", lambda i, k: T.not_(T.ult(mag(i, "a"), k)), True),
                                 ("mulk", "@x * Y", lambda i, k: T.eq(T.ext(mag(i, "a"), W - 1, W - 64), T.const(0, 64)), True), ("divk", "@x / Y", None, False), ("modk", "@x % Y", None, False),
                                 ("kadd", "Y + @x", lambda i, k: T.not_(T.v2b(T.ext(mag(i, "a"), W - 1, W - 1))), True), ("kmul", "Y * @x", lambda i, k: T.eq(T.ext(mag(i, "a"), W - 1, W - 64), T.const(0, 64)), True),
                                 ("fromk", "Aeu<{0}>(Y)", None, True)):
            body = (LD + "const %s y = static_cast<%s>(k); " % (ct, ct) + "stu<{0}>(" + e.replace("@", "u").replace("Y", uy) + ", o); sts<{0}>(" + e.replace("@", "s").replace("Y", "y").replace("Aeu<", "Aesi<") + ", p);").format(W)
            op = Op("ag_%s_%s_%d" % (nm, tn, W), P1 + [("k", ("u", 64)), ("o", O(W)), ("p", SO(W))], body, agree)
            ops.append(op)
            for s in (0, 1):
                for kn, kf in kcases(bits, sg):
                    if kn in ("<0", "min") or not zok and kn in ("0", "false"):
                        continue
                    assume = lambda i, cond=cond, bits=bits: canonical("a")(i) + ([cond(i, wz(trunc(i["k"], bits), W))] if cond else [])
                    cases.append(Case(op, "%s sign %d k%s" % (op.name, s, kn), lambda s=s, kf=kf: {"a": sblocks("a", n, s), "k": kf()}, assume=assume, setup=summ if nm in ("divk", "modk") else None,
                                      weight=0.1, vectors=4, strategy=STRAT, vacuous=True, bounds="W=%d, all non-negative values whose exact result is non-negative and fits" % W))
    op = Op("ag_power2_%d" % W, [("k", ("u", 64)), ("o", O(W)), ("p", SO(W))], "stu<{0}>(Aeu<{0}>::power2(k), o); sts<{0}>(Aesi<{0}>::power2(k), p);".format(W), agree)
    ops.append(op)
    for b in range(n):
        cases.append(Case(op, "%s bit in block %d" % (op.name, b), lambda b=b: {"k": V("k%d" % b, 64, 32 * b, 32 * b + 31)}, weight=0.1, vectors=6, bounds="W=%d, every exponent below W" % W))

    # ---- text
    if W != 96 and Q:
        return
    for cw in (8, 32):
        ch = {8: "char", 32: "wchar_t"}[cw]
        op = Op("ag_parse_%s_%d" % (ch, W), [("d", ("inbytes", None) if cw == 8 else ("in", None)), ("n", ("u", 64)), ("o", O(W)), ("p", SO(W))],
                "stu<{0}>(Aeu<{0}>((const {1}*)d, n), o); sts<{0}>(Aesi<{0}>((const {1}*)d, n), p);".format(W, ch), agree)
        ops.append(op)
        for t in p13.texts(4):
            L = len(t.chars(cw, False))
            if not L:
                continue
            c = Case(op, "%s: %s" % (op.name, t.name()), lambda t=t, cw=cw, L=L: {"d": Blocks(t.chars(cw, False), cw), "n": T.const(L, 64)},
                     assume=lambda i, t=t, cw=cw: t.assume(i["d"].items) + [T.not_(T.eq(c, T.const(45, cw))) for c in i["d"].items], setup=p13.setup(W), weight=0.2, vectors=8, timeout=60,
                     strategy=("bv", ("cvc5", 30)), bounds="every text of this shape without a dash")
            g = t.gen(cw, False)
            c.gen = lambda rng, g=g: {k: (v if v != 45 else 43) for k, v in g(rng).items()}
            cases.append(c)
        for base, upper in ((2, False), (8, False), (10, False), (16, False), (16, True)):
            for prefix in (False, True):
                sz = lambda i, cw=cw: (i["n"].k if isinstance(i["n"], T.T) else i["n"]) * cw // 8
                op = Op("ag_getString_%s_%d%s%s_%d" % (ch, base, "U" if upper else "", "_prefix" if prefix else "", W),
                        [("a", SB(W)), ("bu", ("outbytes" if cw == 8 else "out", sz)), ("bs", ("outbytes" if cw == 8 else "out", sz)), ("n", ("u", 64)), ("o", ("out", 8)), ("p", ("out", 8))],
                        (LD + "*(uint64_t*)o = ux.template getString<{1}, {2}>(({3}*)bu, n, {4}); *(uint64_t*)p = sx.template getString<{1}, {2}>(({3}*)bs, n, {4});").format(
                            W, base, "true" if upper else "false", ch, "true" if prefix else "false"), gspec)
                ops.append(op)
                dm = p14.maxdigits(W, base)
                for D in sorted({0, 1, 2, 3, 9, 17, dm // 2, dm - 1, dm}):
                    full = p14.need(base, max(D, 1), prefix, False)
                    for size in (full, full + 3):
                        def inp(W=W, base=base, D=D, size=size):
                            return {"a": Blocks([T.const(1 if D else 0, 32)] + p14.blocks_of(p14.shaped(W, base, D))), "n": T.const(size, 64), "D": D}
                        cases.append(Case(op, "%s: %d digits, buffer %d" % (op.name, D, size), inp, setup=p14.setup(W), weight=0.1, vectors=2, strategy=("bv", "lin"),
                                          bounds="every value with %d digits in base %d" % (D, base)))
        op = Op("ag_print_%s_%d" % (ch, W), [("a", SB(W)), ("fl", ("u", 32)), ("tu", ("outbytes" if cw == 8 else "out", p15.CAP[W] * cw // 8)), ("ts", ("outbytes" if cw == 8 else "out", p15.CAP[W] * cw // 8)), ("o", ("out", 8)), ("p", ("out", 8))],
                (LD + "auto* os = os_make<{1}>(); os->flags(std::ios_base::fmtflags(int(fl))); *os << ux; *(uint64_t*)o = os_done(os, tu, {2});"
                 " auto* ps = os_make<{1}>(); ps->flags(std::ios_base::fmtflags(int(fl))); *ps << sx; *(uint64_t*)p = os_done(ps, ts, {2});").format(W, ch, p15.CAP[W]), pspec)
        ops.append(op)
        for bf in (p15.DEC, p15.OCT, p15.HEX):
            base = p15.BASE[bf]
            dm = p14.maxdigits(W, base)
            for fl in (0, streams.SHOWBASE, streams.UPPER, streams.SHOWBASE | streams.UPPER):
                for D in sorted({0, 1, 2, 8, 9, 17, dm - 1, dm}):
                    def inp(W=W, base=base, D=D, fl=bf | fl):
                        return {"a": Blocks([T.const(1 if D else 0, 32)] + p14.blocks_of(p14.shaped(W, base, D))), "fl": T.const(fl, 32), "D": D}
                    cases.append(Case(op, "%s: flags %#x, %d digits" % (op.name, bf | fl, D), inp, setup=p15.setup(W), weight=0.1, vectors=2, strategy=("bv", "lin"),
                                      bounds="every value with %d digits in base %d" % (D, base)))


def build():
    ops, cases = [], []
    for W in ([96, 128] if Q else [96, 128, 160, 256]):
        width(W, ops, cases)
    return ops, cases


def gspec(i, o):
    out = [("length", T.cat(o["o"][1], o["o"][0]), T.cat(o["p"][1], o["p"][0]))]
    n = o["o"][0]
    k = min(n.k, len(o["bu"])) if n.op == "c" else 0
    return out + [("character %d" % j, o["bu"][j], o["bs"][j]) for j in range(k)]


def pspec(i, o):
    out = [("length", T.cat(o["o"][1], o["o"][0]), T.cat(o["p"][1], o["p"][0]))]
    n = o["o"][0]
    k = min(n.k, len(o["tu"])) if n.op == "c" else 0
    return out + [("character %d" % j, o["tu"][j], o["ts"][j]) for j in range(k)]


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, **HKW, bounds="widths 96 and 128 (thorough up to 256); every non-negative operand whose exact result is non-negative and fits; text by number of digits",
                 assumptions=["Aeu::divide meets its contract (P03); Aeu::squareRoot is a function of the value with root of zero being zero and other roots at least one (P12)"])

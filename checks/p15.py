"""P15: stream output prints the number in the stream's base"""
from .common import *
from . import p14
from engine import contracts as C, models, streams

ID = "P15"
PRE = PRELUDE + streams.PRE
CAP = {96: 200, 128: 260, 160: 320, 256: 520, 512: 1040, 1024: 2080, 2048: 4160}
DEC, HEX, OCT = 2, 8, 64
BASE = {DEC: 10, OCT: 8, HEX: 16, 0: 10}
PREFIX = {8: "0o", 16: "0x", 10: ""}


def spec(W, signed, cw, twice):
    def f(i, o):
        fl = i["fl"].k
        base = BASE[fl & (DEC | HEX | OCT)]
        upper = bool(fl & streams.UPPER)
        pre = PREFIX[base] if fl & streams.SHOWBASE else ""
        a = i["a"]
        neg = signed and a[0].k not in (0, 1)
        if all(x.op == "c" for x in a.items):
            mag = a.sl(1, len(a)).k if signed else a.wide.k
            ds = [T.const(ord(c), cw) for c in p14.numstr(mag, base, upper)]
        else:
            mag = a.sl(1, len(a)) if signed else a.wide
            ds = p14.digits(mag, base, i["D"], upper, cw)
        txt = ([T.const(45, cw)] if neg else []) + [T.const(ord(c), cw) for c in pre] + ds
        if twice:
            txt = txt + [T.const(44, cw)] + txt
        out = [("number of characters", T.ext(o["r"].wide, 63, 0), T.const(len(txt), 64))]
        out += [("character %d" % j, o["t"][j], c) for j, c in enumerate(txt)]
        if not twice and not pre and not upper and not signed and cw == 8 and i.get("D") and (base != 10 or i["D"] <= 16):
            mag = a.wide
            w = mag.w + 8
            v = T.const(0, w)
            for c in o["t"].items[:len(ds)]:
                v = T.bvadd(T.bvmul(v, T.const(base, w)), T.zext(p14.charvalue(c, base), w))
            out.append(("the printed digits have the number's value", v, T.zext(mag, w)))
            out.append(("no leading zero", T.not_(T.eq(o["t"][0], T.const(48, cw)))))
        out.append(("the stream's flags stay", T.ext(o["r"].wide, 95, 64), T.const(fl, 32)))
        out.append(("the stream's fill stays", T.ext(o["r"].wide, 127, 96), T.const(i["fill"].k & ((1 << cw) - 1), 32)))
        return out
    return f


def setup(W):
    base = p14.setup(W)

    def f(ex):
        base(ex)
        streams.Streams(ex)
        ex.feas_after = 0
    return f


def mkop(W, signed, cw, twice):
    cls = "Aesi" if signed else "Aeu"
    ch = {8: "char", 32: "wchar_t"}[cw]
    nm = "print_%s_%s%s_%d" % (cls, ch, "_twice" if twice else "", W)
    body = """    const %s<%d> v = %s<%d>(a);
    auto* os = os_make<%s>();
    os->flags(std::ios_base::fmtflags(int(fl))); os->fill(%s(fill));
    *os << v;%s
    r[2] = uint32_t(os->flags()); r[3] = uint32_t(std::make_unsigned_t<%s>(os->fill()));
    *(uint64_t*)r = os_done(os, t, %d);""" % (cls, W, "lds" if signed else "ldu", W, ch, ch, " *os << %s(','); *os << v;" % ch if twice else "", ch, CAP[W])
    return Op(nm, [("a", B(W + 32 if signed else W)), ("fl", ("u", 32)), ("fill", ("u", 32)), ("t", ("outbytes" if cw == 8 else "out", CAP[W] * cw // 8)), ("r", ("out", 16))],
              body, spec(W, signed, cw, twice))


def build():
    ops, cases = [], []
    for W in ([96, 128, 512] if Q else [96, 128, 160, 256, 512, 1024]):
        for signed in (False, True):
            for cw in (8, 32):
                for twice in (False, True):
                    if W >= 512 and (signed or cw == 32):
                        continue
                    if twice and W != 96:
                        continue
                    op = mkop(W, signed, cw, twice)
                    ops.append(op)
                    for bf in (DEC, OCT, HEX, 0):
                        base = BASE[bf]
                        dm = p14.maxdigits(W, base)
                        for sb in (0, streams.SHOWBASE):
                            for up in ((0, streams.UPPER) if base == 16 or not twice else (0,)):
                                for adj in (0, streams.LEFT, streams.INTERNAL):
                                    if adj and (base != 16 or W != 96):
                                        continue
                                    Ds = range(0, dm + 1)
                                    if (W != 96 and Q) or bf == 0 or twice or adj or (up and base != 16):
                                        Ds = sorted({0, 1, 2, 8, 9, 16, 17, 24, dm - 1, dm})
                                    if W >= 512:
                                        Ds = [1, dm // 2 + 1, dm - 1, dm]
                                    for D in Ds:
                                        for neg in ((False, True) if signed and D else (False,)):
                                            for fill, low in (((32, None), (42, None), (32, (1, 15)), (42, (0, 0))) if base == 16 and D > 8 else ((32, None), (42, None)) if D == dm else ((32, None),)):
                                                if low and (adj or twice):
                                                    continue

                                                def inp(W=W, base=base, D=D, neg=neg, fl=bf | sb | up | adj, fill=fill, signed=signed, low=low):
                                                    a = p14.blocks_of(p14.shaped(W, base, D, low))
                                                    if signed:
                                                        a = [T.const(0 if D == 0 else 2 if neg else 1, 32)] + a
                                                    return {"a": Blocks(a), "fl": T.const(fl, 32), "fill": T.const(fill, 32), "D": D}
                                                cases.append(Case(op, "%s: %s%d digits in base %d%s%s%s%s" % (
                                                    op.name, "negative, " if neg else "", D, base, " (no basefield)" if bf == 0 else "", ", showbase" if sb else "", ", uppercase" if up else "",
                                                    {0: "", streams.LEFT: ", left", streams.INTERNAL: ", internal"}[adj] + (", fill *" if fill == 42 else "") + ("" if low is None else ", low blocks up to %d" % low[1])), inp,
                                                    setup=setup(W), weight=0.03 + 0.002 * D, vectors=2, timeout=30, strategy=("lin", "bv") if base == 10 else ("bv", "lin"),
                                                    bounds="every value of width %d with %d digits in base %d" % (W, D, base)))
    return ops, cases


HKW = dict(prelude=PRE, native_extra=streams.NATIVE, flags=["-D_GLIBCXX_EXTERN_TEMPLATE=0"])


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, **HKW, bounds="widths 96 and 128 (thorough up to 256; some digit counts at 512 and up), every number of digits, all combinations of basefield, showbase and uppercase, width 0",
                 assumptions=["std::basic_ostream's inserters of characters, texts and unsigned integers as specified by C++ in the classic locale",
                              "division and isZero by the contracts that P03 and P08 prove"])

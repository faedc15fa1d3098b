"""P16: binary stream I/O round-trips in both byte orders"""
from .common import *
from engine import streams

ID = "P16"
PRE = PRELUDE + streams.PRE
HKW = dict(prelude=PRE, native_extra=streams.NATIVE, flags=["-D_GLIBCXX_EXTERN_TEMPLATE=0"])


def order(n, be):
    """index of the block that comes k-th in the stream"""
    return [n - 1 - k if be else k for k in range(n)]


def wspec(n, be):
    def f(i, o):
        out = [("number of bytes", T.ext(o["r"].wide, 63, 0), T.const(4 * n, 64))]
        for k, j in enumerate(order(n, be)):
            for b in range(4):
                out.append(("byte %d" % (4 * k + b), o["t"][4 * k + b], T.ext(i["a"][j], 8 * b + 7, 8 * b)))
        return out
    return f


def rspec(n, be, name="o", start=0):
    def f(i, o):
        d = i["d"]
        out = []
        for k, j in enumerate(order(n, be)):
            by = [d[start + 4 * k + b] if start + 4 * k + b < len(d) else T.const(0, 8) for b in range(4)]
            out.append(("block %d" % j, o[name][j], T.cat(*reversed(by))))
        return out
    return f


def both(n, be):
    def f(i, o):
        return rspec(n, be, "o", 0)(i, o) + [("second number, " + l, x, y) for l, x, y in rspec(n, be, "p", 4 * n)(i, o)]
    return f


def setup(ex):
    streams.Streams(ex)


def build():
    ops, cases = [], []
    ws = [96, 128, 160, 256, 512, 1024, 2048, 4128] if Q else [96, 128, 160, 192, 256, 512, 1024, 2048, 4096, 4128, 8192]
    for W in ws:
        n = W // 32
        for be in (False, True, None):
            arg = {True: ", true", False: ", false", None: ""}[be]
            e = be is not False
            tag = {True: "big", False: "little", None: "default"}[be]
            ow = Op("write_%s_%d" % (tag, W), [("a", B(W)), ("t", ("outbytes", W // 8 + 16)), ("r", ("out", 8))],
                    "const Aeu<%d> v = ldu<%d>(a); auto* os = os_make<char>(); v.writeBinary(*os%s); *(uint64_t*)r = os_done(os, t, %d);" % (W, W, arg, W // 8 + 16), wspec(n, e))
            orr = Op("read_%s_%d" % (tag, W), [("a", B(W)), ("d", ("inbytes", None)), ("n", ("u", 64)), ("o", O(W))],
                     "Aeu<%d> v = ldu<%d>(a); auto* is = is_make_c(d, n); v.readBinary(*is%s); stu<%d>(v, o);" % (W, W, arg, W), rspec(n, e))
            o2 = Op("read_twice_%s_%d" % (tag, W), [("a", B(W)), ("b", B(W)), ("d", ("inbytes", None)), ("n", ("u", 64)), ("o", O(W)), ("p", O(W))],
                    "Aeu<{0}> v = ldu<{0}>(a), w = ldu<{0}>(b); auto* is = is_make_c(d, n); v.readBinary(*is{1}); w.readBinary(*is{1}); stu<{0}>(v, o); stu<{0}>(w, p);".format(W, arg), both(n, e))
            rt = Op("roundtrip_%s_%d" % (tag, W), [("a", B(W)), ("b", B(W)), ("o", O(W))],
                    "const Aeu<{0}> v = ldu<{0}>(a); Aeu<{0}> w = ldu<{0}>(b); auto* os = os_make<char>(); v.writeBinary(*os{1}); unsigned char t[{2}]; os_done(os, t, {2}); auto* is = is_make_c(t, {2}); w.readBinary(*is{1}); stu<{0}>(w, o);".format(W, arg, W // 8),
                    lambda i, o: [("the number comes back", o["o"].wide, i["a"].wide)])
            ops += [ow, orr, o2, rt]
            cases.append(Case(ow, ow.name, lambda n=n: {"a": ublocks("a", n)}, setup=setup, weight=0.1, bounds="all values"))
            cases.append(Case(rt, rt.name, lambda n=n: {"a": ublocks("a", n), "b": ublocks("b", n)}, setup=setup, weight=0.1, bounds="all values and all previous values"))

            def data(L):
                return Blocks([V("d%d" % k, 8) for k in range(L)], 8)
            for L in range(0, W // 8 + 6):
                if Q and W > 160 and L % 4 and L not in (1, 2, 3, W // 8 - 1, W // 8 + 1):
                    continue
                if W > 512 and L not in (0, 1, 3, 4, 64, 129, 256, 260, W // 16, W // 8 - 4, W // 8 - 1, W // 8, W // 8 + 1, W // 8 + 4):
                    continue
                cases.append(Case(orr, "%s, stream of %d bytes" % (orr.name, L), lambda n=n, L=L: {"a": ublocks("a", n), "d": data(L), "n": T.const(L, 64)}, setup=setup, weight=0.05,
                                  bounds="all bytes, all previous values"))
            for L in (0, 3, W // 8 - 4, W // 8, W // 8 + 1, W // 8 + 4, 2 * W // 8 - 4, 2 * W // 8, 2 * W // 8 + 3):
                cases.append(Case(o2, "%s, stream of %d bytes" % (o2.name, L), lambda n=n, L=L: {"a": ublocks("a", n), "b": ublocks("b", n), "d": data(L), "n": T.const(L, 64)}, setup=setup, weight=0.05,
                                  bounds="all bytes, all previous values"))
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, **HKW, bounds="widths up to 4128 (thorough 8192), stream lengths 0 to W/8+5 bytes (selected lengths above width 512), both orders and the default argument",
                 assumptions=["std::istream::read and std::ostream::write as specified by C++; little-endian host; char streams (the wchar_t form does not compile when instantiated)"])

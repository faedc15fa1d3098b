"""P18: signed addition, subtraction, negation, ++ and -- are exact"""
from .signed import *

ID = "P18"
STRAT = (("bv", 30), ("lin", 40), ("cvc5", 30))


def nooverflow(f):
    """assumption: exact result fits"""
    def g(i):
        m = f(i)[1]
        return [T.eq(T.ext(m, m.w - 1, m.w - 1), T.const(0, 1))]
    return g


def build():
    ops, cases = [], []
    for W in ([96, 128, 256, 1056] if Q else [96, 128, 160, 256, 512, 1024, 2048, 4128]):
        n = W // 32
        full = W <= (256 if Q else 512)
        add = lambda i: sadd(sval(i["a"]), sval(i["b"]))
        sub = lambda i: sadd(sval(i["a"]), sneg(sval(i["b"])))
        two = [("add", "const auto x = lds<{0}>(a), y = lds<{0}>(b); sts<{0}>(x + y, o);", add),
               ("sub", "const auto x = lds<{0}>(a), y = lds<{0}>(b); sts<{0}>(x - y, o);", sub),
               ("addeq", "auto x = lds<{0}>(a); const auto y = lds<{0}>(b); auto& r = (x += y); r += Aesi<{0}>(0); sts<{0}>(x, o);", add),
               ("subeq", "auto x = lds<{0}>(a); const auto y = lds<{0}>(b); auto& r = (x -= y); r -= Aesi<{0}>(0); sts<{0}>(x, o);", sub)]
        for nm, body, f in two:
            op = Op("s_%s_%d" % (nm, W), [("a", SB(W)), ("b", SB(W)), ("o", SO(W))], body.format(W),
                    lambda i, o, f=f, W=W: sgoals("result", o["o"], f(i)[0], wz(f(i)[1], W)))
            ops.append(op)
            if not full:
                for lab, wa, wb in windows(n):
                    for s1 in (1, -1):
                        for s2 in (1, -1):
                            if (s1 == s2) == nm.startswith("sub") and "ones" not in lab:
                                continue        # magnitudes are subtracted
                            cases.append(Case(op, "%s signs %d %d %s" % (op.name, s1, s2, lab), lambda n=n, s1=s1, s2=s2, wa=wa, wb=wb: {"a": swblocks("a", n, s1, wa), "b": swblocks("b", n, s2, wb)},
                                              assume=lambda i, f=f: canonical("a", "b")(i) + nooverflow(f)(i), strategy=(("bv", 30), ("lin", 40), ("cvc5", 30)), weight=0.3, vectors=8,
                                              bounds="W=%d, %s symbolic, exact result fits" % (W, lab)))
                continue
            for s1 in SIGNS:
                for s2 in SIGNS:
                    cases.append(Case(op, "%s signs %d %d" % (op.name, s1, s2), lambda n=n, s1=s1, s2=s2: {"a": sblocks("a", n, s1), "b": sblocks("b", n, s2)},
                                      assume=lambda i, f=f: canonical("a", "b")(i) + nooverflow(f)(i), strategy=STRAT if W <= 128 else (("lin", 40), ("bv", 30), ("cvc5", 30)), weight=0.3 if W <= 128 else 1,
                                      bounds="W=%d, all magnitudes whose exact result fits" % W))
        one = T.const(1, W)
        inc = lambda i: sadd(sval(i["a"]), (T.FALSE, T.const(1, i["a"].sl(1, len(i["a"])).w)))
        dec = lambda i: sadd(sval(i["a"]), (T.TRUE, T.const(1, i["a"].sl(1, len(i["a"])).w)))
        ident = lambda i: (sval(i["a"])[0], T.zext(sval(i["a"])[1], sval(i["a"])[1].w + 1))
        neg = lambda i: (T.not_(ident(i)[0]), ident(i)[1])
        un = [("neg", "const auto r = -x;", neg, ident), ("plus", "const auto r = +x;", ident, ident),
              ("inverse", "x.inverse(); const auto r = x;", neg, neg),
              ("preinc", "const auto r = ++x;", inc, inc), ("predec", "const auto r = --x;", dec, dec),
              ("postinc", "const auto r = x++;", ident, inc), ("postdec", "const auto r = x--;", ident, dec)]
        for nm, body, f, g in un:
            op = Op("s_%s_%d" % (nm, W), [("a", SB(W)), ("o", SO(W)), ("p", SO(W))],
                    "auto x = lds<{0}>(a); {1} sts<{0}>(r, o); sts<{0}>(x, p);".format(W, body),
                    lambda i, o, f=f, g=g, W=W: sgoals("returned value", o["o"], f(i)[0], wz(f(i)[1], W)) + sgoals("object", o["p"], g(i)[0], wz(g(i)[1], W)))
            ops.append(op)
            if not full:
                for lab, wa, _ in windows(n):
                    for s in (1, -1):
                        cases.append(Case(op, "%s sign %d %s" % (op.name, s, lab), lambda n=n, s=s, wa=wa: {"a": swblocks("a", n, s, wa)},
                                          assume=lambda i, g=g: canonical("a")(i) + nooverflow(g)(i), strategy=STRAT, weight=0.2, vectors=8,
                                          bounds="W=%d, %s symbolic, exact result fits" % (W, lab)))
                continue
            for s in SIGNS:
                cases.append(Case(op, "%s sign %d" % (op.name, s), lambda n=n, s=s: {"a": sblocks("a", n, s)},
                                  assume=lambda i, g=g: canonical("a")(i) + nooverflow(g)(i), strategy=STRAT, weight=0.2,
                                  bounds="W=%d, all magnitudes whose exact result fits" % W))
        if W > 160:
            continue
        for tn, ct, bits, sg in ITYPES:
            forms = [("addi", "x + y", 1, 0), ("addeqi", "x += y", 1, 0), ("subi", "x - y", 0, 0), ("subeqi", "x -= y", 0, 0), ("iadd", "y + x", 1, 0), ("isub", "y - x", 0, 1)]
            for nm, e, isadd, rev in forms:
                def f(i, bits=bits, sg=sg, isadd=isadd, rev=rev):
                    a = sval(i["a"])
                    k = ival(i["k"], bits, sg, a[1].w)
                    if rev:
                        a, k = k, a
                    return sadd(a, k if isadd else sneg(k))
                op = Op("s_%s_%s_%d" % (nm, tn, W), [("a", SB(W)), ("k", ("u", 64)), ("o", SO(W))],
                        "auto x = lds<{0}>(a); const {1} y = static_cast<{1}>(k); sts<{0}>({2}, o);".format(W, ct, e),
                        lambda i, o, f=f, W=W: sgoals("result", o["o"], f(i)[0], wz(f(i)[1], W)))
                ops.append(op)
                for s in SIGNS:
                    for kn, kf in kcases(bits, sg):
                        cases.append(Case(op, "%s sign %d k%s" % (op.name, s, kn), lambda n=n, s=s, kf=kf: {"a": sblocks("a", n, s), "k": kf()},
                                          assume=lambda i, f=f: canonical("a")(i) + nooverflow(f)(i), strategy=STRAT, weight=0.05, vectors=2,
                                          bounds="W=%d, all magnitudes and all %s of that sign whose exact result fits" % (W, ct)))
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="widths and sign combinations listed per case; all magnitudes whose exact result fits the width")

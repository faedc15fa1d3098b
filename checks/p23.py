"""P23: operands are left alone, assignment returns its left operand, aliased operands work"""
from .signed import *
from engine import contracts as C

ID = "P23"
STRAT = (("bv", 20), ("lin", 40), ("semi", 20))
ARITH = [("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/"), ("mod", "%")]
BITS = [("and", "&"), ("or", "|"), ("xor", "^")]
CMP = [("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("tw", "<=>")]


def build():
    ops, cases = [], []

    def group(cls, W):
        ld, st, ty, ns = ("ldu", "stu", "Aeu", 0) if cls == "u" else ("lds", "sts", "Aesi", 1)
        n = W // 32
        BB, OO = ("in", W // 8 + 4 * ns), ("out", W // 8 + 4 * ns)

        def same(lab, i, o, src, dst, ns=ns, n=n):
            g = [(lab + " keeps its magnitude", o[dst].sl(ns, ns + n), i[src].sl(ns, ns + n))]
            if ns:
                g.append((lab + " keeps its sign", o[dst][0], flags(T.mkbool(i[src][0].op == "c" and i[src][0].k not in (0, 1)), i[src].sl(1, 1 + n)) if i[src][0].op == "c" else sgn_out(i[src][0])))
            return g

        def setup(ex, W=W):
            C.summary(ex, W)

        def mk(op, nm, two=True, k=None, summ=False, w=0.1, strategy=STRAT, kk=None, assume=None):
            """cases over signs (signed class) and, for products, filled blocks"""
            combos = [(s1, s2) for s1 in SIGNS for s2 in (SIGNS if two else (1,))] if ns else [(None, None)]
            for s1, s2 in combos:
                def inp(s1=s1, s2=s2):
                    d = {"a": sblocks("a", n, s1, kk) if ns else ublocks("a", n, kk)}
                    if two:
                        d["b"] = sblocks("b", n, s2) if ns else ublocks("b", n)
                    if k:
                        d["k"] = k()
                    return d

                def pre(i):
                    out = canonical("a", *(["b"] if two else []))(i) if ns else []
                    if summ and two:
                        out = out + [T.not_(T.eq(i["b"].sl(ns, ns + n), T.const(0, W)))]
                    return out + (assume(i) if assume else [])
                if summ and two and s2 == 0:
                    continue
                cases.append(Case(op, op.name + ("" if s1 is None else " signs %s %s" % (s1, s2)) + ("" if kk is None else " %d blocks" % kk), inp, assume=pre,
                                  setup=setup if summ else None, strategy=strategy, timeout=40, weight=w, vectors=6, skip_obl=True,
                                  bounds="W=%d, all operand values" % W))
        # ---- binary operators and comparisons leave both operands alone
        for nm, sy in ARITH + (BITS if cls == "u" else []) + CMP:
            body = "auto x = {l}<{W}>(a); auto y = {l}<{W}>(b); const auto r = x {o} y; (void)r; {s}<{W}>(x, p); {s}<{W}>(y, q);"
            op = Op("%s_keep_%s_%d" % (cls, nm, W), [("a", BB), ("b", BB), ("p", OO), ("q", OO)], body.format(l=ld, s=st, W=W, o=sy),
                    lambda i, o, same=same: same("left operand", i, o, "a", "p") + same("right operand", i, o, "b", "q"))
            ops.append(op)
            mk(op, nm, summ=nm in ("div", "mod"), w=0.2)
        # ---- with built-in operands on either side
        for tn, ct, bits in (("u32", "unsigned int", 32), ("ull", "unsigned long long", 64)) if cls == "u" else (("s32", "int", 32), ("sll", "long long", 64), ("ul", "unsigned long", 64)):
            for nm, sy in ARITH + (BITS if cls == "u" else []):
                body = "auto x = {l}<{W}>(a); const {t} y = static_cast<{t}>(k); const auto r = x {o} y; (void)r; {s}<{W}>(x, p);"
                op = Op("%s_keepk_%s_%s_%d" % (cls, nm, tn, W), [("a", BB), ("k", ("u", 64)), ("p", OO)], body.format(l=ld, s=st, W=W, o=sy, t=ct),
                        lambda i, o, same=same: same("left operand", i, o, "a", "p"))
                ops.append(op)
                for kn, kf in [("nz", (lambda bits=bits: V("k", 64, 1) if bits == 64 else T.cat(V("kj", 64 - bits), V("k", bits, 1))))]:
                    mk(op, nm, two=False, k=kf, summ=nm in ("div", "mod"), w=0.1)
            for nm, sy in [("add", "+"), ("sub", "-"), ("mul", "*"), ("eq", "=="), ("lt", "<")]:
                body = "auto x = {l}<{W}>(a); const {t} y = static_cast<{t}>(k); const auto r = y {o} x; (void)r; {s}<{W}>(x, p);"
                op = Op("%s_kkeep_%s_%s_%d" % (cls, nm, tn, W), [("a", BB), ("k", ("u", 64)), ("p", OO)], body.format(l=ld, s=st, W=W, o=sy, t=ct),
                        lambda i, o, same=same: same("right operand", i, o, "a", "p"))
                ops.append(op)
                mk(op, nm, two=False, k=lambda: V("k", 64), w=0.1)
        # ---- assignment operators change only the left operand and return a reference to it
        for nm, sy in ARITH + (BITS if cls == "u" else []) + [("asg", "")]:
            body = "auto x = {l}<{W}>(a); auto y = {l}<{W}>(b); auto& r = (x {o}= y); {s}<{W}>(y, q); return &r == &x;"
            op = Op("%s_assign_%s_%d" % (cls, nm, W), [("a", BB), ("b", BB), ("q", OO)], body.format(l=ld, s=st, W=W, o=sy),
                    lambda i, o, same=same: same("right operand", i, o, "b", "q") + [("returns the left operand", T.not_(T.eq(o["ret"], T.const(0, 8))))], ret=8)
            ops.append(op)
            mk(op, nm, summ=nm in ("div", "mod"), w=0.2)
        incs = [("++", "++x"), ("--", "--x")]
        for nm, e in (("inc", "++x"), ("dec", "--x")):
            op = Op("%s_ref_%s_%d" % (cls, nm, W), [("a", BB)], "auto x = {l}<{W}>(a); auto& r = {e}; return &r == &x;".format(l=ld, W=W, e=e),
                    lambda i, o: [("returns the operand", T.not_(T.eq(o["ret"], T.const(0, 8))))], ret=8)
            ops.append(op)
            mk(op, nm, two=False)
        for tn, ct, bits in (("u8", "unsigned char", 8), ("u32", "unsigned int", 32), ("ull", "unsigned long long", 64)) if cls == "u" else (("s32", "int", 32), ("sll", "long long", 64)):
            for nm, sy in ARITH + (BITS + [("shl", "<<"), ("shr", ">>")] if cls == "u" else []) + [("asg", "")]:
                op = Op("%s_refk_%s_%s_%d" % (cls, nm, tn, W), [("a", BB), ("k", ("u", 64))],
                        "auto x = {l}<{W}>(a); const {t} y = static_cast<{t}>(k); auto& r = (x {o}= y); return &r == &x;".format(l=ld, W=W, o=sy, t=ct),
                        lambda i, o: [("returns the left operand", T.not_(T.eq(o["ret"], T.const(0, 8))))], ret=8)
                ops.append(op)
                mk(op, nm, two=False, k=(lambda bits=bits, W=W: T.cat(T.const(0, 57), V("kq", 7, 1, 95))) if nm in ("shl", "shr", "div", "mod") else (lambda: V("k", 64)), summ=nm in ("div", "mod"), w=0.1)
        # ---- one object as both operands
        Z = T.const(0, W)
        two_ = lambda m: (T.bvadd(m, m), None)
        selfs = [("add", "x += x", lambda m: T.bvadd(m, m), True), ("sub", "x -= x", lambda m: Z, None), ("mul", "x *= x", lambda m: T.bvmul(m, m), False),
                 ("div", "x /= x", lambda m: T.const(1, W), False), ("mod", "x %= x", lambda m: Z, None),
                 ("asg", "auto& y = x; x = y", lambda m: m, True), ("swap", "x.swap(x)", lambda m: m, True),
                 ("addb", "x = x + x", lambda m: T.bvadd(m, m), True), ("subb", "x = x - x", lambda m: Z, None), ("mulb", "x = x * x", lambda m: T.bvmul(m, m), False)]
        if cls == "u":
            selfs += [("xor", "x ^= x", lambda m: Z, None), ("and", "x &= x", lambda m: m, True), ("or", "x |= x", lambda m: m, True)]
        for nm, e, f, keep in selfs:
            def spec(i, o, f=f, keep=keep, ns=ns, n=n):
                m = i["a"].sl(ns, ns + n)
                r = o["o"].sl(ns, ns + n)
                g = [("value with one object on both sides", r, f(m))]
                if ns:
                    neg = T.mkbool(i["a"][0].op == "c" and i["a"][0].k not in (0, 1)) if keep else T.FALSE
                    g.append(("sign with one object on both sides", o["o"][0], flags(neg, r)))
                return g
            op = Op("%s_self_%s_%d" % (cls, nm, W), [("a", BB), ("o", OO)], "auto x = {l}<{W}>(a); {e}; {s}<{W}>(x, o);".format(l=ld, s=st, W=W, e=e), spec)
            ops.append(op)
            nz = [lambda i, ns=ns, n=n: [T.not_(T.eq(i["a"].sl(ns, ns + n), Z))]][0] if nm in ("div", "mod") else None
            for kk in (range(1, n + 1) if nm in ("mul", "mulb") else [None]):
                for s in (SIGNS if ns else (None,)):
                    if s == 0 and nm in ("div", "mod"):
                        continue
                    cases.append(Case(op, "%s sign %s%s" % (op.name, s, "" if kk is None else " %d blocks" % kk),
                                      lambda s=s, kk=kk, n=n, ns=ns: {"a": sblocks("a", n, s, kk) if ns else ublocks("a", n, kk)},
                                      assume=lambda i, nz=nz, ns=ns: (canonical("a")(i) if ns else []) + (nz(i) if nz else []),
                                      setup=setup if nm in ("div", "mod") else None, strategy=(("lin", 40), ("semi", 20), ("bv", 10)) if kk else STRAT, timeout=40,
                                      weight=0.3 + (kk or 0) * 0.3, vectors=8, skip_obl=True, bounds="W=%d, all values" % W))

    for cls in ("u", "s"):
        for W in ([96, 128] if Q else [96, 128, 160, 256]):
            group(cls, W)
    return ops, cases


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, bounds="widths, signs and filled blocks listed per case; all values",
                 assumptions=["divide's contract (P03) is used where its operands are distinct objects"])

"""P13: text parsing yields the positional value of the digits"""
import random
from .common import *
from engine import contracts as C, models

ID = "P13"
PRE = PRELUDE + r'''
#include <string>
#include <clocale>
'''
NPRE = PRE + 'static const char* set_c_locale = setlocale(LC_ALL, "C");\n'
BASES = {"b": 2, "B": 2, "o": 8, "O": 8, "x": 16, "X": 16}


# ---------------------------------------------------------------- what the text means
def digit(c):
    """-> value term (32 bits) of the character, 99 when it is no digit of any base"""
    c = wz(c, 32)
    r = T.const(99, 32)
    for lo, n, add in (("A", 6, 10), ("a", 6, 10), ("0", 10, 0)):
        off = T.bvsub(c, T.const(ord(lo), 32))
        inside = T.and_(T.not_(T.ult(c, T.const(ord(lo), 32))), T.ult(c, T.const(ord(lo) + n, 32)))
        r = T.ite(inside, T.bvadd(off, T.const(add, 32)), r)
    return r


def blockite(c, a, b):
    return T.cat(*reversed([T.ite(c, T.ext(a, 32 * j + 31, 32 * j), T.ext(b, 32 * j + 31, 32 * j)) for j in range(a.w // 32)]))


def value(chars, base, W):
    v = T.const(0, W)
    for c in chars:
        d = digit(c)
        x = T.bvadd(T.bvmul(v, T.const(base, W)), T.zext(d, W))
        v = blockite(T.ult(d, T.const(base, 32)), x, v)
    return v


def parse(codes):
    """the reference reading of a concrete text -> (value, dashes)"""
    an = [i for i, c in enumerate(codes) if c < 128 and chr(c).isalnum()]
    dash = codes.count(45)
    if not an:
        return 0, dash
    p = an[0]
    base = 10
    if codes[p] == 48 and p + 1 < len(codes) and codes[p + 1] < 128 and chr(codes[p + 1]) in BASES:
        base = BASES[chr(codes[p + 1])]
        p += 2
    v = 0
    for c in codes[p:]:
        d = int(chr(c), 16) if c < 128 and chr(c) in "0123456789abcdefABCDEF" else 99
        if d < base:
            v = v * base + d
    return v, dash


class Text:
    """shape of a text: number of skipped characters, prefix and how many characters follow"""

    def __init__(self, skip, kind, rest, only=None):
        self.skip, self.kind, self.rest = skip, kind, rest
        self.only = only                   # rest consists of digits of this base

    def name(self):
        return "%d skipped, %s, %d %s" % (self.skip, {"none": "no prefix", "zero": "leading 0", "empty": "no number"}.get(self.kind, "prefix 0" + self.kind),
                                          self.rest, "digits" if self.only else "characters")

    def chars(self, cw, nul):
        cs = [V("s%d" % i, cw) for i in range(self.skip)]
        if self.kind in BASES:
            cs += [T.const(48, cw), T.const(ord(self.kind), cw)]
        elif self.kind == "zero":
            cs += [T.const(48, cw)]
        elif self.kind == "none":
            cs += [V("f", cw, 49, 57) if self.only else V("f", cw)]
        if self.only:
            # a run of digits: each position has one class of digit, so that no character is skipped
            for i in range(self.rest):
                lo, hi = (48, 47 + self.only) if self.only <= 10 else ((48, 57), (97, 102), (65, 70), (48, 57), (97, 102))[(i * i + self.rest) % 5]
                cs.append(V("c%d" % i, cw, lo, hi))
        else:
            cs += [V("c%d" % i, cw) for i in range(self.rest)]
        if nul:
            cs.append(T.const(0, cw))
        return cs

    def assume(self, cs):
        an = lambda c: models.alnum(wz(c, 32))
        out = [T.not_(an(c)) for c in cs[:self.skip]]
        k = self.skip
        if self.kind == "none":
            out += [an(cs[k]), T.not_(T.eq(cs[k], T.const(48, cs[k].w)))]
        elif self.kind == "zero" and len(cs) > k + 1:
            out += [T.not_(T.eq(cs[k + 1], T.const(ord(x), cs[k].w))) for x in BASES]
        return out

    def body(self, cs):
        return cs[self.skip + (2 if self.kind in BASES else 0):]

    def base(self):
        return BASES.get(self.kind, 10)

    def gen(self, cw, nul):
        vs = self.chars(cw, False)

        def g(rng):
            env = {}
            for c in vs:
                if c.op == "c":
                    continue
                k = c.k.split("~")[0]
                if k[0] == "s":
                    ch = rng.choice([32, 45, 45, 43, 9, 0, 0x5f, 0x2f, 0x3a, 0x40, 0x5b, 0x60, 0x7b, 0x7f, 0xff, 0x80] + ([0xe9, 0x430, 0xffffffff, 0x130, 0x7fffffff] if cw > 8 else []))
                elif self.only:
                    ch = rng.choice([c.lo, c.hi, rng.randrange(c.lo, c.hi + 1)])
                elif k == "f":
                    ch = ord(rng.choice("123456789afzAFZgG"))
                else:
                    ch = rng.choice([48, 49, 55, 56, 57, 65, 70, 71, 97, 102, 103, 45, 32, 0, 120, 88, 98, 66, 111, 79, 58, 47, 64, 96, 0xff, 0xb1]
                                    + ([0x131, 0x30 + (1 << 16), 0x30 + (1 << 31), 0xff11] if cw > 8 else []))
                env[c.k] = ch
            return env
        return g


class Pattern(Text):
    """long text: a string over  D digit, Z the digit 0, _ separator (any of the characters 32..47), c any character"""

    def __init__(self, kind, pat, label):
        Text.__init__(self, 0, kind, len(pat))
        self.pat, self.label = pat, label

    def name(self):
        return "%s %s" % ("decimal" if self.kind == "none" else "prefix 0" + self.kind, self.label)

    def chars(self, cw, nul):
        cs = [T.const(48, cw), T.const(ord(self.kind), cw)] if self.kind in BASES else []
        top = 47 + min(10, self.base())
        for i, p in enumerate(self.pat):
            cs.append(T.const(48, cw) if p == "Z" else V("c%d" % i, cw, 49 if i == 0 and self.kind == "none" else 48, top) if p == "D" else V("c%d" % i, cw, 32, 47) if p == "_" else V("c%d" % i, cw))
        if nul:
            cs.append(T.const(0, cw))
        return cs

    def assume(self, cs):
        return []

    def gen(self, cw, nul):
        vs = self.chars(cw, False)

        def g(rng):
            return {c.k.split("~")[0]: rng.choice([c.lo, c.hi, rng.randrange(c.lo, c.hi + 1)]) for c in vs if c.op != "c"}
        return g


def patterns(W):
    out = []
    for kind, step in (("x", 4), ("b", 1), ("o", 3), ("none", 3.33)):
        n = int(W / step) + 1                # digits that fill the width
        out.append((kind, "D" + "Z" * 2 * n + "DD", "a digit, %d zeros, 2 digits" % (2 * n)))
        if kind != "none":
            out.append((kind, "Z" * (2 * n + 3) + "DDDD", "%d leading zeros, 4 digits" % (2 * n + 3)))
        out.append((kind, "D" + "_" * (2 * n + 4) + "DD", "a digit, %d separators, 2 digits" % (2 * n + 4)))
        out.append((kind, "D_" * 8 + "D" + "__D" * 3, "digits with separators between them"))
        out.append((kind, "DD" + "_" * 5 + "D" + "_" * n, "digits, then %d separators" % n))
        out.append((kind, "D" * 6 + "Z" * (n - 10) + "D" * 4, "6 digits, %d zeros, 4 digits" % (n - 10)))
    out.append(("x", "D" + "Z" * 300 + "D", "a digit, 300 zeros, a digit"))
    out.append(("none", "D" + "_" * 300 + "D", "a digit, 300 separators, a digit"))
    return [Pattern(*x) for x in out]


def spec(W, signed, cw):
    def f(i, o):
        d = i["d"]
        if all(c.op == "c" for c in d.items):
            v, dash = parse([c.k for c in d.items])
            v = T.const(v % (1 << W), W)
        elif "t" in i:
            t = i["t"]
            v = value(t.body(d.items), t.base(), W) if t.kind != "empty" else T.const(0, W)
            dash = None
        else:
            raise KeyError("text shape")
        if not signed:
            return [("value of the digits", o["o"].wide, v)]
        z = T.and_(*[T.eq(T.ext(v, 32 * j + 31, 32 * j), T.const(0, 32)) for j in range(W // 32)])
        if dash is None:
            odd = T.const(0, 1)
            for c in d.items:
                odd = T.bvxor(odd, T.b2v(T.eq(c, T.const(45, c.w))))
            odd = T.v2b(odd)
        else:
            odd = T.mkbool(dash % 2 == 1)
        return [("magnitude of the digits", o["o"].sl(1, 1 + W // 32), v),
                ("sign by the number of dashes", o["o"][0], T.ite(z, T.const(1, 32), T.ite(odd, T.const(4, 32), T.const(2, 32))))]
    return f


def contracts(W):
    """v *= small and v += small by their contracts (P01, P02)"""
    def f(ex):
        for op, pat in (("mul", r"_ZmLI[jm]Q.*R3AeuILm%dEE"), ("add", r"_ZpLI[jm]Q.*R3AeuILm%dEE")):
            for nm in C.find(ex.m, pat % W):
                def g(ex, st, a, op=op):
                    if len(a) != 2 or not isinstance(a[0], X.Ptr) or not isinstance(a[1], T.T):
                        return NotImplemented
                    x = C.ldw(ex, st, a[0], W)
                    y = wz(a[1], W)
                    ex.contract_uses = getattr(ex, "contract_uses", 0) + 1
                    C.stw(ex, st, a[0], T.bvmul(x, y) if op == "mul" else T.bvadd(x, y))
                    return a[0]
                ex.summaries[nm] = g
    return f


_wide = {}


def wide(c):
    r = _wide.get(c.id)
    if r is None:
        r = _wide[c.id] = any(t.w > 64 for t in T.postorder([c]))
    return r


def feasible(pc):
    """loop conditions over the characters are decided; over the number's blocks they are taken as possible"""
    if wide(pc[-1]):
        return True
    return smt.check([c for c in pc if not wide(c)], 5, want_model=False)[0] != "unsat"


def setup(W, feas=0):
    c = contracts(W)

    def f(ex):
        models.charprops(ex)
        ex.feas_after = feas
        ex.feasible = feasible
        ex.step_limit = 3_000_000
        c(ex)
    return f


def mkop(W, signed, cw, form, L):
    cls = "Aesi" if signed else "Aeu"
    ch = {8: "char", 32: "wchar_t"}[cw]
    nm = "parse_%s_%s_%s_%d%s" % (cls, ch, form, W, "_%d" % L if form in ("lit", "asg") else "")
    s = {"ptr": "{c}<{W}> r((const {ch}*)d, n);",
         "view": "std::basic_string_view<{ch}> s((const {ch}*)d, n); {c}<{W}> r(s);",
         "rview": "{c}<{W}> r(std::basic_string_view<{ch}>((const {ch}*)d, n));",
         "str": "const std::basic_string<{ch}> s((const {ch}*)d, n); {c}<{W}> r(s);",
         "rstr": "{c}<{W}> r(std::basic_string<{ch}>((const {ch}*)d, n));",
         "lit": "{c}<{W}> r(*(const {ch}(*)[{L}])d);",
         "asg": "{c}<{W}> r = 7{u}; r = *(const {ch}(*)[{L}])d;"}[form].format(c=cls, W=W, ch=ch, L=L, u="" if signed else "u")
    st = "sts<%d>(r, o);" % W if signed else "stu<%d>(r, o);" % W
    return Op(nm, [("d", ("inbytes", None) if cw == 8 else ("in", None)), ("n", ("u", 64)), ("o", O(W + 32 if signed else W))],
              s + " " + st, spec(W, signed, cw))


def texts(full):
    out = [Text(k, "empty", 0) for k in range(0, 5)]
    out += [Text(s, k, r) for k in list(BASES) for s in (0, 1) for r in (0, 1, full)]
    out += [Text(s, k, r) for k in ("none", "zero") for s in (0, 1, 3) for r in (0, 1, 2, full)]
    return out


def build():
    ops, cases = {}, []

    def add(W, signed, cw, form, t, weight=0.1):
        nul = form in ("lit", "asg")
        L = len(t.chars(cw, nul))
        if nul and L < 2:
            return
        op = mkop(W, signed, cw, form, L)
        op = ops.setdefault(op.name, op)

        def inp():
            return {"d": Blocks(t.chars(cw, nul), cw), "n": T.const(L, 64), "t": t}
        c = Case(op, "%s: %s" % (op.name, t.name()), inp, assume=lambda i: t.assume(i["d"].items), setup=setup(W), weight=weight,
                 vectors=24, timeout=60, strategy=("bv", ("cvc5", 30)),
                 bounds="W=%d, every %s text with %s" % (W, {8: "char", 32: "wchar_t"}[cw], t.name()))
        c.gen = t.gen(cw, nul)
        cases.append(c)

    full = 5 if Q else 8
    for signed in (False, True):
        for cw in (8, 32):
            for t in texts(full):
                add(128, signed, cw, "ptr", t, 0.1 + 0.02 * t.rest)
            for form in ("view", "rview", "str", "rstr", "lit", "asg"):
                for t in (Text(0, "none", 2), Text(1, "x", 2), Text(1, "zero", 1), Text(0, "o", 1), Text(0, "B", 2), Text(2, "empty", 0)):
                    add(96, signed, cw, form, t)
                if form in ("view", "str"):
                    add(96, signed, cw, form, Text(0, "empty", 0))
            # numerals longer than the width: the value is taken modulo 2^W
            for W in ([96, 128, 256] if Q else [96, 128, 160, 256, 512]):
                for kind, base, step in (("x", 16, 4), ("X", 16, 4), ("o", 8, 3), ("b", 2, 1), ("none", 10, 3.33)):
                    if signed and W != 128:
                        continue
                    if cw == 32 and W != 96:
                        continue
                    n = int(W / step) + 2
                    for m in (n, n // 2):
                        add(W, signed, cw, "ptr", Text(0, kind, m, base), 0.3 + m / 100)
            if cw == 8 or not signed:
                for t in patterns(96):
                    add(96, signed, cw, "ptr", t, 0.5 + t.rest / 100)
    return list(ops.values()), cases


HKW = dict(prelude=PRE, native_prelude=NPRE, flags=["-D_GLIBCXX_EXTERN_TEMPLATE=0"])


def main(only=None):
    ops, cases = build()
    return drive(ID, ops, cases, only, **HKW,
                 bounds="texts of every content up to 0-3 skipped characters, a prefix and %d further characters; all-digit texts beyond the width; long texts with runs of zeros and separators (characters 32..47) up to 300" % (5 if Q else 8),
                 assumptions=["isalnum and iswalnum as in the classic C locale", "*= and += with a built-in operand by the contracts that P01 and P02 prove",
                              "operator new returns fresh memory; no allocation failure"])

"""Models of the C and C++ library functions the headers call (classic "C" locale)."""
from . import terms as T, symex as X


def alnum(c):
    """c: 32-bit character code -> bool term"""
    w = c.w

    def rng(lo, hi):
        return T.ult(T.bvsub(c, T.const(ord(lo), w)), T.const(ord(hi) - ord(lo) + 1, w))
    return T.or_(rng("0", "9"), rng("A", "Z"), rng("a", "z"))


def digit(c):
    return T.ult(T.bvsub(c, T.const(48, c.w)), T.const(10, c.w))


def _class(pred, wide):
    def h(ex, st, a):
        c = a[0]
        if not wide:
            # the argument must be an unsigned char value or EOF
            ex.oblige(st, T.and_(T.not_(T.ult(c, T.const(256, c.w))), T.not_(T.eq(c, T.const(-1 & 0xffffffff, c.w)))),
                      "character classification of a value that is no unsigned char")
        return T.ite(pred(c), T.const(1, 32), T.const(0, 32))
    return h


def _new(ex, st, a):
    o = ex.new_obj(st, X._conc(a[0], "allocation size"), "heap")
    st.mem[o].heap = True
    return X.mkptr(o)


def _delete(ex, st, a):
    return None


def _strlen(w):
    def h(ex, st, a):
        r = None
        n = 0
        outs = []
        while True:
            c = ex.load(st, ex.padd(a[0], T.const(n * w, 64)), w)
            z = T.eq(c, T.const(0, 8 * w))
            outs.append(z)
            if z is T.TRUE:
                break
            n += 1
            if n > 512:
                raise X.Unwound("strlen")
        r = T.const(n, 64)
        for k in reversed(range(n)):
            r = T.ite(outs[k], T.const(k, 64), r)
        return r
    return h


def charprops(ex):
    ex.externs["isalnum"] = _class(alnum, False)
    ex.externs["iswalnum"] = _class(alnum, True)
    ex.externs["isdigit"] = _class(digit, False)
    ex.externs["iswdigit"] = _class(digit, True)
    ex.externs["_Znwm"] = _new
    ex.externs["_ZdlPv"] = _delete
    ex.externs["_ZdlPvm"] = _delete
    ex.externs["strlen"] = _strlen(1)
    ex.externs["wcslen"] = _strlen(4)
    ex.externs["_ZSt*"] = X._dead("exception thrown")


def _case(lo, hi, delta):
    def h(ex, st, a):
        c = a[0]
        w = c.w
        r = T.ult(T.bvsub(c, T.const(ord(lo), w)), T.const(ord(hi) - ord(lo) + 1, w))
        return T.ite(r, T.bvadd(c, T.const(delta % (1 << w), w)), c)
    return h


def _xdigit(c):
    return T.or_(digit(c), T.ult(T.bvsub(c, T.const(65, c.w)), T.const(6, c.w)), T.ult(T.bvsub(c, T.const(97, c.w)), T.const(6, c.w)))


def _alpha(c):
    return T.or_(T.ult(T.bvsub(c, T.const(65, c.w)), T.const(26, c.w)), T.ult(T.bvsub(c, T.const(97, c.w)), T.const(26, c.w)))


_cp = charprops


def charprops(ex):
    _cp(ex)
    for w, p in (("", False), ("w", True)):
        ex.externs["is%sxdigit" % w] = _class(_xdigit, p)
        ex.externs["is%salpha" % w] = _class(_alpha, p)
        ex.externs["to%slower" % w] = _case("A", "Z", 32)
        ex.externs["to%supper" % w] = _case("a", "z", -32)


def _wmemcpy(ex, st, a):
    ex.memcpy(st, a[0], a[1], 4 * X._conc(a[2], "wmemcpy size"))
    return a[0]


_cp2 = charprops


def charprops(ex):
    _cp2(ex)
    ex.externs["wmemcpy"] = ex.externs["wmemmove"] = _wmemcpy


# ---------------------------------------------------------------- formatted output
def _cstr(ex, st, p, w):
    """constant text at p -> list of characters"""
    out = []
    while True:
        c = ex.load(st, ex.padd(p, T.const(len(out) * w, 64)), w)
        if c.op != "c":
            raise X.Unsupported("symbolic format string")
        if c.k == 0:
            return "".join(map(chr, out))
        out.append(c.k)


def numeral(v, base, upper, cw):
    """digits of v, most significant first; the number of digits must follow from the range of v"""
    n = 1
    while base ** n <= v.hi:
        n += 1
    if v.lo < base ** (n - 1) and n > 1:
        raise X.Unsupported("numeral of variable length")
    out = []
    for j in reversed(range(n)):
        if base in (2, 8, 16):
            b = base.bit_length() - 1
            d = T.ext(v, min(v.w - 1, b * j + b - 1), b * j)
        else:
            d = T.ext(T.bvurem(T.bvudiv(v, T.const(base ** j, v.w)), T.const(base, v.w)), 7, 0) if v.w >= 8 else None
        d = T.zext(d, cw) if d.w < cw else d
        a = T.bvadd(d, T.const(48, cw))
        out.append(a if base <= 10 else T.ite(T.ult(d, T.const(10, cw)), a, T.bvadd(d, T.const((65 if upper else 97) - 10, cw))))
    return out


def formatted(ex, st, fmt, args, cw):
    args = list(args)
    out = []
    i = 0
    while i < len(fmt):
        ch = fmt[i]
        i += 1
        if ch != "%":
            out.append(T.const(ord(ch), cw))
            continue
        flags = ""
        while fmt[i] in "0-+ #":
            flags += fmt[i]
            i += 1
        width = ""
        while fmt[i].isdigit():
            width += fmt[i]
            i += 1
        bits = 32
        while fmt[i] in "lhjz":
            bits = 64 if fmt[i] in "ljz" else bits
            i += 1
        conv = fmt[i]
        i += 1
        if conv == "%":
            out.append(T.const(37, cw))
            continue
        a = args.pop(0)
        if conv == "c":
            out.append(T.ext(a, cw - 1, 0) if a.w > cw else a)
            continue
        if conv not in "xXou" or set(flags) - {"0"}:
            raise X.Unsupported("conversion %" + flags + conv)
        v = T.ext(a, bits - 1, 0) if a.w > bits else a
        if int(width or 0) and "0" in flags and conv in "xXo":
            b = {"x": 4, "X": 4, "o": 3}[conv]
            w = int(width)
            if v.hi >> (b * w):
                raise X.Unsupported("field wider than its width")
            v = T.ext(v, b * w - 1, 0) if v.w > b * w else T.zext(v, b * w)
            one = T.const(1, 1)
            ds = numeral(T.cat(one, v), 1 << b, conv == "X", cw)[1:] if v.w % b == 0 else None
            out += ds
        else:
            ds = numeral(v, {"x": 16, "X": 16, "o": 8, "u": 10}[conv], conv == "X", cw)
            out += [T.const(48 if "0" in flags else 32, cw)] * (int(width or 0) - len(ds)) + ds
    return out


def _printf(wide):
    cw = 32 if wide else 8

    def h(ex, st, a):
        n = X._conc(a[1], "buffer size")
        txt = formatted(ex, st, _cstr(ex, st, a[2], cw // 8), a[3:], cw)
        if n:
            for j, c in enumerate(txt[:n - 1] + [T.const(0, cw)]):
                ex.store(st, ex.padd(a[0], T.const(j * cw // 8, 64)), cw // 8, c)
        if wide and len(txt) >= n:
            return T.const(0xffffffff, 32)
        return T.const(len(txt), 32)
    return h


def printf(ex):
    ex.externs["snprintf"] = _printf(False)
    ex.externs["swprintf"] = _printf(True)

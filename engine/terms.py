"""Hash-consed bit-vector / boolean term DAG with a normalising constructor layer.

Bit-vector terms carry their width (w >= 1); booleans have w == 0.  Constructors
rewrite constant masks, constant shifts and disjoint or/add into concatenations of
extracts ("pieces"), so bit manipulation by constants becomes canonical.
Every bit-vector term also carries a sound unsigned interval [lo, hi].
"""
import sys
if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)


sys.setrecursionlimit(1000000)


class T:
    __slots__ = ("op", "w", "a", "k", "lo", "hi", "id", "tz")

    def __repr__(self):
        return show(self, 4)


_table = {}
_nid = [0]


def _mk(op, w, a, k, lo, hi):
    key = (op, w, k, tuple(x.id for x in a))
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.a = a
        t.k = k
        t.lo = lo
        t.hi = hi
        _nid[0] += 1
        t.id = _nid[0]
        _table[key] = t
    return t


def show(t, d=3):
    if t.op == "c":
        return "%d'%x" % (t.w, t.k)
    if t.op in ("v", "bv"):
        return str(t.k)
    if t.op == "true" or t.op == "false":
        return t.op
    if d == 0:
        return "#%d" % t.id
    ex = ""
    if t.op == "ext":
        ex = "[%d:%d]" % (t.k[0], t.k[1])
    elif t.op == "uf":
        ex = "<%s>" % (t.k,)
    return "(%s%s %s)" % (t.op, ex, " ".join(show(x, d - 1) for x in t.a))


# ---------------------------------------------------------------- booleans
TRUE = _mk("true", 0, (), None, 0, 0)
FALSE = _mk("false", 0, (), None, 0, 0)


def mkbool(b):
    return TRUE if b else FALSE


def boolvar(name):
    return _mk("bv", 0, (), name, 0, 0)


def not_(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.a[0]
    return _mk("not", 0, (x,), None, 0, 0)


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.a if x.op == "and" else (x,)):
            if y is FALSE:
                return FALSE
            if y is TRUE or y.id in seen:
                continue
            seen.add(y.id)
            out.append(y)
    for y in out:
        if y.op == "not" and y.a[0].id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _mk("and", 0, tuple(out), None, 0, 0)


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def bite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is TRUE:
        return or_(c, b)
    if a is FALSE:
        return and_(not_(c), b)
    if b is TRUE:
        return or_(not_(c), a)
    if b is FALSE:
        return and_(c, a)
    if c.op == "not":
        c, a, b = c.a[0], b, a
    if a is not_(b):
        return beq(c, a)
    return _mk("bite", 0, (c, a, b), None, 0, 0)


def beq(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    neg = False
    if a.op == "not":
        a = a.a[0]
        neg = not neg
    if b.op == "not":
        b = b.a[0]
        neg = not neg
    if a is b:
        return FALSE if neg else TRUE
    if a.id > b.id:
        a, b = b, a
    r = _mk("beq", 0, (a, b), None, 0, 0)
    return not_(r) if neg else r


# ---------------------------------------------------------------- bit-vectors
def const(v, w):
    v &= (1 << w) - 1
    return _mk("c", w, (), v, v, v)


def var(name, w, lo=0, hi=None):
    if hi is None:
        hi = (1 << w) - 1
    return _mk("v", w, (), name, lo, hi)


_fresh = [0]


def fresh(prefix, w, lo=0, hi=None):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), w, lo, hi)


def is_c(t):
    return t.op == "c"


def pieces(t):
    """list of (term, width), high to low"""
    return t.a if t.op == "cat" else (t,)


def _merge2(h, l):
    """try merging adjacent pieces h (high), l (low)"""
    if h.op == "c" and l.op == "c":
        return const((h.k << l.w) | l.k, h.w + l.w)
    if h.op == "ext":
        hb, (hh, hl) = h.a[0], h.k
        if l.op == "ext" and l.a[0] is hb and l.k[0] == hl - 1:
            return ext(hb, hh, l.k[1])
    if h.op == "c" and l.op == "ext" and l.k[1] == 0:
        b = l.a[0]
        r = b.w - l.w
        if b.hi < (1 << l.w) and h.w >= r and b.op != "cat" and not h.k & _ones(r):
            # the bits above are known to be zero: take the whole value
            return b if h.w == r else _mk("cat", h.w + l.w, (const(h.k >> r, h.w - r), b), None, ((h.k >> r) << b.w) | b.lo, ((h.k >> r) << b.w) | b.hi)
    return None


def cat(*parts):
    flat = []
    for p in parts:
        if p is None:
            continue
        flat.extend(pieces(p))
    # merge adjacent
    changed = True
    out = []
    for p in flat:
        while out:
            m = _merge2(out[-1], p)
            if m is None:
                break
            out.pop()
            if m.op == "cat":
                out.extend(m.a[:-1])
                p = m.a[-1]
            else:
                p = m
        out.append(p)
    if len(out) == 1:
        return out[0]
    lo = hi = 0
    w = 0
    for p in out:
        lo = (lo << p.w) | p.lo
        hi = (hi << p.w) | p.hi
        w += p.w
    # whole ite with common condition: keep as pieces
    return _mk("cat", w, tuple(out), None, lo, hi)


def zext(t, w):
    if t.w == w:
        return t
    return cat(const(0, w - t.w), t)


def sext(t, w):
    if t.w == w:
        return t
    n = w - t.w
    top = ext(t, t.w - 1, t.w - 1)
    if is_c(t):
        v = t.k
        if v >> (t.w - 1):
            v -= 1 << t.w
        return const(v, w)
    if top.op == "c":
        return cat(const(-1 if top.k else 0, n), t)
    return cat(ite(v2b(top), const(-1, n), const(0, n)), t)


def ext(t, hi, lo):
    w = hi - lo + 1
    assert 0 <= lo <= hi < t.w, (hi, lo, t.w)
    if w == t.w:
        return t
    op = t.op
    if op == "c":
        return const(t.k >> lo, w)
    if op == "ext":
        return ext(t.a[0], hi + t.k[1], lo + t.k[1])
    if op == "cat":
        out = []
        pos = t.w
        for p in t.a:
            pl = pos - p.w
            # piece covers [pl, pos-1]
            if pl <= hi and pos - 1 >= lo:
                h2 = min(hi, pos - 1) - pl
                l2 = max(lo, pl) - pl
                out.append(ext(p, h2, l2))
            pos = pl
        return cat(*out)
    if t.hi < (1 << lo):
        return const(0, w)
    if op == "ite":
        a, b = t.a[1], t.a[2]
        # push when it simplifies cheaply (constants or cats)
        if a.op in ("c", "cat", "ext") and b.op in ("c", "cat", "ext"):
            return ite(t.a[0], ext(a, hi, lo), ext(b, hi, lo))
    elif op in ("bvand", "bvor", "bvxor"):
        f = {"bvand": bvand, "bvor": bvor, "bvxor": bvxor}[op]
        if any(x.op in ("c", "cat") for x in t.a):
            return f(ext(t.a[0], hi, lo), ext(t.a[1], hi, lo))
    elif op == "bvnot":
        return bvnot(ext(t.a[0], hi, lo))
    # range: drop known-zero high bits
    if hi == t.w - 1 and (t.lo >> lo) == (t.hi >> lo):
        return const(t.lo >> lo, w)
    if lo == 0 and t.hi < (1 << w):
        nl, nh = t.lo, t.hi
    else:
        nh = (t.hi >> lo) if hi == t.w - 1 or (t.hi >> lo) < (1 << w) else (1 << w) - 1
        nl = (t.lo >> lo) if (t.hi >> lo) < (1 << w) else 0
    nb = t.hi.bit_length()
    if hi >= nb and nb > lo:
        # top bits are known zero
        inner = ext(t, nb - 1, lo)
        return cat(const(0, hi - nb + 1), inner)
    return _mk("ext", w, (t,), (hi, lo), nl, nh)


def v2b(t):
    """1-bit vector -> bool"""
    assert t.w == 1
    if t.op == "c":
        return mkbool(t.k)
    if t.op == "b2v":
        return t.a[0]
    if t.op == "ite":
        return bite(t.a[0], v2b(t.a[1]), v2b(t.a[2]))
    if t.op == "bvand":
        return and_(v2b(t.a[0]), v2b(t.a[1]))
    if t.op == "bvor":
        return or_(v2b(t.a[0]), v2b(t.a[1]))
    if t.op == "bvxor":
        return not_(beq(v2b(t.a[0]), v2b(t.a[1])))
    if t.op == "bvnot":
        return not_(v2b(t.a[0]))
    return _mk("v2b", 0, (t,), None, 0, 0)


def b2v(b):
    if b is TRUE:
        return const(1, 1)
    if b is FALSE:
        return const(0, 1)
    if b.op == "v2b":
        return b.a[0]
    return _mk("b2v", 1, (b,), None, 0, 1)


def _cuts(t):
    s = []
    pos = t.w
    for p in pieces(t):
        pos -= p.w
        s.append(pos)
    return s


def _align(x, y):
    """split x and y (same width) at common boundaries -> list of (px, py) high to low"""
    cs = sorted(set(_cuts(x)) | set(_cuts(y)), reverse=True)
    out = []
    top = x.w
    for c in cs:
        out.append((ext(x, top - 1, c), ext(y, top - 1, c)))
        top = c
    return out


def _ones(w):
    return (1 << w) - 1


def bvnot(x):
    if x.op == "c":
        return const(~x.k, x.w)
    if x.op == "bvnot":
        return x.a[0]
    if x.op == "cat":
        return cat(*[bvnot(p) for p in x.a])
    if x.op == "b2v":
        return b2v(not_(x.a[0]))
    return _mk("bvnot", x.w, (x,), None, _ones(x.w) - x.hi, _ones(x.w) - x.lo)


def _mask_runs(m, w):
    """runs of constant mask: list of (bit, hi, lo) high to low"""
    out = []
    hi = w - 1
    while hi >= 0:
        b = (m >> hi) & 1
        lo = hi
        while lo > 0 and ((m >> (lo - 1)) & 1) == b:
            lo -= 1
        out.append((b, hi, lo))
        hi = lo - 1
    return out


def bvand(x, y):
    w = x.w
    if x is y:
        return x
    if x.op == "c":
        x, y = y, x
    if y.op == "c":
        if x.op == "c":
            return const(x.k & y.k, w)
        if y.k == 0:
            return y
        if y.k == _ones(w):
            return x
        runs = _mask_runs(y.k, w)
        if len(runs) <= 9:
            return cat(*[ext(x, h, l) if b else const(0, h - l + 1) for b, h, l in runs])
    elif x.op == "bvnot" and x.a[0] is y or y.op == "bvnot" and y.a[0] is x:
        return const(0, w)
    if (x.op == "cat" and any(p.op == "c" for p in x.a)) or (y.op == "cat" and any(p.op == "c" for p in y.a)):
        al = _align(x, y)
        if len(al) > 1:
            return cat(*[bvand(p, q) for p, q in al])
    if w == 1 and (x.op == "b2v" and y.op == "b2v"):
        return b2v(and_(x.a[0], y.a[0]))
    if x.id > y.id:
        x, y = y, x
    return _mk("bvand", w, (x, y), None, 0, min(x.hi, y.hi))


def bvor(x, y):
    w = x.w
    if x is y:
        return x
    if x.op == "c":
        x, y = y, x
    if y.op == "c":
        if x.op == "c":
            return const(x.k | y.k, w)
        if y.k == 0:
            return x
        if y.k == _ones(w):
            return y
        runs = _mask_runs(y.k, w)
        if len(runs) <= 9:
            return cat(*[const(-1, h - l + 1) if b else ext(x, h, l) for b, h, l in runs])
    if (x.op == "cat" and any(p.op == "c" for p in x.a)) or (y.op == "cat" and any(p.op == "c" for p in y.a)):
        al = _align(x, y)
        if len(al) > 1:
            return cat(*[bvor(p, q) for p, q in al])
    if w == 1 and (x.op == "b2v" and y.op == "b2v"):
        return b2v(or_(x.a[0], y.a[0]))
    if x.id > y.id:
        x, y = y, x
    hb = max(x.hi.bit_length(), y.hi.bit_length())
    return _mk("bvor", w, (x, y), None, max(x.lo, y.lo), _ones(hb) if hb else 0)


def bvxor(x, y):
    w = x.w
    if x is y:
        return const(0, w)
    if x.op == "c":
        x, y = y, x
    if y.op == "c":
        if x.op == "c":
            return const(x.k ^ y.k, w)
        if y.k == 0:
            return x
        if y.k == _ones(w):
            return bvnot(x)
        runs = _mask_runs(y.k, w)
        if len(runs) <= 9:
            return cat(*[bvnot(ext(x, h, l)) if b else ext(x, h, l) for b, h, l in runs])
    if (x.op == "cat" and any(p.op == "c" for p in x.a)) or (y.op == "cat" and any(p.op == "c" for p in y.a)):
        al = _align(x, y)
        if len(al) > 1:
            return cat(*[bvxor(p, q) for p, q in al])
    if x.id > y.id:
        x, y = y, x
    hb = max(x.hi.bit_length(), y.hi.bit_length())
    return _mk("bvxor", w, (x, y), None, 0, _ones(hb) if hb else 0)


def shl_c(x, n):
    if n == 0:
        return x
    if n >= x.w:
        return const(0, x.w)
    return cat(ext(x, x.w - 1 - n, 0), const(0, n))


def lshr_c(x, n):
    if n == 0:
        return x
    if n >= x.w:
        return const(0, x.w)
    return cat(const(0, n), ext(x, x.w - 1, n))


def bvshl(x, n):
    if n.op == "c":
        return shl_c(x, n.k)
    if x.op == "c" and x.k == 0:
        return x
    if n.op == "ite" and n.a[1].op == "c" and n.a[2].op == "c":
        return ite(n.a[0], shl_c(x, n.a[1].k), shl_c(x, n.a[2].k))
    hi = _ones(x.w)
    if n.hi < x.w and (x.hi << n.hi) <= hi:
        return _mk("shl", x.w, (x, n), None, x.lo << n.lo, x.hi << n.hi)
    return _mk("shl", x.w, (x, n), None, 0, hi)


def bvlshr(x, n):
    if n.op == "c":
        return lshr_c(x, n.k)
    if x.op == "c" and x.k == 0:
        return x
    if n.op == "ite" and n.a[1].op == "c" and n.a[2].op == "c":
        return ite(n.a[0], lshr_c(x, n.a[1].k), lshr_c(x, n.a[2].k))
    lo = (x.lo >> n.hi) if n.hi < x.w else 0
    hi = (x.hi >> n.lo) if n.lo < x.w else 0
    return _mk("lshr", x.w, (x, n), None, lo, hi)


def bvashr(x, n):
    if x.hi < (1 << (x.w - 1)):
        return bvlshr(x, n)
    if n.op == "c":
        k = min(n.k, x.w - 1)
        if k == 0:
            return x
        return sext(ext(x, x.w - 1, k), x.w)
    return _mk("ashr", x.w, (x, n), None, 0, _ones(x.w))


def _disjoint(x, y):
    """True when no bit position can be set in both (by piece structure)"""
    if x.op == "cat" or y.op == "cat" or True:
        if x.op != "cat" and y.op != "cat":
            return x.hi == 0 or y.hi == 0
        for p, q in _align(x, y):
            if not ((p.op == "c" and p.k == 0) or (q.op == "c" and q.k == 0)):
                if p.op == "c" and q.op == "c" and (p.k & q.k) == 0:
                    continue
                return False
        return True


def bvadd(x, y):
    w = x.w
    if x.op == "c":
        x, y = y, x
    if y.op == "c":
        if x.op == "c":
            return const(x.k + y.k, w)
        if y.k == 0:
            return x
        if x.op == "add" and x.a[1].op == "c":
            return bvadd(x.a[0], const(x.a[1].k + y.k, w))
        if x.op == "ite" and x.a[1].op == "c" and x.a[2].op == "c":
            return ite(x.a[0], const(x.a[1].k + y.k, w), const(x.a[2].k + y.k, w))
    if x.op == "sub" and x.a[1] is y:
        return x.a[0]
    if y.op == "sub" and y.a[1] is x:
        return y.a[0]
    if (x.op == "cat" or y.op == "cat") and _disjoint(x, y):
        return bvor(x, y)
    if y.op != "c" and x.id > y.id:
        x, y = y, x
    lo = x.lo + y.lo
    hi = x.hi + y.hi
    m = 1 << w
    if hi >= m:
        if lo >= m:
            lo -= m
            hi -= m
            if hi >= m:
                lo, hi = 0, m - 1
        else:
            lo, hi = 0, m - 1
    return _mk("add", w, (x, y), None, lo, hi)


def bvsub(x, y):
    w = x.w
    if x is y:
        return const(0, w)
    if y.op == "c":
        if x.op == "c":
            return const(x.k - y.k, w)
        if y.k == 0:
            return x
        return bvadd(x, const(-y.k, w)) if not (x.lo >= y.k) else _subk(x, y)
    if x.op == "c" and x.k == 0:
        if y.op == "sub" and y.a[0].op == "c" and y.a[0].k == 0:
            return y.a[1]
        if y.op == "cat" and y.a[0].op == "c" and y.a[0].k == _ones(y.a[0].w):
            v = cat(*y.a[1:])
            if v.lo > 0:
                return zext(bvsub(const(0, v.w), v), w)
    if x.op == "add":
        if x.a[0] is y:
            return x.a[1]
        if x.a[1] is y:
            return x.a[0]
    if x.op == "cat" and y.op == "cat" and x.a[0] is y.a[0]:
        n = 1                      # equal high parts cancel (pointer difference)
        while n < min(len(x.a), len(y.a)) and x.a[n] is y.a[n]:
            n += 1
        if n < min(len(x.a), len(y.a)) and any(p.op != "c" for p in x.a[:n]):
            return bvsub(zext(cat(*x.a[n:]), w), zext(cat(*y.a[n:]), w))
    lo = x.lo - y.hi
    hi = x.hi - y.lo
    m = 1 << w
    if lo < 0:
        if hi < 0:
            lo += m
            hi += m
            if lo < 0:
                lo, hi = 0, m - 1
        else:
            lo, hi = 0, m - 1
    return _mk("sub", w, (x, y), None, lo, hi)


def _subk(x, y):
    # x - const, no wrap
    w = x.w
    if x.op == "ite" and x.a[1].op == "c" and x.a[2].op == "c":
        return ite(x.a[0], const(x.a[1].k - y.k, w), const(x.a[2].k - y.k, w))
    if x.op == "add" and x.a[1].op == "c":
        return bvadd(x.a[0], const(x.a[1].k - y.k, w))
    return _mk("sub", w, (x, y), None, x.lo - y.k, x.hi - y.k)


def bvneg(x):
    return bvsub(const(0, x.w), x)


def bvmul(x, y):
    w = x.w
    if x.op == "c":
        x, y = y, x
    if y.op == "c":
        if x.op == "c":
            return const(x.k * y.k, w)
        if y.k == 0:
            return y
        if y.k == 1:
            return x
        if y.k & (y.k - 1) == 0:
            return shl_c(x, y.k.bit_length() - 1)
        if x.op == "ite" and x.a[1].op == "c" and x.a[2].op == "c":
            return ite(x.a[0], const(x.a[1].k * y.k, w), const(x.a[2].k * y.k, w))
    if y.op != "c" and x.id > y.id:
        x, y = y, x
    hi = x.hi * y.hi
    lo = x.lo * y.lo
    if hi >= (1 << w):
        lo, hi = 0, _ones(w)
    return _mk("mul", w, (x, y), None, lo, hi)


def bvudiv(x, y):
    w = x.w
    if y.op == "c" and y.k:
        if x.op == "c":
            return const(x.k // y.k, w)
        if y.k & (y.k - 1) == 0:
            return lshr_c(x, y.k.bit_length() - 1)
        return _mk("udiv", w, (x, y), None, x.lo // y.k, x.hi // y.k)
    if x.hi < y.lo:
        return const(0, w)
    if y.lo > 0:
        return _mk("udiv", w, (x, y), None, x.lo // y.hi, x.hi // y.lo)
    return _mk("udiv", w, (x, y), None, 0, _ones(w))


def bvurem(x, y):
    w = x.w
    if y.op == "c" and y.k:
        if x.op == "c":
            return const(x.k % y.k, w)
        if x.hi < y.k:
            return x
        if y.k & (y.k - 1) == 0:
            n = y.k.bit_length() - 1
            if n == 0:
                return const(0, w)
            return zext(ext(x, n - 1, 0), w)
        return _mk("urem", w, (x, y), None, 0, y.k - 1)
    if x.hi < y.lo:
        return x
    if y.lo > 0:
        return _mk("urem", w, (x, y), None, 0, min(x.hi, y.hi - 1))
    return _mk("urem", w, (x, y), None, 0, x.hi)


def _sg(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def bvsdiv(x, y):
    w = x.w
    if x.op == "c" and y.op == "c" and y.k:
        a, b = _sg(x.k, w), _sg(y.k, w)
        q = abs(a) // abs(b)
        return const(-q if (a < 0) != (b < 0) else q, w)
    h = 1 << (w - 1)
    if x.hi < h and y.hi < h:
        return bvudiv(x, y)
    return _mk("sdiv", w, (x, y), None, 0, _ones(w))


def bvsrem(x, y):
    w = x.w
    if x.op == "c" and y.op == "c" and y.k:
        a, b = _sg(x.k, w), _sg(y.k, w)
        r = abs(a) % abs(b)
        return const(-r if a < 0 else r, w)
    h = 1 << (w - 1)
    if x.hi < h and y.hi < h:
        return bvurem(x, y)
    return _mk("srem", w, (x, y), None, 0, _ones(w))


def ite(c, a, b):
    assert a.w == b.w
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        c, a, b = c.a[0], b, a
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    w = a.w
    if w == 1:
        if a.op == "c" and b.op == "c":
            return b2v(c) if a.k else b2v(not_(c))
        return b2v(bite(c, v2b(a), v2b(b)))
    if a.op == "c" and b.op == "c":
        # split into equal and differing runs
        d = a.k ^ b.k
        if d & (d - 1) == 0 or _fullrun(d):
            runs = _mask_runs(d, w)
            if len(runs) > 1:
                return cat(*[ite(c, ext(a, h, l), ext(b, h, l)) if bit else ext(a, h, l) for bit, h, l in runs])
    if a.op == "cat" or b.op == "cat":
        al = _align(a, b)
        if len(al) > 1 and any(p is q for p, q in al):
            # group consecutive differing pieces
            out = []
            curp = []
            for p, q in al:
                if p is q:
                    if curp:
                        out.append(_ite_raw(c, cat(*[u for u, _ in curp]), cat(*[v for _, v in curp])))
                        curp = []
                    out.append(p)
                else:
                    curp.append((p, q))
            if curp:
                out.append(_ite_raw(c, cat(*[u for u, _ in curp]), cat(*[v for _, v in curp])))
            return cat(*out)
    return _ite_raw(c, a, b)


def _fullrun(d):
    d >>= (d & -d).bit_length() - 1
    return d & (d + 1) == 0


def _under(x, k, t):
    """value of t (built from slices of x and constants) when x = k, or None"""
    v = 0
    for p in pieces(t):
        if p is x:
            y = k
        elif p.op == "c":
            y = p.k
        elif p.op == "ext" and p.a[0] is x:
            y = (k >> p.k[1]) & _ones(p.w)
        elif x.op == "cat" and p in x.a:
            lo = x.w
            for q in x.a:
                lo -= q.w
                if q is p:
                    break
            y = (k >> lo) & _ones(p.w)
        else:
            return None
        v = (v << p.w) | y
    return v


def _ite_raw(c, a, b):
    if a is b:
        return a
    w = a.w
    if c.op == "eq" and a.op == "c" and c.a[1].op == "c" and _under(c.a[0], c.a[1].k, b) == a.k:
        return b
    if c.op == "eq" and a.op == "c" and c.a[0].op == "c" and _under(c.a[1], c.a[0].k, b) == a.k:
        return b
    if w == 1:
        return b2v(bite(c, v2b(a), v2b(b)))
    lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
    # t - d under guard t >= d : upper bound
    if a.op == "sub" and c.op == "not" and c.a[0].op == "ult" and c.a[0].a[0] is a.a[0] and c.a[0].a[1] is a.a[1]:
        hi = max(min(a.hi, a.a[0].hi), b.hi)
    if b.op == "sub" and c.op == "ult" and c.a[0] is b.a[0] and c.a[1] is b.a[1]:
        hi = max(min(b.hi, b.a[0].hi), a.hi)
    nb = hi.bit_length()
    if nb < w and nb > 0 and (a.op in ("c", "cat") and b.op in ("c", "cat")):
        t = _ite_raw(c, ext(a, nb - 1, 0), ext(b, nb - 1, 0))
        return cat(const(0, w - nb), t)
    return _mk("ite", w, (c, a, b), None, lo, hi)


def eq(x, y):
    if x is y:
        return TRUE
    if x.w == 0:
        return beq(x, y)
    assert x.w == y.w, (x.w, y.w)
    if x.hi < y.lo or y.hi < x.lo:
        return FALSE
    if x.op == "c":
        x, y = y, x
    if x.op == "c" and y.op == "c":
        return mkbool(x.k == y.k)
    if x.w == 1:
        return beq(v2b(x), v2b(y))
    if x.op == "cat" or y.op == "cat":
        al = _align(x, y)
        if len(al) > 1:
            if y.op == "c" or any(p is q or (p.op == "c" and q.op == "c") or
                                  (p.op == "c" or q.op == "c") for p, q in al) or x.op == y.op == "cat" and _cuts(x) == _cuts(y):
                return and_(*[eq(p, q) for p, q in al])
    if y.op == "c":
        if x.op == "ite":
            c, a, b = x.a
            if a.op == "c" or b.op == "c":
                ea, eb = eq(a, y), eq(b, y)
                return bite(c, ea, eb)
        elif x.op == "add" and x.a[1].op == "c":
            return eq(x.a[0], const(y.k - x.a[1].k, x.w))
        elif x.op == "sub" and x.a[1].op == "c":
            return eq(x.a[0], const(y.k + x.a[1].k, x.w))
        elif x.op == "bvnot":
            return eq(x.a[0], const(~y.k, x.w))
    if x.op == "sub" and y.op == "c" and y.k == 0:
        return eq(x.a[0], x.a[1])
    if y.op != "c" and x.id > y.id:
        x, y = y, x
    return _mk("eq", 0, (x, y), None, 0, 0)


def ult(x, y):
    if x is y:
        return FALSE
    assert x.w == y.w
    if x.hi < y.lo:
        return TRUE
    if x.lo >= y.hi:
        return FALSE
    if y.op == "c" and y.k == 1:
        return eq(x, const(0, x.w))
    if x.op == "c" and x.k == 0:
        return not_(eq(y, x))
    if x.w == 1:
        return and_(not_(v2b(x)), v2b(y))
    # strip common leading pieces
    if x.op == "cat" or y.op == "cat":
        al = _align(x, y)
        if len(al) > 1 and al[0][0] is al[0][1]:
            i = 0
            while i < len(al) and al[i][0] is al[i][1]:
                i += 1
            return ult(cat(*[p for p, _ in al[i:]]), cat(*[q for _, q in al[i:]]))
        if len(al) > 1 and al[-1][0] is al[-1][1]:
            j = len(al)
            while al[j - 1][0] is al[j - 1][1]:
                j -= 1
            return ult(cat(*[p for p, _ in al[:j]]), cat(*[q for _, q in al[:j]]))
    if y.op == "c" and x.op == "ite" and (x.a[1].op == "c" or x.a[2].op == "c"):
        return bite(x.a[0], ult(x.a[1], y), ult(x.a[2], y))
    if x.op == "c" and y.op == "ite" and (y.a[1].op == "c" or y.a[2].op == "c"):
        return bite(y.a[0], ult(x, y.a[1]), ult(x, y.a[2]))
    return _mk("ult", 0, (x, y), None, 0, 0)


def ule(x, y):
    return not_(ult(y, x))


def slt(x, y):
    w = x.w
    h = 1 << (w - 1)
    if x.hi < h and y.hi < h:
        return ult(x, y)
    if x.lo >= h and y.lo >= h:
        return ult(x, y)
    if x.lo >= h and y.hi < h:
        return TRUE
    if x.hi < h and y.lo >= h:
        return FALSE
    if y.op == "c" and y.k == 0:
        return v2b(ext(x, w - 1, w - 1))
    if y.op == "c" and x.op == "ite" and (x.a[1].op == "c" or x.a[2].op == "c"):
        return bite(x.a[0], slt(x.a[1], y), slt(x.a[2], y))
    # flip sign bits
    def flip(t):
        top = bvnot(ext(t, w - 1, w - 1))
        return cat(top, ext(t, w - 2, 0)) if w > 1 else top
    return ult(flip(x), flip(y))


def sle(x, y):
    return not_(slt(y, x))


def uf(name, w, *args, lo=0, hi=None):
    if hi is None:
        hi = _ones(w) if w else 0
    return _mk("uf", w, tuple(args), name, lo, hi)


# ---------------------------------------------------------------- utilities
_REB = {}


def rebuild(t, a):
    op = t.op
    if op == "cat":
        return cat(*a)
    if op == "ext":
        return ext(a[0], *t.k)
    if op == "uf":
        return _mk("uf", t.w, tuple(a), t.k, t.lo, t.hi)
    f = _REB.get(op)
    if f is None:
        raise KeyError(op)
    return f(*a)


_REB.update({
    "not": not_, "and": and_, "bite": bite, "beq": beq, "b2v": b2v, "v2b": v2b,
    "bvnot": bvnot, "bvand": bvand, "bvor": bvor, "bvxor": bvxor, "shl": bvshl, "lshr": bvlshr,
    "ashr": bvashr, "add": bvadd, "sub": bvsub, "mul": bvmul, "udiv": bvudiv, "urem": bvurem,
    "sdiv": bvsdiv, "srem": bvsrem, "ite": ite, "eq": eq, "ult": ult,
})


def postorder(roots):
    seen = set()
    out = []
    stack = [(r, False) for r in reversed(list(roots))]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for x in t.a:
            if x.id not in seen:
                stack.append((x, False))
    return out


def subst(roots, m):
    """m: dict id -> term.  Returns list of rewritten roots."""
    cache = dict(m)
    for t in postorder(roots):
        if t.id in cache:
            continue
        if not t.a:
            cache[t.id] = t
            continue
        na = [cache[x.id] for x in t.a]
        if all(p is q for p, q in zip(na, t.a)):
            cache[t.id] = t
        else:
            cache[t.id] = rebuild(t, na)
    return [cache[r.id] for r in roots]


def evaluate(roots, env, ufs=None):
    """env: var name -> int (missing -> its least value).  Returns list of ints/bools."""
    val = {}
    for t in postorder(roots):
        op = t.op
        a = t.a
        w = t.w
        if op == "c":
            v = t.k
        elif op == "v":
            v = env.get(t.k, t.lo) & _ones(w)
        elif op == "bv":
            v = bool(env.get(t.k, False))
        elif op == "true":
            v = True
        elif op == "false":
            v = False
        else:
            x = [val[y.id] for y in a]
            if op == "not":
                v = not x[0]
            elif op == "and":
                v = all(x)
            elif op == "bite" or op == "ite":
                v = x[1] if x[0] else x[2]
            elif op == "beq" or op == "eq":
                v = x[0] == x[1]
            elif op == "b2v":
                v = int(x[0])
            elif op == "v2b":
                v = bool(x[0])
            elif op == "cat":
                v = 0
                for y, z in zip(a, x):
                    v = (v << y.w) | z
            elif op == "ext":
                v = (x[0] >> t.k[1]) & _ones(w)
            elif op == "bvnot":
                v = ~x[0] & _ones(w)
            elif op == "bvand":
                v = x[0] & x[1]
            elif op == "bvor":
                v = x[0] | x[1]
            elif op == "bvxor":
                v = x[0] ^ x[1]
            elif op == "shl":
                v = (x[0] << x[1]) & _ones(w) if x[1] < w else 0
            elif op == "lshr":
                v = x[0] >> x[1] if x[1] < w else 0
            elif op == "ashr":
                v = (_sg(x[0], w) >> min(x[1], w - 1)) & _ones(w)
            elif op == "add":
                v = (x[0] + x[1]) & _ones(w)
            elif op == "sub":
                v = (x[0] - x[1]) & _ones(w)
            elif op == "mul":
                v = (x[0] * x[1]) & _ones(w)
            elif op == "udiv":
                v = x[0] // x[1] if x[1] else _ones(w)
            elif op == "urem":
                v = x[0] % x[1] if x[1] else x[0]
            elif op == "sdiv":
                p, q = _sg(x[0], w), _sg(x[1], w)
                if q == 0:
                    v = (1 if p < 0 else -1) & _ones(w)
                else:
                    r = abs(p) // abs(q)
                    v = (-r if (p < 0) != (q < 0) else r) & _ones(w)
            elif op == "srem":
                p, q = _sg(x[0], w), _sg(x[1], w)
                if q == 0:
                    v = x[0]
                else:
                    r = abs(p) % abs(q)
                    v = (-r if p < 0 else r) & _ones(w)
            elif op == "ult":
                v = x[0] < x[1]
            elif op == "uf":
                v = ufs[t.k](*x) if ufs and t.k in ufs else None
                if v is None:
                    raise KeyError("uf " + str(t.k))
                if w:
                    v &= _ones(w)
            else:
                raise KeyError(op)
        val[t.id] = v
    return [val[r.id] for r in roots]


def variables(roots):
    return [t for t in postorder(roots) if t.op in ("v", "bv")]

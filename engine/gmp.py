"""Models of the GMP integer functions (mpz), on the real mpz layout {alloc, size, limbs} with 64-bit limbs.

Sign and number of limbs are concrete in every case, the limbs are terms."""
from . import terms as T, symex as X, models


def get(ex, st, p):
    n = X._conc(ex.load(st, ex.padd(p, 4), 4), "mpz size")
    n = n - (1 << 32) if n >> 31 else n
    if n == 0:
        return False, []
    d = ex.load(st, ex.padd(p, 8), 8)
    return n < 0, [ex.load(st, ex.padd(d, 8 * j), 8) for j in range(abs(n))]


def put(ex, st, p, neg, limbs):
    limbs = list(limbs)
    while limbs and limbs[-1].op == "c" and limbs[-1].k == 0:
        limbs.pop()
    if limbs and limbs[-1].lo == 0:
        raise X.Unsupported("number of limbs is not determined")
    n = len(limbs)
    o = ex.new_obj(st, 8 * max(n, 1), "limbs")
    st.mem[o].heap = True
    for j, l in enumerate(limbs):
        ex.store(st, X.mkptr(o, 8 * j), 8, l)
    ex.store(st, p, 4, T.const(max(n, 1), 32))
    ex.store(st, ex.padd(p, 4), 4, T.const((-n if neg else n) & 0xffffffff, 32))
    ex.store(st, ex.padd(p, 8), 8, X.mkptr(o))


def wide(limbs):
    return T.cat(*reversed(limbs)) if limbs else T.const(0, 64)


def bits(limbs):
    """number of bits of a non-zero value, or None when it is not determined"""
    t = limbs[-1]
    if t.lo.bit_length() == t.hi.bit_length():
        return 64 * (len(limbs) - 1) + t.lo.bit_length()
    return None


def sizeinbase(ex, st, a):
    b = X._conc(a[1], "base")
    _, l = get(ex, st, a[0])
    if not l:
        return T.const(1, 64)
    n = bits(l)
    if n is None or b & (b - 1):
        raise X.Unsupported("mpz_sizeinbase of an undetermined value")
    k = b.bit_length() - 1
    return T.const(-(-n // k), 64)


def words(v, size):
    """little-endian list of size-byte words of the limbs, without leading zero words"""
    n = bits(v) if v else 0
    if n is None:
        raise X.Unsupported("number of words is not determined")
    w = wide(v)
    k = -(-n // (8 * size))
    w = T.zext(w, max(w.w, 8 * size * k))
    return [T.ext(w, 8 * size * (j + 1) - 1, 8 * size * j) for j in range(k)]


def export(ex, st, a):
    rop, countp, order, size, endian, nails, op = a
    order, size, endian = [X._conc(x, "mpz_export argument") for x in (order, size, endian)]
    if X._conc(nails, "nails"):
        raise X.Unsupported("nails")
    _, l = get(ex, st, op)
    ws = words(l, size)
    if not (isinstance(countp, X.Ptr) and countp.alts[0][1] == 0):
        ex.store(st, countp, 8, T.const(len(ws), 64))
    if isinstance(rop, X.Ptr) and rop.alts[0][1] == 0 and ws:
        raise X.Unsupported("mpz_export that allocates")
    for j, w in enumerate(ws if order & 0x80000000 else ws[::-1]):
        if endian == 1 and size > 1:
            w = T.cat(*[T.ext(w, 8 * k + 7, 8 * k) for k in range(size)])
        ex.store(st, ex.padd(rop, j * size), size, w)
    return rop


def import_(ex, st, a):
    z, count, order, size, endian, nails, op = a
    count, order, size, endian = [X._conc(x, "mpz_import argument") for x in (count, order, size, endian)]
    ws = [ex.load(st, ex.padd(op, j * size), size) for j in range(count)]
    if endian == 1 and size > 1:
        ws = [T.cat(*[T.ext(w, 8 * k + 7, 8 * k) for k in range(size)]) for w in ws]
    if not order & 0x80000000:
        ws.reverse()
    limbs = []
    if ws:
        v = T.cat(*reversed(ws))
        v = T.zext(v, -(-v.w // 64) * 64)
        limbs = [T.ext(v, 64 * j + 63, 64 * j) for j in range(v.w // 64)]
    put(ex, st, z, False, limbs)


def setz(ex, st, a):
    put(ex, st, a[0], *get(ex, st, a[1]))


def neg(ex, st, a):
    n, l = get(ex, st, a[1])
    put(ex, st, a[0], not n, l)


def absz(ex, st, a):
    put(ex, st, a[0], False, get(ex, st, a[1])[1])


def sgnd(neg, l, w):
    v = T.zext(wide(l), w)
    return T.bvneg(v) if neg else v


def order3(x, y):
    return T.ite(T.eq(x, y), T.const(0, 32), T.ite(T.slt(x, y), T.const(-1 & 0xffffffff, 32), T.const(1, 32)))


def cmpk(signed):
    def h(ex, st, a):
        n, l = get(ex, st, a[0])
        w = 64 * max(1, len(l)) + 65
        k = T.sext(a[1], w) if signed else T.zext(a[1], w)
        return order3(sgnd(n, l, w), k)
    return h


def cmp(ex, st, a):
    n, l = get(ex, st, a[0])
    m, k = get(ex, st, a[1])
    w = 64 * max(1, len(l), len(k)) + 1
    return order3(sgnd(n, l, w), sgnd(m, k, w))


def getui(ex, st, a):
    _, l = get(ex, st, a[0])
    return l[0] if l else T.const(0, 64)


def getlimbn(ex, st, a):
    _, l = get(ex, st, a[0])
    n = X._conc(a[1], "limb index")
    return l[n] if n < len(l) else T.const(0, 64)


def size(ex, st, a):
    return T.const(len(get(ex, st, a[0])[1]), 64)


def tstbit(ex, st, a):
    n, l = get(ex, st, a[0])
    k = X._conc(a[1], "bit index")
    if n:
        raise X.Unsupported("mpz_tstbit of a negative number")
    return T.zext(T.ext(l[k // 64], k % 64, k % 64), 32) if k < 64 * len(l) else T.const(0, 32)


def init(ex, st, a):
    put(ex, st, a[0], False, [])


def clear(ex, st, a):
    return None


def register(ex):
    for nm, h in (("init", init), ("init2", init), ("init_set", setz), ("set", setz), ("clear", clear), ("sizeinbase", sizeinbase), ("export", export),
                  ("import", import_), ("neg", neg), ("abs", absz), ("cmp_si", cmpk(True)), ("cmp_ui", cmpk(False)), ("cmp", cmp), ("get_ui", getui),
                  ("getlimbn", getlimbn), ("size", size), ("tstbit", tstbit)):
        ex.summaries["__gmpz_" + nm] = h
    ex.externs["llvm.is.constant.*"] = lambda ex, st, a: T.const(1 if isinstance(a[0], T.T) and a[0].op == "c" else 0, 1)
    models.charprops(ex)

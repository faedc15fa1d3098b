"""the solver checks the term rewriting itself.
While recording, every application of a constructor of terms.py that did not just build the plain node is kept, one per pattern;
verify() asks z3 whether the rewritten term equals the plain operation for all values, and whether the interval kept with it is right."""
import time
import z3
from . import terms as T, smt

Z = {"not_": lambda a: z3.Not(a[0]), "and_": lambda a: z3.And(*a), "or_": lambda a: z3.Or(*a), "implies": lambda a: z3.Implies(*a), "bite": lambda a: z3.If(*a), "ite": lambda a: z3.If(*a),
     "beq": lambda a: a[0] == a[1], "eq": lambda a: a[0] == a[1], "cat": lambda a: z3.Concat(*a) if len(a) > 1 else a[0], "v2b": lambda a: a[0] == z3.BitVecVal(1, 1),
     "b2v": lambda a: z3.If(a[0], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), "bvnot": lambda a: ~a[0], "bvand": lambda a: a[0] & a[1], "bvor": lambda a: a[0] | a[1], "bvxor": lambda a: a[0] ^ a[1],
     "bvshl": lambda a: a[0] << a[1], "bvlshr": lambda a: z3.LShR(a[0], a[1]), "bvashr": lambda a: a[0] >> a[1], "bvadd": lambda a: a[0] + a[1], "bvsub": lambda a: a[0] - a[1], "bvneg": lambda a: -a[0],
     "bvmul": lambda a: a[0] * a[1], "bvudiv": lambda a: z3.UDiv(a[0], a[1]), "bvurem": lambda a: z3.URem(a[0], a[1]), "bvsdiv": lambda a: a[0] / a[1], "bvsrem": lambda a: z3.SRem(a[0], a[1]),
     "ult": lambda a: z3.ULT(a[0], a[1]), "ule": lambda a: z3.ULE(a[0], a[1]), "slt": lambda a: a[0] < a[1], "sle": lambda a: a[0] <= a[1]}
DIVS = ("bvudiv", "bvurem", "bvsdiv", "bvsrem")
PLAIN = {"bvshl": "shl", "bvlshr": "lshr", "bvashr": "ashr", "bvadd": "add", "bvsub": "sub", "bvmul": "mul", "bvudiv": "udiv", "bvurem": "urem", "bvsdiv": "sdiv", "bvsrem": "srem", "not_": "not", "and_": "and"}
_orig = {}
_rec = {}
_cap = [0]


def _sig(t, d):
    if not isinstance(t, T.T):
        return "#"
    if t.op == "c":
        return "0" if t.k == 0 else "1" if t.k == (1 << t.w) - 1 else "c"
    if d == 0:
        return t.op
    return (t.op,) + tuple(_sig(x, d - 1) for x in t.a[:4])


def _wrap(nm, f):
    def g(*a):
        r = f(*a)
        if len(_rec) < _cap[0]:
            plain = r.op == PLAIN.get(nm, nm) and len(r.a) == len(a) and {x.id for x in r.a} == {x.id for x in a if isinstance(x, T.T)}
            if plain and (not r.w or r.lo == 0 and r.hi == (1 << r.w) - 1):
                return r
            k = (nm, plain, _sig(r, 1)) + tuple(_sig(x, 1) for x in a[:4])
            if k not in _rec:
                _rec[k] = (nm, a, r)
        return r
    return g


def start(cap=4000):
    """record"""
    if _orig:
        return
    _rec.clear()
    _cap[0] = cap
    for nm in list(Z) + ["zext", "sext", "ext"]:
        _orig[nm] = getattr(T, nm)
    for nm, f in _orig.items():
        setattr(T, nm, _wrap(nm, f))


def stop():
    for nm, f in _orig.items():
        setattr(T, nm, f)
    _orig.clear()


class Cut(smt.Conv):
    """subterms below a depth are variables of the same interval"""

    def __init__(self):
        super().__init__()
        self.side = []

    def go(self, t, d):
        key = t.id
        if key in self.memo:
            return self.memo[key]
        if t.op == "uf" or d == 0 and t.a:
            v = z3.BitVec("cut!%d" % key, t.w) if t.w else z3.Bool("cut!%d" % key)
        else:
            v = self.one(t, [self.go(x, d - 1) for x in t.a])
        if t.w and t.op != "c" and (t.op in ("v", "uf") or d == 0):
            if t.lo > 0:
                self.side.append(z3.UGE(v, z3.BitVecVal(t.lo, t.w)))
            if t.hi < (1 << t.w) - 1:
                self.side.append(z3.ULE(v, z3.BitVecVal(t.hi, t.w)))
        self.memo[key] = v
        return v


def query(nm, a, r, depth):
    """constraints that are satisfiable exactly when the rewriting is wrong"""
    c = Cut()
    ts = [x for x in a if isinstance(x, T.T)]
    # breadth first over the arguments so that shared subterms are cut at the same depth
    lev = {}
    front = list(ts)
    for d in range(depth + 1):
        nxt = []
        for t in front:
            if t.id not in lev:
                lev[t.id] = depth - d
                nxt += t.a
        front = nxt
    for t in T.postorder(ts):
        if t.id not in lev:
            continue
        if all(x.id in c.memo for x in t.a) and t.op != "uf":
            c.go(t, 1)
        else:
            c.go(t, 0 if t.a else 1)
    za = [c.memo[t.id] for t in ts]
    if nm == "zext":
        e = z3.ZeroExt(a[1] - a[0].w, za[0])
    elif nm == "sext":
        e = z3.SignExt(a[1] - a[0].w, za[0])
    elif nm == "ext":
        e = z3.Extract(a[1], a[2], za[0])
    else:
        e = Z[nm](za)
    zr = c.go(r, 60)
    bad = [e != zr]
    if r.w and r.op != "c":
        bad += [z3.ULT(zr, z3.BitVecVal(r.lo, r.w)), z3.UGT(zr, z3.BitVecVal(r.hi, r.w))]
    if nm in DIVS:        # a zero divisor is an obligation of its own
        c.side.append(za[1] != z3.BitVecVal(0, ts[1].w))
    return c.side + [z3.Or(*bad)]


def verify(budget=4.0, timeout=400):
    """-> dict(verified, undecided, failed: [text])"""
    t0 = time.time()
    res = {"recorded": len(_rec), "verified": 0, "undecided": 0, "failed": []}
    for nm, a, r in sorted(_rec.values(), key=lambda x: (x[0] in DIVS or x[0] == "bvmul", max([y.w for y in x[1] if isinstance(y, T.T)] or [0]))):
        if time.time() - t0 > budget:
            break
        if any(isinstance(x, (list, tuple)) or x is None for x in a):
            continue
        ans = z3.unknown
        for depth in (1, 2, 4, 8):
            s = z3.Solver()
            s.set("timeout", timeout)
            s.add(*query(nm, a, r, depth))
            ans = s.check()
            if ans == z3.unsat or time.time() - t0 > budget:
                break
        if ans == z3.unsat:
            res["verified"] += 1
        elif ans == z3.sat and time.time() - t0 <= budget and not uncut([x for x in a if isinstance(x, T.T)] + [r], 8):
            res["failed"].append("%s(%s) -> %s" % (nm, ", ".join(T.show(x, 3) if isinstance(x, T.T) else str(x) for x in a), T.show(r, 3)))
        else:
            res["undecided"] += 1
    _rec.clear()
    return res


def uncut(ts, depth):
    """do terms reach below the depth (or contain unspecified functions)?"""
    for t in ts:
        if t.op == "uf" or t.a and (depth == 0 or uncut(t.a, depth - 1)):
            return True
    return False

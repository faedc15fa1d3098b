"""Solver back end: terms -> z3 (in process) and SMT-LIB2 (cvc5 subprocess)."""
import time, subprocess, os
import z3
from . import terms as T

STATS = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "time": 0.0, "trivial": 0}


class Conv:
    def __init__(self):
        self.memo = {}
        self.ufs = {}
        self.vars = {}

    def conv(self, roots):
        memo = self.memo
        for t in T.postorder(roots):
            if t.id in memo:
                continue
            memo[t.id] = self.one(t, [memo[x.id] for x in t.a])
        return [memo[r.id] for r in roots]

    def one(self, t, a):
        op = t.op
        w = t.w
        if op == "c":
            return z3.BitVecVal(t.k, w)
        if op == "v":
            v = z3.BitVec(t.k, w)
            self.vars[t.k] = (t, v)
            return v
        if op == "bv":
            v = z3.Bool(t.k)
            self.vars[t.k] = (t, v)
            return v
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(*a)
        if op in ("bite", "ite"):
            return z3.If(a[0], a[1], a[2])
        if op in ("beq", "eq"):
            return a[0] == a[1]
        if op == "b2v":
            return z3.If(a[0], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == "v2b":
            return a[0] == z3.BitVecVal(1, 1)
        if op == "cat":
            return z3.Concat(*a)
        if op == "ext":
            return z3.Extract(t.k[0], t.k[1], a[0])
        if op == "bvnot":
            return ~a[0]
        if op == "bvand":
            return a[0] & a[1]
        if op == "bvor":
            return a[0] | a[1]
        if op == "bvxor":
            return a[0] ^ a[1]
        if op == "shl":
            return a[0] << a[1]
        if op == "lshr":
            return z3.LShR(a[0], a[1])
        if op == "ashr":
            return a[0] >> a[1]
        if op == "add":
            return a[0] + a[1]
        if op == "sub":
            return a[0] - a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "udiv":
            return z3.UDiv(a[0], a[1])
        if op == "urem":
            return z3.URem(a[0], a[1])
        if op == "sdiv":
            return a[0] / a[1]
        if op == "srem":
            return z3.SRem(a[0], a[1])
        if op == "ult":
            return z3.ULT(a[0], a[1])
        if op == "uf":
            sorts = [z3.BitVecSort(x.w) if x.w else z3.BoolSort() for x in t.a]
            key = (t.k, tuple(x.w for x in t.a), w)
            f = self.ufs.get(key)
            rs = z3.BitVecSort(w) if w else z3.BoolSort()
            if f is None:
                f = z3.Function("%s_%s" % (t.k, "_".join(str(x.w) for x in t.a)), *sorts, rs) if sorts \
                    else z3.BitVec(t.k, w)
                self.ufs[key] = f
            return f(*a) if sorts else f
        raise KeyError(op)

    def ranges(self):
        """range side conditions of the variables met so far"""
        out = []
        for t, v in self.vars.values():
            if t.op == "v":
                if t.lo > 0:
                    out.append(z3.UGE(v, z3.BitVecVal(t.lo, t.w)))
                if t.hi < (1 << t.w) - 1:
                    out.append(z3.ULE(v, z3.BitVecVal(t.hi, t.w)))
        return out


def _has_uf(roots):
    return any(t.op == "uf" for t in T.postorder(roots))


def abstract_div(formulas, wmin=65):
    """replace wide divisions by fresh values constrained by elementary facts of Euclidean division.
    -> (formulas, axioms) or None when there is nothing to replace"""
    divs = [t for t in T.postorder(formulas) if t.op in ("udiv", "urem") and t.w >= wmin]
    if not divs:
        return None
    m = {}
    ax = []
    pairs = {}
    for t in divs:                       # postorder: inner divisions come first
        n, d = T.subst(list(t.a), m) if m else t.a
        key = (n.id, d.id)
        if key not in pairs:
            w = n.w
            q = T.var("dq!%d!%d" % key, w, 0, max(0, n.hi // max(d.lo, 1)))
            r = T.var("dr!%d!%d" % key, w, 0, min(n.hi, max(d.hi - 1, 0)))
            pairs[key] = (q, r)
            z = T.const(0, w)
            nz = T.not_(T.eq(d, z))
            lt, eq = T.ult(n, d), T.eq(n, d)
            ax.append(T.implies(nz, T.and_(T.ult(r, d), T.ule(r, n), T.ule(q, n))))
            ax.append(T.implies(T.and_(nz, lt), T.and_(T.eq(q, z), T.eq(r, n))))
            ax.append(T.implies(T.and_(nz, eq), T.and_(T.eq(q, T.const(1, w)), T.eq(r, z))))
            ax.append(T.implies(T.and_(nz, T.not_(lt)), T.not_(T.eq(q, z))))
            ax.append(T.implies(T.eq(d, T.const(1, w)), T.and_(T.eq(q, n), T.eq(r, z))))
        m[t.id] = pairs[key][0 if t.op == "udiv" else 1]
    return T.subst(list(formulas), m), ax


def narrow(formulas, kmax=24):
    """exact: wide divisions and products whose operands have small ranges are done in narrow words"""
    m = {}
    for t in T.postorder(formulas):
        if t.op not in ("udiv", "urem", "mul") or t.w < 65:
            continue
        a, b = T.subst(list(t.a), m) if m else t.a
        k = max(a.hi, b.hi).bit_length()
        if t.op == "mul":
            k *= 2
        k = max(k, 1)
        if k > (kmax if t.op != "mul" else 2 * kmax) or 2 * k > t.w:
            continue
        x, y = T.ext(a, k - 1, 0), T.ext(b, k - 1, 0)
        if t.op == "mul":
            r = T.zext(T.bvmul(x, y), t.w)
        else:
            r = T.zext((T.bvudiv if t.op == "udiv" else T.bvurem)(x, y), t.w)
            if b.lo == 0:
                z = T.eq(y, T.const(0, k))
                r = T.ite(z, T.const((1 << t.w) - 1, t.w) if t.op == "udiv" else a, r)
        m[t.id] = r
    return T.subst(list(formulas), m) if m else formulas


def check(formulas, timeout=20.0, want_model=True, cvc5=False):
    """satisfiability of the conjunction.  -> ('unsat'|'sat'|'unknown', env)"""
    formulas = narrow(formulas)
    ab = abstract_div(formulas)
    if ab is not None:
        r, env = check(list(ab[0]) + ab[1], timeout, want_model)
        if r == "sat" and env is not None:
            try:
                if T.evaluate([T.and_(*formulas)], env)[0]:
                    return r, env
            except KeyError:
                pass
            return "unknown", env
        return r, env
    fs = [f for f in formulas if f is not T.TRUE]
    if any(f is T.FALSE for f in fs):
        STATS["trivial"] += 1
        return "unsat", None
    f = T.and_(*fs)
    if f is T.FALSE:
        STATS["trivial"] += 1
        return "unsat", None
    t0 = time.time()
    STATS["queries"] += 1
    c = Conv()
    zs = c.conv([f])
    uf = bool(c.ufs)
    s = z3.SolverFor("QF_UFBV" if uf else "QF_BV")
    s.set("timeout", int(timeout * 1000))
    s.add(*zs)
    s.add(*c.ranges())
    r = s.check()
    env = None
    if r == z3.sat:
        res = "sat"
        if want_model:
            env = {}
            m = s.model()
            for name, (t, v) in c.vars.items():
                x = m.eval(v, model_completion=True)
                env[name] = z3.is_true(x) if t.op == "bv" else x.as_long()
            env["$ok"] = True
            if not uf:
                ok = T.evaluate([f], env)[0]
                if not ok:
                    raise AssertionError("model does not satisfy the query: translator defect")
    elif r == z3.unsat:
        res = "unsat"
    else:
        res = "unknown"
    dt = time.time() - t0
    STATS["time"] += dt
    if res == "unknown" and cvc5:
        res, env = check_cvc5(formulas, timeout)
        return res, env
    STATS[res] += 1
    return res, env


# ---------------------------------------------------------------- SMT-LIB / cvc5
def _q(n):
    return "|%s|" % n


def smt2(formulas):
    f = T.and_(*formulas)
    lines = []
    names = {}
    order = T.postorder([f])
    decls = []
    ufd = {}
    for t in order:
        a = [names[x.id] for x in t.a]
        op, w = t.op, t.w
        if op == "c":
            s = "(_ bv%d %d)" % (t.k, w)
        elif op == "v":
            decls.append("(declare-const %s (_ BitVec %d))" % (_q(t.k), w))
            s = _q(t.k)
            if t.lo:
                lines.append("(assert (bvuge %s (_ bv%d %d)))" % (s, t.lo, w))
            if t.hi < (1 << w) - 1:
                lines.append("(assert (bvule %s (_ bv%d %d)))" % (s, t.hi, w))
        elif op == "bv":
            decls.append("(declare-const %s Bool)" % _q(t.k))
            s = _q(t.k)
        elif op in ("true", "false"):
            s = op
        else:
            if op == "ext":
                s = "((_ extract %d %d) %s)" % (t.k[0], t.k[1], a[0])
            elif op == "b2v":
                s = "(ite %s #b1 #b0)" % a[0]
            elif op == "v2b":
                s = "(= %s #b1)" % a[0]
            elif op == "uf":
                key = _q("%s_%s" % (t.k, "_".join(str(x.w) for x in t.a)))
                if key not in ufd:
                    ufd[key] = 1
                    decls.append("(declare-fun %s (%s) %s)" % (key, " ".join(
                        "(_ BitVec %d)" % x.w if x.w else "Bool" for x in t.a),
                        "(_ BitVec %d)" % w if w else "Bool"))
                s = "(%s %s)" % (key, " ".join(a))
            else:
                o = {"not": "not", "and": "and", "bite": "ite", "ite": "ite", "beq": "=", "eq": "=", "cat": "concat",
                     "bvnot": "bvnot", "bvand": "bvand", "bvor": "bvor", "bvxor": "bvxor", "shl": "bvshl",
                     "lshr": "bvlshr", "ashr": "bvashr", "add": "bvadd", "sub": "bvsub", "mul": "bvmul",
                     "udiv": "bvudiv", "urem": "bvurem", "sdiv": "bvsdiv", "srem": "bvsrem", "ult": "bvult"}[op]
                if op == "cat" and len(a) > 2:
                    s = a[0]
                    for x in a[1:]:
                        s = "(concat %s %s)" % (s, x)
                else:
                    s = "(%s %s)" % (o, " ".join(a))
            nm = "t%d" % t.id
            lines.append("(define-fun %s () %s %s)" % (nm, "Bool" if w == 0 else "(_ BitVec %d)" % w, s))
            s = nm
        names[t.id] = s
    out = ["(set-option :produce-models true)", "(set-logic %s)" % ("QF_UFBV" if ufd else "QF_BV")]
    out += decls + lines
    out.append("(assert %s)" % names[f.id])
    return "\n".join(out) + "\n", [t for t in order if t.op in ("v", "bv")]


CVC5 = "/opt/veriftools/bin/cvc5" if os.path.exists("/opt/veriftools/bin/cvc5") else "cvc5"


def check_cvc5(formulas, timeout=20.0, opts=()):
    t0 = time.time()
    STATS["queries"] += 1
    txt, vs = smt2(formulas)
    txt += "(check-sat)\n"
    if vs:
        txt += "(get-value (%s))\n" % " ".join(_q(v.k) for v in vs)
    res, env = "unknown", None
    try:
        p = subprocess.run([CVC5, "--lang=smt2", "--tlimit=%d" % int(timeout * 1000), *opts], input=txt,
                           capture_output=True, text=True, timeout=timeout + 5)
        o = p.stdout
        if "(error" in o and not o.startswith("unsat"):
            res = "unknown"
        elif o.startswith("unsat"):
            res = "unsat"
        elif o.startswith("sat"):
            res = "sat"
            import re
            env = {}
            for m in re.finditer(r"\((\|[^|]*\|)\s+(#b[01]+|#x[0-9a-f]+|true|false|\(_ bv(\d+) \d+\))\)", o):
                n, v = m.group(1)[1:-1], m.group(2)
                env[n] = (v == "true") if v in ("true", "false") else int(v[2:], 2) if v[1] == "b" else \
                    int(v[2:], 16) if v[1] == "x" else int(m.group(3))
            if not _has_uf(formulas):
                if not T.evaluate([T.and_(*formulas)], env)[0]:
                    raise AssertionError("cvc5 model does not satisfy the query")
    except subprocess.TimeoutExpired:
        pass
    STATS["time"] += time.time() - t0
    STATS[res] += 1
    return res, env

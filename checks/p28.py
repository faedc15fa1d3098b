"""P28: compile-time evaluation gives the run-time result.
The headers are executed symbolically twice, as compiled and with every question "is this a constant evaluation?" answered yes;
the outputs must agree.  A difference is confirmed by the compiler's own constant evaluator, which also runs a few constants of every operation."""
import os, re, random
from .common import *
from .p24 import select
from engine import consteval

ID = "P28"
MORE = {"p13": 24, "p14": 16, "p12": 20}
MODS = ["p%02d" % k for k in list(range(1, 15)) + [17, 18, 19, 20, 21, 22, 23]]


def confirm(op, ninp, nref):
    """does the constant evaluator of a compiler give another result than the run-time evaluation?"""
    for cxx in (core.GXX, core.CLANG):
        r = consteval.evaluate([("x", op, ninp)], os.path.join(core.VERIF, "build", ID + "_confirm_%d" % os.getpid()), "x", cxx)
        ce = r.get("x")
        if ce and "$crash" not in nref and differ(op, ce, nref):
            return "constant evaluation by %s: %s, at run time: %s" % (os.path.basename(cxx), core.hexd(ce), core.hexd(nref))
    return None



def differ(op, ce, nref):
    for k, v in nref.items():
        if k in ce:
            w = int.from_bytes(ce[k], "little") if k == "ret" else ce[k]
            if w != v:
                return True
    return False


def vectors(ref, name, cases, per):
    """constants of the operations through the compilers' evaluators"""
    def job():
        res = {"case": name, "op": "", "status": "constants", "violations": [], "notes": [], "vectors": 0, "unusable": [], "errors": []}
        items, seen = [], {}
        for c in cases:
            if seen.get(c.op.name, 0) >= per:
                continue
            rng = random.Random("%d %s" % (core.SEED, c.name))
            inp = c.inputs()
            vs = T.variables(core.input_terms(inp))
            pre = c.assume(inp) if callable(c.assume) else list(c.assume)
            for _ in range(20):
                env = core.sample_env(None, rng, vs)
                if c.gen:
                    g = c.gen(rng)
                    if g is None:
                        continue
                    env.update(g)
                if pre and not T.evaluate([T.and_(*pre)], env)[0]:
                    continue
                seen[c.op.name] = seen.get(c.op.name, 0) + 1
                items.append(("v%d" % len(items), c.op, core.concretize(inp, env, c.op), c))
                break
        cxx = core.GXX
        ce = consteval.evaluate([x[:3] for x in items], os.path.join(core.VERIF, "build", ID + "_constants"), re.sub(r"\W", "", name), cxx)
        if "$error" in ce:
            res["errors"].append(ce["$error"][-300:])
        nout = ref.native_batch([(op, n) for _, op, n, _ in items], ref.sofiles[0])
        usable = set()
        for (id, op, n, c), no in zip(items, nout):
            r = ce.get(id)
            if not r:
                continue
            usable.add(op.name)
            res["vectors"] += 1
            if "$crash" not in no and differ(op, r, no):
                res["violations"].append({"op": op.name, "case": c.name, "inputs": core.hexd(n), "outputs": core.hexd(r), "confirmed": True, "how": "constant evaluation by " + os.path.basename(cxx),
                                          "failed": ["run time: %s" % core.hexd(no)], "what": "the constant evaluation gives another result"})
                res["status"] = "violated"
        res["unusable"] = sorted({op.name for _, op, _, _ in items} - usable)
        return res
    return (name, job, 300)


def main(only=None):
    inc, n = consteval.headers(ID + "_headers")
    groups, vec = [], []
    for sfx, ops, cases, hk in select(MORE, 3, lambda c: None, instances=1 if Q else 2, mods=MODS, nbuild=3):
        ref = Harness(ID + "_ref_" + sfx, ops, **hk)
        for c in cases:
            c.ref = ref
            c.confirm = confirm
        groups.append((sfx, ops, cases, dict(hk, inc=inc)))
        if only:
            cases = [c for c in cases if only in c.name]
        names = sorted({c.op.name for c in cases})
        for k in range(0, len(names), 24):
            s = set(names[k:k + 24])
            cs = [c for c in cases if c.op.name in s]
            vec.append(vectors(ref, "constants %s %d" % (sfx, k // 24), cs[::-1], 3 if Q else 20))

    def ev(flat):
        cs = [r for r in flat if r["case"].startswith("constants ")]
        return {"extra": {"questions_answered_yes": n, "constants_evaluated_by_the_compiler": sum(r.get("vectors", 0) for r in cs),
                          "operations_the_compiler_does_not_evaluate": sorted(x for r in cs for x in r.get("unusable", ())), "constant_evaluation_errors": [x for r in cs for x in r.get("errors", ())][:5]}}
    return drive(ID, None, None, only, groups=groups, extrajobs=lambda: [] if core.NOVEC else vec, finishkw=ev,
                 bounds="the narrowest instance of every operation of P01-P14 and P17-P23, a few of the partitions each of them uses; all values within a partition",
                 assumptions=["a constant evaluation differs from a run-time evaluation only where the code asks whether it is one (checked on constants of every operation with the compiler's evaluator)"])

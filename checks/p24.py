"""P24: no undefined behaviour and no access outside objects, over the operations of every other check"""
import re, copy, importlib
from .common import *

ID = "P24"
# modules whose operations depend on the shape of a text, buffer or stream get more partitions
MORE = {"p13": 100, "p14": 60, "p15": 60, "p16": 40}
MODS = ["p%02d" % k for k in range(1, 24)]


def pick(xs, k):
    if k == 1:
        return xs[:1]
    if len(xs) <= k:
        return list(xs)
    return [xs[round(j * (len(xs) - 1) / (k - 1))] for j in range(k)]


def select(more, few, adapt, instances=2, mods=MODS, keep=lambda m, c: True, nbuild=4):
    """operations and partitions of the other checks, regrouped by the way they are built"""
    groups = []
    for m in mods:
        mod = importlib.import_module("checks." + m)
        ops, cases = mod.build()
        by = {}
        for c in cases:
            by.setdefault(c.op.name, []).append(c)
        pats = {}
        for o in ops:
            if o.name in by:
                pats.setdefault(re.sub(r"\d+", "#", o.name), []).append(o)
        nops, ncs = [], []
        for os in pats.values():
            # the narrowest and the widest instance of every operation
            for o in pick(os, (1 if m == "p14" else instances) if Q else 4):
                o2 = Op("%s_%s" % (m, o.name), o.params, o.body, lambda i, o: [], o.ret)
                cs = [c for c in by[o.name] if c.weight <= (2.1 if Q else 12) and keep(m, c)]
                if not cs:
                    continue
                nops.append(o2)
                for c in pick(cs, more.get(m, few) if Q else 200):
                    c = copy.copy(c)
                    c.op = o2
                    c.name = m + " " + c.name
                    c.prove = None
                    c.vectors = min(c.vectors, 2)
                    c.weight = min(1, max(c.weight, 0.1))
                    adapt(c)
                    ncs.append(c)
        groups.append((m, nops, ncs, dict(dict(prelude=PRELUDE), **getattr(mod, "HKW", {}))))
    # one build for everything that uses the plain prelude
    out, plain = [], ([], [])
    for sfx, o, c, hk in groups:
        if hk == dict(prelude=PRELUDE):
            plain[0].extend(o)
            plain[1].extend(c)
        else:
            out.append((sfx, o, c, hk))
    names = [o.name for o in plain[0]]
    n = nbuild
    for k in range(n):
        part = names[len(names) * k // n:len(names) * (k + 1) // n]
        s = set(part)
        out.append(("plain%d" % k, [o for o in plain[0] if o.name in s], [c for c in plain[1] if c.op.name in s], dict(prelude=PRELUDE)))
    return out


def strict(c):
    c.skip_obl = False
    c.strictub = True


def build():
    return select(MORE, 7, strict)


def main(only=None):
    return drive(ID, None, None, only, groups=build(), bounds="the narrowest and widest instance of every operation of the other checks, up to 7 (text and streams up to 100, thorough 200) of the partitions each of them uses; all values within a partition",
                 assumptions=["memory accesses are checked against the bounds of whole objects and constant array subscripts against the array; uninitialised memory counts when a result or the control flow that leads to it depends on it"])

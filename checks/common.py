"""shared pieces of the checks"""
import time, concurrent.futures
from engine import core, terms as T, smt, lin, symex as X
from engine.core import Op, Case, Blocks, V, ublocks, sblocks, Harness, PRELUDE

Q = not core.THOROUGH
UTYPES = [("bool", "bool", 1), ("u8", "unsigned char", 8), ("u16", "unsigned short", 16), ("u32", "unsigned int", 32),
          ("ul", "unsigned long", 64), ("ull", "unsigned long long", 64)]
STYPES = [("s8", "signed char", 8), ("s16", "short", 16), ("s32", "int", 32), ("sl", "long", 64), ("sll", "long long", 64)]


def B(w):
    return ("in", w // 8)


def O(w):
    return ("out", w // 8)


def wblocks(name, n, *wins, top=False):
    """n blocks of which only windows are symbolic: wins = (start, count) or ('ones', start, end) filling with all-ones blocks"""
    out = [T.const(0, 32)] * n
    for w in wins:
        if w[0] == "ones":
            for i in range(w[1], min(w[2], n)):
                out[i] = T.const(0xffffffff, 32)
    for w in wins:
        if w[0] != "ones":
            for i in range(w[0], min(w[0] + w[1], n)):
                out[i] = V("%s%d" % (name, i), 32)
    if top:
        for i in range(n - 1, -1, -1):
            if out[i].op == "v":
                out[i] = V(out[i].k.split("~")[0] + "t", 32, 1)
                break
    return Blocks(out)


def windows(n):
    """partitions of wide operands: (label, windows of a, windows of b)"""
    h = n // 2
    return [("low blocks", [(0, 3)], [(0, 3)]),
            ("low blocks under a run of ones", [(0, 2), ("ones", 2, n - 1), (n - 1, 1)], [(0, 2), (n - 1, 1)]),
            ("middle blocks", [(h - 1, 3), (0, 1)], [(h - 2, 3), (0, 1)]),
            ("top blocks", [(n - 3, 3), (0, 1)], [(n - 2, 2), (0, 1)]),
            ("run of ones below the top", [(0, 1), ("ones", 1, n - 2), (n - 2, 2)], [(0, 1), ("ones", 1, n - 2), (n - 2, 2)])]


def drive(pid, ops, cases, only=None, job_timeout=None, deadline=None, assumptions=(), bounds="", prelude=PRELUDE, flags=(),
          harness=None, groups=None, finishkw=None, extrajobs=None, **hk):
    """build, run all cases in parallel, report.  groups: [(suffix, ops, cases, harness arguments)] to use several builds"""
    t0 = time.time()
    if groups:
        return _drive_groups(pid, groups, only, job_timeout, deadline, assumptions, bounds, finishkw or {}, t0, extrajobs)
    if only:
        cases = [c for c in cases if only in c.name]
        used = {c.op.name for c in cases}
        ops = [o for o in ops if o.name in used]
    if deadline is None:
        deadline = 3000 if core.THOROUGH else 560
    if job_timeout is None:
        job_timeout = 1200 if core.THOROUGH else 240
    h = harness or Harness(pid, ops, prelude=prelude, flags=flags, **hk)
    h.build()
    core.out("%s: built in %.1fs, %d operations, %d cases" % (pid, time.time() - t0, len(ops), len(cases)))
    return _schedule(pid, [(h, c) for c in cases], only, job_timeout, t0, deadline, h, assumptions, bounds, finishkw or {})


def _drive_groups(pid, groups, only, job_timeout, deadline, assumptions, bounds, finishkw, t0, extrajobs=None):
    if deadline is None:
        deadline = 3000 if core.THOROUGH else 560
    if job_timeout is None:
        job_timeout = 1200 if core.THOROUGH else 240
    hcs = []
    nops = 0
    hs = []
    for sfx, ops, cases, hk in groups:
        if only:
            cases = [c for c in cases if only in c.name]
            used = {c.op.name for c in cases}
            ops = [o for o in ops if o.name in used]
        if not cases:
            continue
        h = Harness(pid + "_" + sfx, ops, **hk)
        hs.append(h)
        ref = {id(c.ref): c.ref for c in cases if c.ref}
        for r in ref.values():
            r.ops = h.ops
        hs += ref.values()
        nops += len(ops)
        hcs += [(h, c) for c in cases]
    with concurrent.futures.ThreadPoolExecutor(3) as tp:
        for f in [tp.submit(h.build) for h in hs]:
            f.result()
    core.out("%s: built in %.1fs, %d operations, %d cases" % (pid, time.time() - t0, nops, len(hcs)))
    return _schedule(pid, hcs, only, job_timeout, t0, deadline, None, assumptions, bounds, finishkw, extrajobs() if extrajobs else [])


def _schedule(pid, hcs, only, job_timeout, t0, deadline, h, assumptions, bounds, finishkw, extrajobs=()):
    # group cheap cases into batches to save process start-up
    jobs = list(extrajobs)
    batch = []

    def flush():
        if batch:
            bs = list(batch)
            jobs.append((bs[0][1].name + ("..+%d" % (len(bs) - 1) if len(bs) > 1 else ""), (lambda bs=bs: _batch(bs, job_timeout)), job_timeout))
            batch.clear()
    hcs = sorted(hcs, key=lambda c: -c[1].weight)
    step = max(1, len(hcs) // (24 if not core.THOROUGH else 200))
    for k in range(step // 2, len(hcs), step):
        hcs[k][1].audit = True
    wsum = 0
    for hc in hcs:
        c = hc[1]
        if c.weight >= 1:
            jobs.append((c.name, (lambda hc=hc: core.run_case(hc[0], hc[1], job_timeout)), job_timeout))
        else:
            batch.append(hc)
            wsum += c.weight
            if wsum >= 1:
                flush()
                wsum = 0
    flush()
    res = core.schedule(jobs, t0 + deadline, onresult=_show if only else None)
    flat = []
    for r in res:
        if "multi" in r:
            subs = r["multi"]
            if subs:
                subs[0]["stats"] = r.get("stats", {})
                for s in subs:
                    s.setdefault("wall", r.get("wall"))
            flat += subs
        else:
            flat.append(r)
    if callable(finishkw):
        finishkw = finishkw(flat)
    return core.finish(pid, flat, t0, h, assumptions=assumptions, bounds=bounds, **finishkw)


def _show(r):
    for s in r.get("multi", [r]):
        core.out("   %-40s %-12s wall %s goals %s obl %s steps %s %s" % (s["case"], s["status"], s.get("wall"), s.get("goals"),
                 s.get("obligations"), s.get("steps"), "; ".join(s["notes"])[:1500]))


def _batch(cs, tmo):
    out = []
    viol = []
    end = time.time() + tmo - 10
    for k, (h, c) in enumerate(cs):
        t0 = time.time()
        left = end - t0
        if left < 5:
            out.append({"case": c.name, "op": c.op.name, "status": "inconclusive", "notes": ["time limit of the batch"], "violations": []})
            continue
        r = core.run_case(h, c, min(left, max(12, 5 * left / (len(cs) - k))))
        r["wall"] = round(time.time() - t0, 2)
        out.append(r)
        viol += r["violations"]
        if viol:
            break
    return {"multi": out, "violations": viol, "notes": [], "status": "multi", "case": cs[0][1].name, "op": ""}


def trunc(x, bits):
    """value of a u64 parameter after conversion to an unsigned type of that many bits (bool: non-zero)"""
    if bits == 1:
        return T.zext(T.b2v(T.not_(T.eq(x, T.const(0, x.w)))), x.w)
    return T.zext(T.ext(x, bits - 1, 0), x.w) if bits < x.w else x


def wz(x, w):
    """zero-extend or truncate to w bits"""
    if x.w < w:
        return T.zext(x, w)
    if x.w > w:
        return T.ext(x, w - 1, 0)
    return x


CMPBODY = ("return uint32_t(x == y) | uint32_t(x != y) << 1 | uint32_t(x < y) << 2 | uint32_t(x <= y) << 3 | uint32_t(x > y) << 4"
           " | uint32_t(x >= y) << 5 | uint32_t(ord(x <=> y)) << 6;")


def cmpgoals(ret, lt, eq, compare=None):
    """goals for a packed comparison word"""
    gt = T.and_(T.not_(lt), T.not_(eq))
    bits = [("==", eq), ("!=", T.not_(eq)), ("<", lt), ("<=", T.or_(lt, eq)), (">", gt), (">=", T.or_(gt, eq)), ("<=> less", lt), ("<=> greater", gt)]
    out = []
    for n, (l, c) in enumerate(bits):
        out.append((l, T.beq(T.v2b(T.ext(ret, n, n)), c)))
    if compare:
        out.append(("compareTo", T.beq(T.v2b(T.ext(ret, 8, 8)), lt)))
        out.append(("compareTo greater", T.beq(T.v2b(T.ext(ret, 9, 9)), gt)))
    return out


def sgn_out(s):
    """sign word of an input operand -> flags word sts writes for it"""
    return T.ite(T.eq(s, T.const(0, 32)), T.const(1, 32), T.ite(T.eq(s, T.const(1, 32)), T.const(2, 32), T.const(4, 32)))

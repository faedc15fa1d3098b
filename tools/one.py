"""debug helper: run matching cases in process"""
import sys, os, time, importlib, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(1000000); threading.stack_size(1 << 30)
from engine import core, smt
from checks import common
def go():
    pid, pat = sys.argv[1], sys.argv[2]
    mod = importlib.import_module("checks." + pid.lower())
    ops, cases = mod.build()
    cases = [c for c in cases if pat in c.name]
    used = {c.op.name for c in cases}
    h = core.Harness(pid + "dbg", [o for o in ops if o.name in used], **getattr(mod, "HKW", {}))
    h.build()
    import traceback
    for c in cases[: int(sys.argv[3]) if len(sys.argv) > 3 else 3]:
        t = time.time()
        try:
            ctx = core.execute(h, c)
        except Exception:
            print("\n".join(traceback.format_exc().splitlines()[-3:]))
        r = core.run_case(h, c, 0)
        print(c.name, r["status"], round(time.time() - t, 2), r["notes"], r.get("goals"), smt.STATS, r["violations"][:1])
t = threading.Thread(target=go); t.start(); t.join()

import sys, cProfile, pstats, threading
sys.path.insert(0, "/verif"); sys.setrecursionlimit(1000000); threading.stack_size(1 << 30)
import importlib
from engine import core
def go():
    m = importlib.import_module("checks." + sys.argv[1].lower())
    ops, cases = m.build()
    c = [c for c in cases if c.name == sys.argv[2]][0]
    h = core.Harness("prof", [c.op], **getattr(m, "HKW", {})); h.build()
    p = cProfile.Profile(); p.enable()
    r = core.run_case(h, c, 0)
    p.disable()
    print(r["status"], r["notes"])
    pstats.Stats(p).sort_stats("cumtime").print_stats(28)
t = threading.Thread(target=go); t.start(); t.join()

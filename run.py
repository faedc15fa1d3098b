#!/usr/bin/env python3
"""run.py <property id>: decide one property on /repo's current tree (see DESIGN.md)."""
import sys, os, time, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(1000000)
from engine import core


def main():
    pid = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    t0 = time.time()
    mod = importlib.import_module("checks." + pid.lower())
    try:
        rc = mod.main(only)
    except core.BuildError as e:
        # the harness no longer compiles against the headers: nothing can be decided
        core.out(str(e)[:3000])
        core.finish(pid, [{"case": "build", "op": "", "status": "inconclusive", "violations": [],
                           "notes": ["harness does not compile: " + str(e)[:500]]}], t0)
        rc = 0
    except Exception as e:      # noqa: a slip of the machinery is no verdict about the library
        core.out(traceback.format_exc()[-3000:])
        core.finish(pid, [{"case": "machinery", "op": "", "status": "inconclusive", "violations": [],
                           "notes": ["the check itself failed: %s %s" % (type(e).__name__, str(e)[:500])]}], t0)
        rc = 0
    sys.exit(rc)


if __name__ == "__main__":
    main()

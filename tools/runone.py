"""obligations of one property only (no cross-check, no evidence): runone.py C05"""
import importlib
import os
import sys
import time

if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from dv.harness import Check

for pid in sys.argv[1:]:
    c = Check(pid)
    m = importlib.import_module(f"props.{pid.lower()}")
    c.run(m.run, getattr(m, "SHARDS", 1))
    print(pid, f"{sum(o[1] for o in c.obls)}/{len(c.obls)} in {time.time() - c.t0:.1f} s")
    from dv import state
    if state.REASONS:
        print(pid, 'state outside of the contracts:', state.REASONS[:5])

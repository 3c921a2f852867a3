"""python3-vt check.py <property id>: decide one property on /repo's current tree"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    import importlib
    from dv.harness import Check
    c = Check(pid, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1))
    mod = importlib.import_module(f"props.{pid.lower()}")
    c.run(mod.run, getattr(mod, "SHARDS", 1))
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())

"""numeric oracles of the properties on the real code (run with /opt/venv/bin/python)

  run.py search C01 --seconds 5 --seed 1    last line: one JSON object
  run.py replay FILE                        exit 1 if the recorded input still fails"""
import argparse
import copy
import importlib
import io
import json
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("PYORB_REPO", "/repo"))
warnings.simplefilter("ignore")
import numpy as np  # noqa: E402

np.seterr(all="ignore")

MODULES = ["kep", "orb", "misc"]


def find(pid):
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError:
            continue
        if pid in mod.ORACLES:
            return mod.ORACLES[pid]
    raise SystemExit(f"no oracle for {pid}")


class Pool:
    """numpy, whose arrays live in the same objects in every case: what the code kept of an earlier call has new content"""

    def __init__(self):
        import numpy
        self.np, self.kept, self.count = numpy, {}, {}

    def __getattr__(self, name):
        return getattr(self.np, name)

    def array(self, *a, **kw):
        x = self.np.array(*a, **kw)
        key = (x.shape, x.dtype)
        n = self.count[key] = self.count.get(key, 0) + 1
        kept = self.kept.setdefault(key + (n,), x)
        if kept is not x:
            kept.setflags(write=True)
            kept[...] = x
        return kept

    def install(self):
        for m in list(sys.modules.values()):
            if os.path.dirname(getattr(m, "__file__", None) or "") == os.path.dirname(os.path.abspath(__file__)) and hasattr(m, "np"):
                m.np = self


POOL = Pool()


def one_object(x, seen):
    """equal numbers as one object, as they are when a caller passes his own again"""
    if isinstance(x, dict):
        return {k: one_object(v, seen) for k, v in x.items()}
    if isinstance(x, list):
        return [one_object(v, seen) for v in x]
    return seen.setdefault((type(x), repr(x)), x) if isinstance(x, (int, float, str)) else x


def check(o, case):
    """None if the property holds on this case, else what went wrong"""
    if "history" in case:       # cases checked one after another in one process
        POOL.install()
        history = one_object(case["history"], {})
        for c in history[:-1]:
            check(o, c)
        case = history[-1]
    POOL.count.clear()
    err = io.StringIO()
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = err
    try:
        return o.check(case)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1]
        if any("/pyorb/" in f.filename for f in tb):
            return f"unexpected {type(e).__name__}: {e} ({os.path.basename(last.filename)}:{last.lineno})"
        raise
    finally:
        sys.stdout, sys.stderr = so, se


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode")
    ap.add_argument("what")
    ap.add_argument("--seconds", type=float, default=5)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--history", action="store_true", help="the code keeps state: similar cases one after another")
    a = ap.parse_args()
    if a.mode == "replay":
        doc = json.load(open(a.what))
        if doc.get("failing_input") is None:
            print("no failing input recorded; failed obligations:")
            for o in doc["failed_obligations"]:
                print("  ", o["name"], "-", o["verifier_output"][:300])
            return 1
        msg = check(find(doc["property"]), doc["failing_input"])
        print("holds" if msg is None else f"VIOLATION: {msg}")
        return 0 if msg is None else 1
    o = find(a.what)
    rng = random.Random(a.seed)
    t0 = time.time()
    n = 0
    seen = set()
    samples = []
    errors = []
    past = []
    out = {"status": "held"}
    while time.time() - t0 < a.seconds or n < 20:
        if time.time() - t0 > 3 * a.seconds + 20:
            break
        case = o.gen(rng)
        if a.history:
            POOL.install()
            found = similar(o, a.what, rng, case, past)
            n += 3
            if found is not None:
                out = {"status": "violation", "case": found[0], "message": found[1], "key": o.key(found[0]["history"][-1], found[1])}
                break
            continue
        try:
            msg = check(o, case)
        except Exception as e:      # of the oracle itself
            msg = None
            errors.append(f"{type(e).__name__}: {e} on {json.dumps(case)[:500]}")
        n += 1
        if len(seen) < 200000:
            seen.add(hash(json.dumps(case, sort_keys=True)))
        if len(samples) < 2:
            samples.append(case)
        if msg is not None:
            case, msg = shrink(o, case, msg)
            out = {"status": "violation", "case": case, "message": msg, "key": o.key(case, msg)}
            break
    out.update(evaluations=n, distinct_nontrivial=len(seen), seconds=round(time.time() - t0, 2), samples=[s for s in samples if len(json.dumps(s)) < 2000][:1],
               rule="random cases of " + (o.__doc__ or "the property") + "; distinct by content")
    if errors:
        out["oracle_errors"] = [len(errors)] + errors[:3]
    print(json.dumps(out))
    return 0


def similar(o, pid, rng, case, past):
    """a case and two that differ little from it; one that only fails after others is a violation, and so is a generated one that fails"""
    for j in range(3):
        c = case if j == 0 else neighbour(rng, case, o.gen(rng))
        past.append(c)
        del past[:-200]
        try:
            msg = check(o, c)
        except Exception:
            continue
        if msg is None or j and fresh(pid, [c]):
            continue
        for k in (1, 2, 3, 10, 200):
            m = fresh(pid, past[-k:])
            if m:
                return {"history": past[-k:]}, m
    return None


def fresh(pid, cases):
    """what is wrong with the last of these cases in a new process"""
    with tempfile.NamedTemporaryFile("w", suffix=".json") as fh:
        json.dump({"property": pid, "failing_input": {"history": cases}}, fh)
        fh.flush()
        r = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), "replay", fh.name], capture_output=True, text=True)
    return r.stdout.strip().split("VIOLATION: ", 1)[1] if r.returncode == 1 and "VIOLATION: " in r.stdout else None


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
    elif isinstance(x, float):
        yield path


def neighbour(rng, case, other):
    """this case with a number changed"""
    new = copy.deepcopy(case)
    ps = list(leaves(case))
    for path in rng.sample(ps, min(len(ps), rng.choice([0, 1, 1, 2]))):
        at, frm = new, other
        for k in path[:-1]:
            at = at[k]
        v = at[path[-1]]
        try:
            for k in path:
                frm = frm[k]
        except (KeyError, IndexError, TypeError):
            frm = None
        at[path[-1]] = frm if isinstance(frm, float) and rng.random() < 0.5 else v * rng.choice([1 + 1e-7, 1 - 1e-4, 0.99, 1.0])
    return new


def shrink(o, case, msg):
    t0 = time.time()
    improved = True
    while improved and time.time() - t0 < 5:
        improved = False
        for c in o.smaller(case):
            try:
                m = check(o, c)
            except Exception:
                continue
            if m is not None:
                case, msg, improved = c, m, True
                break
    return case, msg


class Oracle:
    """the property"""

    def gen(self, rng):
        raise NotImplementedError

    def check(self, case):
        raise NotImplementedError

    def smaller(self, case):
        return []

    def key(self, case, msg):
        return "-"


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    sys.exit(main())

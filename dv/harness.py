"""Obligations, evidence and verdicts."""
import ast
import hashlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

from . import alg, explore, loader, smt, state, symnp as S, terms as T
from .ctx import CTX, Unsupported
from .spec import E, tm

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

BASE_TRUST = [
    "z3 4.x (python binding) for path feasibility, sign and Orbit-level goals",
    "dv/alg.py: the algebraic prover (rational functions modulo the relations of sin/cos/sqrt/... generators)",
    "dv/symnp.py: the semantics given to numpy operations (cross-checked on every run against CPython+numpy by sampling)",
    "dv/loader.py: the mechanical transformation of the source text read from /repo on every run",
]
BASE_ASSUME = [
    "floating point numbers are treated as mathematical reals (rounding, overflow and signed zeros are not modelled)",
    "array arguments are of the shapes (6,), (6, N), (N,) and, for the elementwise functions of kepler.py, (N, K), with arbitrary N >= 1, K >= 1; "
    "arrays without any element are executed separately (C08)",
]


class OutOfTime(BaseException):
    """the time limit of the check"""


def _out_of_time(*a):
    raise OutOfTime()


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obls = []            # (name, ok, backend, seconds, reason)
        self.functions = {}
        self.assumptions = list(BASE_ASSUME)
        self.trusted = list(BASE_TRUST)
        self.notes = []
        self.bounded = []
        self.witnesses = 0
        self.budget = 25.0 if tier == "quick" else 120.0
        self.deadline = self.t0 + (600 if tier == "quick" else 3000)
        self._loaders = {}
        self.failures_seen = []
        self.fidelity = None
        self.shard = (0, 1)
        self.recording = True
        self.turns = 0
        self.retries = 8
        self.again = 4

    # ------------------------------------------------------------ work on several cores
    def mine(self, jobs):
        """the jobs of this process; what is recorded outside of them is recorded by the first process only"""
        k, n = self.shard
        for j, job in enumerate(jobs):
            if j % n == k:
                was, self.recording = self.recording, True
                yield job
                self.recording = was

    def turn(self, f, *a, **kw):
        """run this job if it is one of this process"""
        j, self.turns = self.turns, self.turns + 1
        if j % self.shard[1] == self.shard[0]:
            was, self.recording = self.recording, True
            self.guard(str(a[0]) if a and isinstance(a[0], str) else "job", f, *a, **kw)
            self.recording = was

    def merge(self, d):
        self.obls.extend(d["obls"])
        self.failures_seen.extend(d["failures_seen"])
        self.functions.update(d["functions"])
        for n in ("assumptions", "trusted", "notes", "bounded"):
            mine = getattr(self, n)
            mine.extend(x for x in d[n] if x not in mine)
        self.witnesses += d["witnesses"]
        for r in d["reasons"]:
            state.note(r)
        for k, v in d["stats"].items():
            smt.STATS[k] = smt.STATS.get(k, 0) + v

    def state(self):
        return {"obls": self.obls, "failures_seen": self.failures_seen, "functions": self.functions, "assumptions": self.assumptions,
                "trusted": self.trusted, "notes": self.notes, "bounded": self.bounded, "witnesses": self.witnesses,
                "stats": dict(smt.STATS), "reasons": list(state.REASONS)}

    def limited(self, fn):
        """the whole check, stopped when the time limit is well exceeded"""
        signal.signal(signal.SIGALRM, _out_of_time)
        signal.setitimer(signal.ITIMER_REAL, max(1.0, self.deadline + 60 - time.time()))
        try:
            self.guard("check", fn, self)
        except OutOfTime:
            self.record("check/time-limit", False, "symbolic execution", 0, "the check did not finish in its time limit")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def run(self, fn, shards):
        """run the check in several processes, each of which does its share of the jobs"""
        if shards <= 1:
            return self.limited(fn)
        import pickle
        kids = []
        for k in range(shards):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    self.shard = (k, shards)
                    self.recording = k == 0
                    self.limited(fn)
                    with os.fdopen(w, "wb") as fh:
                        pickle.dump(self.state(), fh)
                    code = 0
                finally:
                    sys.stdout.flush()
                    os._exit(code)
            os.close(w)
            kids.append((k, pid, r))
        for k, pid, r in kids:
            with os.fdopen(r, "rb") as fh:
                data = fh.read()
            os.waitpid(pid, 0)
            try:
                self.merge(pickle.loads(data))
            except Exception as e:
                self.record(f"process{k}/finished", False, "symbolic execution", 0, f"a worker process died: {e!r}")

    # ------------------------------------------------------------ code
    def load(self, mod="pyorb.kepler", stubs=None, key=None):
        """load real source; stubs replace functions whose contracts are proved elsewhere"""
        L = loader.Loader(stubs=stubs)
        m = L.load(mod)
        self._loaders[id(m)] = L
        m._dv_loader = L
        return m

    def under_contract(self, mod, *names):
        for n in names:
            f = getattr(mod, n.split(".")[0], None)
            path, src = mod._dv_loader.sources[mod.__name__]
            seg = _source_segment(src, n)
            self.functions[f"{mod.__name__}.{n}"] = hashlib.sha256((seg or "").encode()).hexdigest()[:12]

    # ------------------------------------------------------------ obligations
    def record(self, name, ok, backend, secs=0.0, reason=""):
        if not self.recording and ok:
            return True
        self.obls.append((name, bool(ok), backend, round(secs, 3), str(reason)[:1500]))
        if not ok:
            self.failures_seen.append(name)
        if not ok and os.environ.get("DV_VERBOSE"):
            print("   FAILED", name, backend, str(reason)[:800], flush=True)
        return bool(ok)

    def prove(self, name, goal, facts=(), timeout=None, backend="alg"):
        t0 = time.time()
        goal = goal.t if isinstance(goal, E) else goal
        facts = [f.t if isinstance(f, E) else f for f in facts]
        timeout = min(timeout or self.budget, max(5.0, self.deadline - t0))
        if time.time() > self.deadline:
            return self.record(name, False, backend, 0, "check time limit reached before this obligation")
        if len(self.failures_seen) > 60:
            return self.record(name, False, backend, 0, "not attempted after 60 failures")
        ok, reason = self._prove(goal, facts, timeout, backend)
        if not ok and self.retries > 0 and not any(w in reason for w in ("refuted", "not valid")) and time.time() < self.t0 + (self.deadline - self.t0) / 2:
            # once more with more time: a busy machine must not decide
            self.retries -= 1
            smt.SCALE[0] = 6
            try:
                ok, reason = self._prove(goal, facts, timeout * 2 if backend == "alg" else min(timeout, 10), backend)
            finally:
                smt.SCALE[0] = 1
        return self.record(name, ok, backend, time.time() - t0, reason)

    def _prove(self, goal, facts, timeout, backend):
        try:
            if backend == "alg":
                r = alg.prove(goal, facts, timeout=timeout)
                ok, reason = r.ok, r.reason + (f" [case: {[T.pretty(c, 5) for c in r.case]}]" if r.case and not r.ok else "")
                if not ok:
                    reason += self.refute(goal, facts)
            else:
                ok = smt.SOLVER.valid(facts, goal, timeout * 1000)
                reason = ""
                if not ok:
                    m = smt.SOLVER.model(facts + [T.not_(goal)], 4000)
                    reason = f"z3: not valid; model: {m}" if m is not None else "z3: unknown"
        except Unsupported as e:
            ok, reason = False, f"outside the verified subset: {e}"
        except RecursionError:
            ok, reason = False, "recursion limit"
        return ok, reason

    def refute(self, goal, facts, tries=400):
        """numeric counterexample of an obligation (diagnostic only)"""
        import random
        rng = random.Random(7)
        syms = [s for s in T.subterms([goal] + list(facts)) if s.op == "sym" and s.sort == "R"]
        for _ in range(tries):
            env = {s: rng.choice([rng.uniform(0, 1), rng.uniform(0, 6.28), rng.uniform(-3, 3), rng.uniform(1, 4)]) for s in syms}
            memo = {}
            try:
                if all(T.evalf(f, env, memo) for f in facts):
                    if not T.evalf(approx_goal(goal), env, memo):
                        return " [refuted numerically at " + ", ".join(f"{s.args[0]}={v:.6g}" for s, v in env.items()) + "]"
            except Exception:
                return ""
        return ""

    def expect(self, name, ok, detail=""):
        return self.record(name, bool(ok), "structural", 0.0, "" if ok else detail)

    def witness(self, name, facts, env):
        """vacuity guard: the precondition must be satisfied by a concrete point"""
        self.witnesses += 1
        env = {tm(k): v for k, v in env.items()}
        try:
            bad = [T.pretty(tm(f), 6) for f in facts if not T.evalf(tm(f), env)]
        except KeyError as e:
            bad = [f"no value: {e}"]
        self.expect(f"{name}/precondition-satisfiable", not bad, f"witness violates {bad}")

    def paths(self, name, thunk, **kw):
        """explore; an unsupported construct is an undischarged obligation"""
        t0 = time.time()
        try:
            ps = explore.explore(thunk, **kw)
        except Unsupported as e:
            self.record(f"{name}/execute", False, "symbolic execution", time.time() - t0, f"outside the verified subset: {e}")
            return []
        except RecursionError:
            self.record(f"{name}/execute", False, "symbolic execution", time.time() - t0, "recursion limit")
            return []
        out = []
        for p in ps:
            for oname, goal, facts in p.obls:
                if oname[0] == "inv":
                    if oname[2] in loader.Invariants.dropped.get(oname[1], ()):
                        continue
                elif oname[0] == "terminates":
                    self.pending_termination = getattr(self, "pending_termination", [])
                    self.pending_termination.append((oname, goal, facts))
                    continue
                self.prove(f"{name}/{'/'.join(map(str, oname))}", goal, facts, backend="z3")
        return ps

    def single(self, name, thunk):
        """the only path of a thunk which must not raise"""
        ps = [p for p in self.paths(name, thunk) if not p.ended]
        if not ps:
            if not any(o[0].startswith(name) and not o[1] for o in self.obls):
                self.record(f"{name}/execute", False, "symbolic execution", 0, "no path")
            return None
        if len(ps) > 1:
            joined = explore.join(ps)
            ps = [joined] if joined is not None else ps
        if len(ps) != 1:
            self.record(f"{name}/execute", False, "symbolic execution", 0,
                        f"{len(ps)} paths: " + "; ".join(f"{[T.pretty(c, 4) for c in p.pc[-3:]]}" for p in ps[:4]))
            return None
        p = ps[0]
        if p.exc is not None:
            tb = traceback.extract_tb(p.exc.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if "/pyorb/" in f.filename]
            self.record(f"{name}/no-exception", False, "symbolic execution", 0, f"raises {type(p.exc).__name__}: {p.exc} at {where}")
            return None
        self.record(f"{name}/no-exception", True, "symbolic execution")
        return p

    def guard(self, name, f, *a, **k):
        """run a block of obligations; a crash of the machinery on changed code is an undischarged obligation"""
        try:
            return f(*a, **k)
        except Unsupported as e:
            self.record(f"{name}/execute", False, "symbolic execution", 0, f"outside the verified subset: {e}")
        except Exception as e:
            tb = traceback.format_exc(limit=-4)
            self.record(f"{name}/execute", False, "symbolic execution", 0, f"{type(e).__name__}: {e}\n{tb}")

    # ------------------------------------------------------------ verdict
    @property
    def failures(self):
        return [o for o in self.obls if not o[1]]

    def hunt(self, seconds, n=7):
        """search for a failing input, several processes at once"""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda j: self.oracle(seconds, seed=self.seed + 1000 * j), range(n)))
        best = next((r for r in rs if r.get("status") == "violation"), rs[0])
        return dict(best, evaluations=sum(r.get("evaluations", 0) for r in rs))

    def oracle(self, seconds, mode="search", seed=None):
        """numeric oracle of the property on the real code"""
        cmd = [PY, os.path.join(ROOT, "oracle", "run.py"), mode, self.pid, "--seconds", str(seconds), "--seed", str(self.seed if seed is None else seed)]
        if state.REASONS:
            cmd.append("--history")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=loader.REPO, OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1")
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=seconds * 2 + 60, env=env, cwd="/")
        except subprocess.TimeoutExpired:
            return {"status": "timeout", "evaluations": 0}
        try:
            return json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            return {"status": "error", "evaluations": 0, "stderr": r.stderr[-2000:], "stdout": r.stdout[-500:]}

    def finish(self):
        if not self.obls:
            self.record("nonzero-obligations", False, "structural", 0, "the check generated no obligation")
        fails = self.failures
        fid_s = 3 if self.tier == "quick" else 60
        if state.REASONS:
            self.bounded.append("histories of calls, which this form of the code can tell apart (it keeps state that the contracts do not know: "
                                f"{'; '.join(state.REASONS[:4])}): sequences of random calls on the real code only")
        res = self.hunt(30 if self.tier == "quick" else 120) if fails or state.REASONS else self.oracle(fid_s)
        violation = None
        known = known_findings(self.pid)
        if res.get("status") == "violation":
            violation = res
        printed = []
        rc = 0
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        replay = os.path.join(ROOT, "evidence", f"{self.pid}.replay.json")
        if os.path.exists(replay):
            os.remove(replay)
        if violation is not None and violation.get("key") in known:
            printed.append(f"KNOWN-FINDING: property={self.pid} {known[violation['key']]}")
            violation = None
        if fails or violation is not None:
            rc = 1
            doc = {
                "property": self.pid,
                "failed_obligations": [dict(name=n, backend=b, verifier_output=r) for n, ok, b, s, r in fails],
                "failing_input": None if violation is None else violation["case"],
                "observed": None if violation is None else violation["message"],
                "replay_cmd": None if violation is None else f"{PY} {ROOT}/oracle/run.py replay {replay}",
                "search": {k: v for k, v in res.items() if k not in ("case", "message")},
            }
            with open(replay, "w") as fh:
                json.dump(doc, fh, indent=1)
            for n, ok, b, s, r in fails[:12]:
                printed.append(f"failed obligation {n} [{b}]: {r[:300]}")
            if violation is not None:
                printed.append(f"failing input on the real code: {violation['message'][:400]}")
                if not fails:
                    printed.append("all obligations were discharged, but the real code fails this input (outside the model)")
            printed.append(f"VIOLATION property={self.pid} replay={replay}" + ("" if violation is not None else " no-failing-input-found"))
        wall = time.time() - self.t0
        by = {}
        for n, ok, b, s, r in self.obls:
            d = by.setdefault(b, {"obligations": 0, "discharged": 0, "seconds": 0.0})
            d["obligations"] += 1
            d["discharged"] += ok
            d["seconds"] = round(d["seconds"] + s, 3)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "proof",
            "coverage": {
                "obligations": len(self.obls),
                "discharged": sum(o[1] for o in self.obls),
                "checker_cmd": f"python3-vt {ROOT}/check.py {self.pid}",
                "trusted_base": self.trusted,
                "functions_under_contract": self.functions,
                "back_ends": by,
                "solver_calls": dict(smt.STATS),
                "precondition_witnesses": self.witnesses,
                "obligation_names": [o[0] for o in self.obls[:3000]],
                "obligation_names_digest": hashlib.sha256("\n".join(sorted(o[0] for o in self.obls)).encode()).hexdigest()[:16],
                "undischarged": [o[0] for o in fails],
                "bounded_not_counted_as_proved": self.bounded,
                "cross_check_on_real_code": {k: v for k, v in res.items() if k not in ("case",)},
                "state_that_outlives_a_call": state.REASONS[:20] or "none (checked after every execution)",
                "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": rc,
        }
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print(f"{self.pid}: {sum(o[1] for o in self.obls)}/{len(self.obls)} obligations discharged, "
              f"{len(self.functions)} functions under contract, cross-check {res.get('status')} "
              f"({res.get('evaluations')} evaluations), {wall:.1f} s")
        for line in printed:
            print(line)
        if res.get("status") == "error" and rc == 0:
            print("cross-check could not run:", res.get("stderr", "")[-500:])
            return 3
        return rc


def approx_goal(g):
    """equalities up to rounding"""
    if g.op == "eq" and g.args[0].sort == "R":
        a, b = g.args
        d = T.fn("abs", T.sub(a, b))
        return T.le(d, T.mul(T.const("1e-6") if False else T.const(1e-6), T.add(T.ONE, T.fn("abs", b))))
    if g.op in ("and", "or"):
        return (T.and_ if g.op == "and" else T.or_)(*[approx_goal(x) for x in g.args])
    return g


def known_findings(pid):
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                parts = line.split(None, 3)
                if parts[1] == f"property={pid}":
                    out[parts[2].split("=", 1)[1]] = parts[3].strip()
    return out


def _source_segment(src, name):
    tree = ast.parse(src)
    body = tree.body
    node = None
    for part in name.split("."):
        node = next((n for n in body if getattr(n, "name", None) == part), None)
        if node is None:
            return None
        body = getattr(node, "body", [])
    return ast.get_source_segment(src, node)

"""z3 back end: literals, signs, feasibility and the Orbit level (equality with
uninterpreted functions, arrays of booleans, linear integer arithmetic)."""
import time

import z3

from . import terms as T

SCALE = [1]       # time limits are multiplied by this when an obligation is tried again
STATS = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0}


class Tr:
    """translation of terms, with the axioms their operators need"""

    def __init__(self, abstract=False):
        self.memo = {}
        self.ax = {}
        self.abstract = abstract
        self.funs = {}

    def fun(self, name, sorts, rng):
        key = (name, tuple(sorts), rng)
        f = self.funs.get(key)
        if f is None:
            m = {"R": z3.RealSort(), "B": z3.BoolSort(), "I": z3.IntSort()}
            f = z3.Function(name + "/" + "".join(sorts), *[m[s] for s in sorts], m[rng])
            self.funs[key] = f
        return f

    def __call__(self, t):
        stack = [t]
        memo = self.memo
        while stack:
            x = stack[-1]
            if x in memo:
                stack.pop()
                continue
            if x.op == "count":
                memo[x] = z3.Int(f"count_{x.id}")
                self.ax[x] = [memo[x] >= 0]
                stack.pop()
                continue
            todo = [a for a in x.args if isinstance(a, T.Term) and a not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[x] = self.build(x)
            stack.pop()
        return memo[t]

    def build(self, x):
        o = x.op
        m = self.memo
        a = [m[y] if isinstance(y, T.Term) else y for y in x.args]
        if o == "const":
            v = x.args[0]
            if x.sort == "I":
                return z3.IntVal(int(v))
            return z3.RealVal(f"{v.numerator}/{v.denominator}") if v.denominator != 1 else z3.RealVal(v.numerator)
        if o == "sym":
            return {"R": z3.Real, "B": z3.Bool, "I": z3.Int}[x.sort](x.args[0])
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "pi":
            p = z3.Real("PI")
            self.ax[x] = [p > z3.RealVal("3.14159265358979"), p < z3.RealVal("3.14159265358980")]
            return p
        if o in ("nan", "undef", "inf"):
            if x.sort == "B":
                return z3.Bool("UNDEF_B")
            return z3.Real(o.upper())
        if o == "uf":
            args = x.args[1:]
            f = self.fun(x.args[0], [y.sort for y in args], x.sort)
            return f(*a[1:])
        if o == "isnan":
            return self.fun("isnan", ["R"], "B")(a[0])
        if o == "add":
            return a[0] + a[1]
        if o == "neg":
            return -a[0]
        if o == "mul":
            if self.abstract and not (T.is_const(x.args[0]) or T.is_const(x.args[1])):
                f = self.fun("mul", [x.args[0].sort] * 2, x.sort)
                if x.args[0].id > x.args[1].id:
                    a = a[::-1]
                if x.args[0] is not x.args[1]:
                    self.ax[x] = [f(a[0], a[1]) == f(a[1], a[0])]
                return f(a[0], a[1])
            return a[0] * a[1]
        if o == "div":
            if self.abstract and not T.is_const(x.args[1]):
                return self.fun("div", ["R", "R"], "R")(a[0], a[1])
            return a[0] / a[1]
        if o == "pow":
            if self.abstract:
                return self.fun("pow%d" % x.args[1], [x.args[0].sort], x.sort)(a[0])
            r = a[0]
            for _ in range(x.args[1] - 1):
                r = r * a[0]
            return r
        if o == "lt":
            return a[0] < a[1]
        if o == "le":
            return a[0] <= a[1]
        if o == "eq":
            return a[0] == a[1]
        if o == "not":
            return z3.Not(a[0])
        if o == "and":
            return z3.And(*a)
        if o == "or":
            return z3.Or(*a)
        if o == "ite":
            return z3.If(a[0], a[1], a[2])
        if o == "toreal":
            return z3.ToReal(a[0])
        if o == "imod":
            return a[0] % a[1]
        r = self.fun(o, ["R"] * len(a), "R")(*a)
        ax = []
        if o == "abs":
            return z3.If(a[0] >= 0, a[0], -a[0])
        if o == "sqrt":
            ax = [z3.Implies(a[0] >= 0, r >= 0)] + ([] if self.abstract else [z3.Implies(a[0] >= 0, r * r == a[0])])
            ax.append(z3.Implies(a[0] > 0, r > 0))
        elif o in ("sin", "cos"):
            ax = [r <= 1, r >= -1]
        elif o == "cosh":
            ax = [r >= 1]
        elif o == "exp":
            ax = [r > 0]
        elif o == "tanh":
            ax = [r < 1, r > -1]
        elif o == "sinh":
            ax = [z3.Implies(a[0] > 0, r > a[0]), z3.Implies(a[0] < 0, r < a[0]), z3.Implies(a[0] == 0, r == 0)]
        elif o == "mod":
            ax = [z3.Implies(a[1] > 0, z3.And(r >= 0, r < a[1]))]
        elif o in ("arccos", "arctan", "arctan2", "arcsin"):
            p = self(T.PI)
            lo, hi = {"arccos": (0, p), "arctan": (-p / 2, p / 2), "arctan2": (-p, p), "arcsin": (-p / 2, p / 2)}[o]
            ax = [r >= lo, r <= hi]
        elif o == "floor":
            ax = [r <= a[0], r > a[0] - 1]
        if ax:
            self.ax[x] = ax
        return r

    def axioms(self, ts):
        out = []
        for t in T.subterms(ts):
            if t in self.ax:
                out.extend(self.ax[t])
        if any(t.op == "isnan" or t.op == "nan" for t in T.subterms(ts)):
            f = self.fun("isnan", ["R"], "B")
            out.append(f(z3.Real("NAN")))
        return out


_exact = Tr(False)
_abs = Tr(True)
_cache = {}


def run(s, ms):
    """check with a limit in processor time: z3 counts wall time, so a check that was starved of its processor is repeated"""
    for _ in range(4):
        s.set("timeout", int(ms))
        w0, c0 = time.time(), time.process_time()
        r = str(s.check())
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - w0
        cpu = 1000 * (time.process_time() - c0)
        if r != "unknown" or cpu >= 0.8 * ms:
            break
        ms *= min(8, max(2, ms / (cpu + 1)))
    return r


def check(facts, timeout_ms, abstract):
    """satisfiability of a set of boolean terms -> 'sat' | 'unsat' | 'unknown'"""
    timeout_ms = timeout_ms * SCALE[0]
    facts = [f for f in dict.fromkeys(facts) if f is not T.TRUE]
    if any(f is T.FALSE for f in facts):
        return "unsat", None
    key = (frozenset(facts), abstract)
    if key in _cache:
        r = _cache[key]
        if r[0] != "unknown" or r[2] >= timeout_ms:
            return r[0], r[1]
    tr = _abs if abstract else _exact
    s = z3.Solver()
    es = [tr(f) for f in facts]
    s.add(*es)
    s.add(*tr.axioms(list(facts)))
    r = run(s, timeout_ms)
    model = s.model() if r == "sat" else None
    _cache[key] = (r, model, timeout_ms)
    return r, model


class Solver:
    def feasible(self, facts):
        facts = relevant(facts)
        r, _ = check(facts, 2500, True)
        if r == "unsat":
            return False
        if nonlinear(facts):
            r, _ = check(facts, 700, False)
            return r != "unsat"
        return True

    def valid_quick(self, facts, goal):
        r, _ = check(list(facts) + [T.not_(goal)], 1500, True)
        return r == "unsat"

    def valid(self, facts, goal, timeout=10000):
        if goal is T.TRUE:
            return True
        ng = T.not_(goal)
        r, _ = check(list(facts) + [ng], 2000, True)
        if r == "unsat":
            return True
        r, _ = check(list(facts) + [ng], timeout, False)
        return r == "unsat"

    def model(self, facts, timeout=5000):
        r, m = check(list(facts), timeout, False)
        return m if r == "sat" else None


def relevant(facts):
    return facts


def nonlinear(facts):
    for t in T.subterms(list(facts)):
        if t.op in ("pow", "sqrt") or (t.op == "mul" and not (T.is_const(t.args[0]) or T.is_const(t.args[1]))) or \
                (t.op == "div" and not T.is_const(t.args[1])):
            return True
    return False


SOLVER = Solver()

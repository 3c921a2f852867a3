"""Path exploration by re-execution."""
import numpy as np

from . import state
from . import terms as T
from .ctx import CTX, Axis, PathEnd, Restart, Unsupported, zero_count
from .loader import Invariants
from .smt import SOLVER
from .symnp import Scalar, SymArray, SymInt


class Path:
    def __init__(self):
        self.pc = []
        self.result = None
        self.exc = None
        self.obls = []
        self.events = []
        self.ended = False
        self.assume = []
        self.taken = []

    @property
    def facts(self):
        return list(self.assume) + list(self.pc)

    def __repr__(self):
        return f"<path exc={self.exc!r} ended={self.ended} pc={self.pc}>"


def _run_once(thunk, decisions):
    CTX.reset(decisions)
    CTX.solver = SOLVER
    p = Path()
    try:
        p.result = thunk()
        if CTX.loop_mode:
            raise Unsupported("return out of a loop over all columns")
    except PathEnd:
        p.ended = True
    except Unsupported:
        raise
    except Exception as e:       # exception of the program under verification
        p.exc = e
    p.pc = list(CTX.pc)
    p.obls = list(CTX.obls)
    p.events = list(CTX.events)
    p.assume = list(CTX.assume)
    p.taken = list(CTX.taken)
    return p, list(CTX.decisions[:CTX.pos])


def _explore(thunk, max_paths, enough=None):
    paths = []
    work = [[]]
    while work:
        dec = work.pop()
        p, taken = _run_once(thunk, dec)
        paths.append(p)
        if enough is not None and enough(p):
            return paths
        if len(paths) > max_paths:
            raise Unsupported("too many paths")
        for i in range(len(dec), len(taken)):
            v, forced = taken[i]
            if not forced:
                work.append(taken[:i] + [(not v, False)])
    return paths


def explore(thunk, max_paths=400, prove=None, enough=None):
    """all paths of thunk(); loop invariants are inferred by elimination.
    enough(path): this path fails its contract already, the others need not be seen"""
    before = state.snapshot()
    try:
        return _fixpoint(thunk, max_paths, prove, enough)
    finally:
        state.compare(before, state.snapshot())


def _fixpoint(thunk, max_paths, prove, enough):
    prove = prove or (lambda facts, goal: SOLVER.valid(facts, goal, 3000))
    for rnd in range(12):
        learned = Invariants.count()
        try:
            paths = _explore(thunk, max_paths, enough)
        except Restart:
            continue
        bad = Invariants.count() != learned
        for p in paths:
            for name, goal, facts in p.obls:
                if name[0] == "inv":
                    _, lid, key, _w = name
                    if key in Invariants.dropped[lid]:
                        continue
                    if not prove(facts, goal):
                        Invariants.dropped[lid].add(key)
                        bad = True
        if not bad:
            return paths
    raise Unsupported("loop invariants do not stabilise")


# ---------------------------------------------------------------- joining paths
class NotJoined(Exception):
    pass


def join(paths):
    """one path for several that differ only in the values of their results (if-conversion of branches on the data);
    None where that is not possible. A branch on `some column satisfies m` is settled by showing that both sides
    give the same values for a column that does not satisfy m."""
    if any(p.exc is not None or p.ended for p in paths):
        return None
    calls = [[ev for ev in p.events if ev[0] in ("call", "solve")] for p in paths]
    if any(len(c) != len(calls[0]) or any(a is not b and a != b for a, b in zip(c, calls[0])) for c in calls):
        return None
    try:
        return _join(list(paths), 0)
    except NotJoined:
        return None


def _join(paths, k):
    if len(paths) == 1:
        return paths[0]
    while True:
        if any(len(p.taken) <= k for p in paths):
            raise NotJoined
        cond = paths[0].taken[k][0]
        if any(p.taken[k][0] is not cond for p in paths):
            raise NotJoined
        yes, no = [p for p in paths if p.taken[k][1]], [p for p in paths if not p.taken[k][1]]
        k += 1
        if yes and no:
            break
    a, b = _join(yes, k), _join(no, k)
    out = Path()
    common = set(b.pc)
    out.pc = [f for f in a.pc if f in common]
    out.assume = list(a.assume)
    seen = {id(ev) for ev in a.events}
    out.events = a.events + [ev for ev in b.events if ev[0] not in ("call", "solve") and id(ev) not in seen]
    out.obls = a.obls + b.obls
    none = _empty(T.not_(cond))
    if none is not None:
        out.result = _combine(a.result, b.result, lambda x, y: _same(x, y, out.facts + [T.not_(none)]))
        return out
    none = _empty(cond)
    if none is not None:
        out.result = _combine(b.result, a.result, lambda x, y: _same(x, y, out.facts + [T.not_(none)]))
        return out
    if any(t.op == "count" for t in T.subterms([cond])):
        raise NotJoined
    out.result = _combine(a.result, b.result, lambda x, y: T.ite(cond, x, y))
    return out


def _empty(cond):
    """the mask that is empty if cond holds"""
    r = None
    z = zero_count(cond)
    while z is not None:
        r, z = z, zero_count(T.not_(z))
    return r


def _same_dim(c, d):
    if isinstance(c, Axis) and isinstance(d, Axis):
        return c.length is d.length and c.index is d.index and c.cond is d.cond
    return c == d


def _combine(x, y, f):
    if x is y:
        return x
    if type(x) is not type(y):
        raise NotJoined
    if isinstance(x, SymArray):
        if x.dtype != y.dtype or len(x.dims) != len(y.dims) or not all(map(_same_dim, x.dims, y.dims)):
            raise NotJoined
        cells = x.cells.copy()
        for i in np.ndindex(*cells.shape):
            cells[i] = _combine(x.cells[i], y.cells[i], f)
        return SymArray(cells, x.dims, x.dtype)
    if isinstance(x, Scalar):
        if x.dtype != y.dtype:
            raise NotJoined
        r = object.__new__(type(x))
        r.term, r.dtype = f(x.term, y.term), x.dtype
        if isinstance(x, SymInt):
            r.axis = x.axis
        return r
    if isinstance(x, (tuple, list)) and len(x) == len(y):
        return type(x)(_combine(a, b, f) for a, b in zip(x, y))
    if isinstance(x, T.Term):
        return x if x is y else f(x, y)
    if isinstance(x, (int, float, str, bool, type(None))) and x == y:
        return x
    raise NotJoined


def _same(x, y, facts):
    """x, if it equals y under the facts"""
    memo = {}

    def decide(c):
        if c not in memo:
            memo[c] = True if SOLVER.valid(facts, c, 3000) else False if SOLVER.valid(facts, T.not_(c), 3000) else None
        return memo[c]

    pairs = {}

    def eq(a, b):
        if a is b:
            return True
        if (a, b) not in pairs:
            pairs[a, b] = eq1(a, b)
        return pairs[a, b]

    def eq1(a, b):
        for t, swap in ((a, False), (b, True)):
            if t.op == "ite":
                d = decide(t.args[0])
                if d is not None:
                    t = t.args[1] if d else t.args[2]
                    return eq(b, t) if swap else eq(t, b)
        if a.sort == "B" and SOLVER.valid(facts, T.and_(T.implies(a, b), T.implies(b, a)), 3000):
            return True
        if a.op == b.op and a.op not in ("const", "sym") and len(a.args) == len(b.args) and a.args and all(
                isinstance(u, T.Term) and isinstance(v, T.Term) or u == v for u, v in zip(a.args, b.args)):
            return all(eq(u, v) for u, v in zip(a.args, b.args) if isinstance(u, T.Term))
        return False

    if not eq(x, y):
        raise NotJoined
    return x

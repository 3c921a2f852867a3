"""Hash-consed terms over mathematical reals, integers (indices) and booleans.

Every value the verifier computes from the code of /repo is one of these.
Smart constructors only apply identities that hold for every real (NaN is a
separate marker, see `NAN`)."""
from fractions import Fraction

_table = {}
_next = [0]


class Term:
    __slots__ = ("op", "args", "sort", "id", "_syms")

    def __repr__(self):
        return pretty(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


def mk(op, args, sort):
    key = (op, sort) + tuple((a.id if isinstance(a, Term) else ("c", a)) for a in args)
    t = _table.get(key)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.args = tuple(args)
        t.sort = sort
        t.id = _next[0]
        t._syms = None
        _next[0] += 1
        _table[key] = t
    return t


# ---------------------------------------------------------------- atoms
def const(v):
    if isinstance(v, float):
        v = Fraction(repr(v))
    return mk("const", (Fraction(v),), "R")


def iconst(v):
    return mk("const", (Fraction(int(v)),), "I")


def sym(name, sort="R"):
    return mk("sym", (name,), sort)


def uf(name, args, sort="R"):
    return mk("uf", (name,) + tuple(args), sort)


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
PI = mk("pi", (), "R")
NAN = mk("nan", (), "R")
UNDEF = mk("undef", (), "R")
INF = mk("inf", (), "R")
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def boolean(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- reals / ints
def _sort2(a, b):
    return "I" if a.sort == "I" and b.sort == "I" else "R"


def to_real(a):
    if a.sort == "I":
        if a.op == "const":
            return const(a.args[0])
        if a.op == "add" or a.op == "mul":
            return (add if a.op == "add" else mul)(to_real(a.args[0]), to_real(a.args[1]))
        if a.op == "neg":
            return neg(to_real(a.args[0]))
        if a.op == "pow":
            return powi(to_real(a.args[0]), a.args[1])
        return mk("toreal", (a,), "R")
    if a.sort == "B":
        return ite(a, ONE, ZERO)
    return a


def _coerce(a, b):
    if a.sort == "B":
        a = ite(a, iconst(1), iconst(0))
    if b.sort == "B":
        b = ite(b, iconst(1), iconst(0))
    if a.sort != b.sort:
        a, b = to_real(a), to_real(b)
    return a, b


def _bad(*ts):
    for t in ts:
        if t.op == "nan":
            return NAN
    return None


def add(a, b):
    a, b = _coerce(a, b)
    n = _bad(a, b)
    if n is not None:
        return n
    if a.op == "const" and b.op == "const":
        return mk("const", (a.args[0] + b.args[0],), a.sort)
    if a.op == "const" and a.args[0] == 0:
        return b
    if b.op == "const" and b.args[0] == 0:
        return a
    return mk("add", (a, b), a.sort)


def neg(a):
    if a.sort == "B":
        a = ite(a, iconst(1), iconst(0))
    if a.op == "nan":
        return a
    if a.op == "const":
        return mk("const", (-a.args[0],), a.sort)
    if a.op == "neg":
        return a.args[0]
    return mk("neg", (a,), a.sort)


def sub(a, b):
    a, b = _coerce(a, b)
    n = _bad(a, b)
    if n is not None:
        return n
    if b.op == "const" and b.args[0] == 0:
        return a
    if a is b and a.op in ("sym", "const") and a.sort == "I":
        return iconst(0)
    if a.op == "const" and b.op == "const":
        return mk("const", (a.args[0] - b.args[0],), a.sort)
    return mk("add", (a, neg(b)), a.sort)


def mul(a, b):
    a, b = _coerce(a, b)
    n = _bad(a, b)
    if n is not None:
        return n
    if a.op == "const" and b.op == "const":
        return mk("const", (a.args[0] * b.args[0],), a.sort)
    if a.op == "const" and a.args[0] == 1:
        return b
    if b.op == "const" and b.args[0] == 1:
        return a
    if a.op == "const" and a.args[0] == -1:
        return neg(b)
    if b.op == "const" and b.args[0] == -1:
        return neg(a)
    return mk("mul", (a, b), a.sort)


def div(a, b):
    a, b = to_real(a), to_real(b)
    n = _bad(a, b)
    if n is not None:
        return n
    if b.op == "const" and b.args[0] != 0:
        if a.op == "const":
            return const(a.args[0] / b.args[0])
        if b.args[0] == 1:
            return a
    return mk("div", (a, b), "R")


def powi(a, n):
    """integer power"""
    n = int(n)
    if a.op == "nan":
        return a
    if n == 0:
        return const(1) if a.sort == "R" else iconst(1)
    if n == 1:
        return a
    if a.op == "const" and (n > 0 or a.args[0] != 0):
        if n > 0:
            return mk("const", (a.args[0] ** n,), a.sort)
        return const(a.args[0] ** n)
    if n < 0:
        return div(const(1), powi(a, -n))
    return mk("pow", (a, n), a.sort)


def fn(name, *args):
    """named real function of real arguments (sqrt, sin, ...)"""
    args = tuple(to_real(a) for a in args)
    n = _bad(*args)
    if n is not None:
        return n
    a = args[0]
    if name == "sqrt":
        if a.op == "const" and a.args[0] >= 0:
            import math
            p, q = a.args[0].numerator, a.args[0].denominator
            rp, rq = math.isqrt(p), math.isqrt(q)
            if rp * rp == p and rq * rq == q:
                return const(Fraction(rp, rq))
    elif name in ("sin", "tan", "sinh", "tanh", "arctan", "arctanh", "cbrt", "arcsin", "arcsinh"):
        if a.op == "const" and a.args[0] == 0:
            return ZERO
    elif name in ("cos", "cosh", "exp"):
        if a.op == "const" and a.args[0] == 0:
            return ONE
    elif name == "abs":
        if a.op == "const":
            return const(abs(a.args[0]))
        if a.op == "neg":
            return fn("abs", a.args[0])
    elif name == "trunc":
        if a.op == "const" and a.args[0].denominator == 1:
            return a
        if a.op == "toreal" or a.op == "trunc":
            return a
    elif name == "mod":
        b = args[1]
        if a.op == "const" and b.op == "const" and b.args[0] != 0:
            return const(a.args[0] % b.args[0])
    return mk(name, args, "R")


def imod(a, b):
    return mk("imod", (a, b), "I")


# ---------------------------------------------------------------- booleans
def lt(a, b):
    a, b = _coerce(a, b)
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if a.op == "const" and b.op == "const":
        return boolean(a.args[0] < b.args[0])
    if a is b:
        return FALSE
    return mk("lt", (a, b), "B")


def le(a, b):
    a, b = _coerce(a, b)
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if a.op == "const" and b.op == "const":
        return boolean(a.args[0] <= b.args[0])
    if a is b and a.sort == "I":
        return TRUE
    return mk("le", (a, b), "B")


def eq(a, b):
    if a.sort == "B" and b.sort == "B":
        if a is b:
            return TRUE
        if a.op in ("true", "false"):
            a, b = b, a
        if b is TRUE:
            return a
        if b is FALSE:
            return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = _coerce(a, b)
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if a.op == "const" and b.op == "const":
        return boolean(a.args[0] == b.args[0])
    if a is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    for x in xs:
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    res, seen = [], set()
    for x in out:
        if x is FALSE:
            return FALSE
        if x is TRUE or x in seen:
            continue
        seen.add(x)
        res.append(x)
    for x in res:
        if not_(x) in seen:
            return FALSE
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return mk("and", tuple(res), "B")


def or_(*xs):
    out = []
    for x in xs:
        if x.op == "or":
            out.extend(x.args)
        else:
            out.append(x)
    res, seen = [], set()
    for x in out:
        if x is TRUE:
            return TRUE
        if x is FALSE or x in seen:
            continue
        seen.add(x)
        res.append(x)
    for x in res:
        if not_(x) in seen:
            return TRUE
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    return mk("or", tuple(res), "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return and_(implies(a, b), implies(b, a))


def isnan(a):
    if a.sort != "R":
        return FALSE
    o = a.op
    if o == "nan":
        return TRUE
    if o in ("const", "pi", "toreal", "inf"):
        return FALSE
    if o == "ite":
        c, x, y = a.args
        return or_(and_(c, isnan(x)), and_(not_(c), isnan(y)))
    if o in ("add", "mul", "neg", "pow", "div", "abs", "sin", "cos", "tan", "arctan",
             "cosh", "sinh", "tanh", "cbrt", "mod", "sqrt", "arctan2", "arccos", "arcsin",
             "arctanh", "log", "exp", "trunc"):
        return or_(*[isnan(x) for x in a.args if isinstance(x, Term)])
    return mk("isnan", (a,), "B")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.sort == "B" and b.sort == "B":
        if a is b:
            return a
        return or_(and_(c, a), and_(not_(c), b))
    if a.sort != b.sort:
        a, b = _coerce(a, b)
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), a.sort)


# ---------------------------------------------------------------- traversal
def rebuild(t, args):
    o = t.op
    if o in ("const", "sym", "true", "false", "pi", "nan", "undef", "inf"):
        return t
    if o == "add":
        return add(*args)
    if o == "neg":
        return neg(*args)
    if o == "mul":
        return mul(*args)
    if o == "div":
        return div(*args)
    if o == "pow":
        return powi(args[0], args[1])
    if o == "lt":
        return lt(*args)
    if o == "le":
        return le(*args)
    if o == "eq":
        return eq(*args)
    if o == "not":
        return not_(*args)
    if o == "and":
        return and_(*args)
    if o == "or":
        return or_(*args)
    if o == "isnan":
        return isnan(*args)
    if o == "ite":
        return ite(*args)
    if o == "toreal":
        return to_real(*args)
    if o == "uf":
        return mk("uf", args, t.sort)
    if o in ("count", "imod"):
        return mk(o, args, t.sort)
    return fn(o, *args)


BOUND = {}      # index of a product axis -> indices of its factors (bound together with it)


def subst(t, mapping, _memo=None):
    """simultaneous replacement of subterms"""
    memo = {} if _memo is None else _memo
    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x in mapping:
            memo[x] = mapping[x]
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, Term) and a not in memo]
        if todo:
            stack.extend(todo)
            continue
        args = tuple(memo[a] if isinstance(a, Term) else a for a in x.args)
        if x.op == "count" and (x.args[1] in mapping or any(j in mapping for j in BOUND.get(x.args[1], ()))):
            memo[x] = x          # bound index
        elif args == x.args:
            memo[x] = x
        else:
            memo[x] = rebuild(x, args)
        stack.pop()
    return memo[t]


def subterms(ts):
    seen = set()
    stack = list(ts) if isinstance(ts, (list, tuple, set)) else [ts]
    out = []
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        stack.extend(a for a in x.args if isinstance(a, Term))
    return out


def syms_of(t):
    if t._syms is None:
        todo = [t]
        while todo:
            x = todo[-1]
            if x._syms is not None:
                todo.pop()
                continue
            ch = [a for a in x.args if isinstance(a, Term)]
            miss = [a for a in ch if a._syms is None]
            if miss:
                todo.extend(miss)
                continue
            s = frozenset().union(*[a._syms for a in ch]) if ch else frozenset()
            if x.op == "sym":
                s = s | {x}
            x._syms = s
            todo.pop()
    return t._syms


def pretty(t, depth=7):
    if not isinstance(t, Term):
        return str(t)
    o = t.op
    if o == "const":
        v = t.args[0]
        if v.denominator == 1:
            return str(v.numerator)
        return repr(float(v)) if Fraction(repr(float(v))) == v else str(v)
    if o == "sym":
        return t.args[0]
    if o in ("pi", "nan", "true", "false", "undef", "inf"):
        return o
    if depth == 0:
        return "..."
    a = [pretty(x, depth - 1) for x in t.args]
    if o == "uf":
        return f"{t.args[0]}({', '.join(a[1:])})"
    inf = {"add": " + ", "mul": "*", "div": "/", "lt": " < ", "le": " <= ", "eq": " == ",
           "and": " and ", "or": " or ", "pow": "**"}
    if o in inf:
        return "(" + inf[o].join(a) + ")"
    return f"{o}({', '.join(a)})"


# ---------------------------------------------------------------- float evaluation
def evalf(t, env, memo=None):
    """floating point value of a term; env maps sym/uf terms to numbers"""
    import math
    memo = {} if memo is None else memo

    def ev(x):
        if x in memo:
            return memo[x]
        if x in env:
            r = env[x]
        else:
            r = ev1(x)
        memo[x] = r
        return r

    def ev1(x):
        o = x.op
        if o == "const":
            return float(x.args[0]) if x.sort == "R" else int(x.args[0])
        if o == "pi":
            return math.pi
        if o in ("nan", "undef"):
            return float("nan")
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "ite":
            return ev(x.args[1]) if ev(x.args[0]) else ev(x.args[2])
        if o == "and":
            return all(ev(a) for a in x.args)
        if o == "or":
            return any(ev(a) for a in x.args)
        a = [ev(y) if isinstance(y, Term) else y for y in x.args]
        if o == "add":
            return a[0] + a[1]
        if o == "neg":
            return -a[0]
        if o == "mul":
            return a[0] * a[1]
        if o == "div":
            return a[0] / a[1] if a[1] != 0 else (float("nan") if a[0] == 0 or a[0] != a[0] else math.copysign(float("inf"), a[0]))
        if o == "pow":
            return a[0] ** a[1]
        if o == "lt":
            return a[0] < a[1]
        if o == "le":
            return a[0] <= a[1]
        if o == "eq":
            return a[0] == a[1]
        if o == "not":
            return not a[0]
        if o == "isnan":
            return a[0] != a[0]
        if o == "toreal":
            return float(a[0])
        if o == "sqrt":
            return math.sqrt(a[0]) if a[0] >= 0 else float("nan")
        if o == "cbrt":
            return math.copysign(abs(a[0]) ** (1 / 3), a[0])
        if o in ("sin", "cos", "tan", "cosh", "sinh", "tanh", "exp"):
            try:
                return getattr(math, o)(a[0])
            except OverflowError:
                return float("inf")
        if o == "arctan":
            return math.atan(a[0])
        if o == "arctan2":
            return math.atan2(a[0], a[1])
        if o in ("arccos", "arcsin"):
            return {"arccos": math.acos, "arcsin": math.asin}[o](a[0]) if abs(a[0]) <= 1 else float("nan")
        if o == "arctanh":
            return math.atanh(a[0]) if abs(a[0]) < 1 else float("nan")
        if o == "arcsinh":
            return math.asinh(a[0])
        if o == "log":
            return math.log(a[0]) if a[0] > 0 else float("nan")
        if o == "abs":
            return abs(a[0])
        if o == "trunc":
            return float(math.trunc(a[0]))
        if o == "mod":
            return a[0] % a[1] if a[1] != 0 else float("nan")
        raise KeyError(f"evalf: {o}")

    import sys
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))
    return ev(t)

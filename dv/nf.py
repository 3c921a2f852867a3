"""Normal forms: equality of terms by polynomial arithmetic over atoms, with the
scaling and periodicity laws of mod and case splits on the conditions of ite.

Used where two computations must agree for every input without knowing what the
functions in them mean (degrees against radians, one column against many,
contracts of callees as uninterpreted functions)."""
from fractions import Fraction

from . import smt, terms as T
from .alg import ONE_M, m_mul, p_add, p_const, p_key, p_mul_raw, p_scale

ATOMS = {}          # term -> index
TERMS = []
POLY = {}           # term -> laurent polynomial in atoms (pi may have negative exponents)


def atom(t):
    i = ATOMS.get(t)
    if i is None:
        i = ATOMS[t] = len(TERMS)
        TERMS.append(t)
    return i


PI = atom(T.PI)
TWO_PI = T.mul(T.const(2), T.PI)


def gen(t, e=1):
    return {((atom(t), e),): 1}


def clean(p):
    return {tuple((g, e) for g, e in m if e): c for m, c in p.items() if c}


def p_mul(a, b):
    r = {}
    for m, c in p_mul_raw(a, b).items():
        m = tuple((g, e) for g, e in m if e)
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def monomial(p):
    """p = c * pi^k ? -> (c, k)"""
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if not m:
        return Fraction(c), 0
    if len(m) == 1 and m[0][0] == PI:
        return Fraction(c), m[0][1]
    return None


def pi_mon(c, k):
    return {((PI, k),) if k else (): c}


def term_of(p):
    """canonical term of a polynomial"""
    key = p_key(p)
    t = _terms.get(key)
    if t is not None:
        return t
    out = T.ZERO
    for m in sorted(p):
        t = T.const(p[m])
        for g, e in m:
            x = TERMS[g]
            for _ in range(abs(e)):
                t = T.mul(t, x) if e > 0 else T.div(t, x)
        out = T.add(out, t)
    _terms[key] = out
    POLY[out] = p
    return out


_terms = {}


class Bad(Exception):
    pass


def poly(t):
    r = POLY.get(t)
    if r is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x in POLY or x.sort == "B" and x in BOOL:
                stack.pop()
                continue
            todo = [a for a in x.args if isinstance(a, T.Term) and a not in POLY and a not in BOOL]
            if todo:
                stack.extend(todo)
                continue
            if x.sort == "B":
                BOOL[x] = _bool(x)
            else:
                POLY[x] = _poly(x)
            stack.pop()
        r = POLY[t]
    return r


BOOL = {}
RULES = []          # rewriting rules for uninterpreted functions (contracts of callees): term -> term or None
NAN_RULES = []      # the same for isnan
NONZERO = None      # a set: divisions by monomials cancel, and the atoms that must not be zero for it are collected here


def reset(nonzero=None):
    global NONZERO
    NONZERO = nonzero
    POLY.clear()
    BOOL.clear()
    _terms.clear()


def nterm(t):
    """normalised term"""
    if t.sort == "B":
        if t not in BOOL:
            for a in t.args:
                if isinstance(a, T.Term):
                    nterm(a)
            BOOL[t] = _bool(t)
        return BOOL[t]
    if t.sort == "I":
        return t
    return term_of(poly(t))


def _bool(t):
    o = t.op
    if o in ("lt", "le", "eq") and t.args[0].sort == "I":
        return t
    if o in ("lt", "le", "eq") and t.args[0].sort == "R":
        p = p_add(poly(t.args[0]), p_scale(poly(t.args[1]), -1))
        if not p:
            return T.boolean(o != "lt")
        # positive scaling: by the leading coefficient and the lowest power of pi
        k = min(dict(m).get(PI, 0) for m in p)
        p = p_mul(p, pi_mon(1, -k)) if k else p
        lead = max(p)
        c = Fraction(p[lead])
        s = abs(c) if o != "eq" else c
        p = p_scale(p, 1 / s)
        return T.rebuild(t, (term_of(p), T.ZERO)) if o != "eq" else T.eq(term_of(p), T.ZERO)
    args = tuple(nterm(a) if isinstance(a, T.Term) else a for a in t.args)
    if o == "isnan":
        for rule in NAN_RULES:
            n = rule(args[0])
            if n is not None:
                return nterm(n)
    return T.rebuild(t, args) if args else t


def flatten(x):
    """representative of x modulo 2 pi: whole revolutions and inner reductions are dropped"""
    while True:
        for m, c in x.items():
            if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
                t = TERMS[m[0][0]]
                if t.op == "mod" and t.args[1] is TWO_PI:
                    x = p_add({k: v for k, v in x.items() if k != m}, p_scale(poly(t.args[0]), c))
                    break
            if m == ((PI, 1),) and not 0 <= c < 2:
                x = dict(x)
                c = Fraction(x.pop(m)) % 2
                if c:
                    x[m] = c
                break
            if len(m) == 2 and (PI, 1) in m and c.denominator == 1 and c % 2 == 0 and \
                    all(g == PI or e == 1 and whole(TERMS[g]) for g, e in m):
                x = {k: v for k, v in x.items() if k != m}
                break
        else:
            return x


def whole(t):
    return t.sort == "I" or t.op == "toreal" or t.op == "trunc"


def _poly(t):
    o = t.op
    if t.sort == "I":
        return gen(t)
    if o == "const":
        return p_const(t.args[0])
    if o == "pi":
        return gen(t)
    if o in ("nan", "undef", "inf"):
        raise Bad(o)
    if o == "add":
        return p_add(poly(t.args[0]), poly(t.args[1]))
    if o == "neg":
        return p_scale(poly(t.args[0]), -1)
    if o == "mul":
        return p_mul(poly(t.args[0]), poly(t.args[1]))
    if o == "pow" and t.args[1] <= 6:
        r = b = poly(t.args[0])
        for _ in range(t.args[1] - 1):
            r = p_mul(r, b)
        return r
    if o == "div":
        d = poly(t.args[1])
        mk = monomial(d)
        if mk and mk[0]:
            return p_mul(poly(t.args[0]), pi_mon(1 / mk[0], -mk[1]))
        if not d:
            raise Bad("division by zero")
        if NONZERO is not None and len(d) == 1:
            (m, c), = d.items()
            NONZERO.update(TERMS[g] for g, _ in m if g != PI)
            return clean(p_mul(poly(t.args[0]), {tuple((g, -k) for g, k in m): 1 / Fraction(c)}))
        inv = gen(T.div(T.ONE, term_of(d)))
        return p_mul(poly(t.args[0]), inv)
    if o == "mod":
        m = monomial(poly(t.args[1]))
        if m and m[0] > 0:
            # mod(x, m) = m/(2 pi) mod(x 2 pi/m, 2 pi), and multiples of 2 pi drop out
            f = pi_mon(2 / m[0], 1 - m[1])
            x = flatten(p_mul(poly(t.args[0]), f))
            if not x:
                return {}
            a = T.fn("mod", term_of(x), TWO_PI)
            return p_mul(gen(a), pi_mon(m[0] / 2, m[1] - 1))
    if o == "sym":
        return gen(t)
    if o in ("sin", "cos"):
        return gen(T.fn(o, term_of(flatten(poly(t.args[0]))))) if flatten(poly(t.args[0])) else p_const(o == "cos")
    args = tuple(nterm(a) if isinstance(a, T.Term) else a for a in t.args)
    if o == "ite":
        r = T.ite(args[0], args[1], args[2])
        if r.op != "ite":
            return poly(r)
        return gen(r)
    if o == "arctan2" and args[0] is T.ZERO and args[1] is T.ZERO:
        return {}
    r = T.rebuild(t, args)
    if o == "uf":
        for rule in RULES:
            n = rule(r)
            if n is not None:
                return poly(n)
    if r.op == "const":
        return p_const(r.args[0])
    if r.op in ("add", "mul", "neg"):
        return gen(r) if r is t else poly(r)
    return gen(r)


def conditions(ts):
    return [x.args[0] for x in T.subterms(ts) if x.op == "ite"]


def equal(x, y, facts=(), depth=9):
    """True if x and y are the same for every value of their atoms under facts"""
    try:
        return _equal(x, y, [f for f in facts], depth)
    except Bad:
        return False


def literals(facts):
    """what these facts decide: condition -> its value"""
    lits = {}
    stack = list(facts)
    while stack:
        g = stack.pop()
        if g.op == "and":
            lits[g] = T.TRUE
            stack.extend(g.args)
        elif g.op == "not":
            lits[g.args[0]] = T.FALSE
            if g.args[0].op == "or":
                stack.extend(T.not_(h) for h in g.args[0].args)
        elif g.args:
            lits[g] = T.TRUE
    return lits


def absorbed(f, lits):
    """conjunctions in f that contain a conjunction known to be false are false, disjunctions that contain a true one are true"""
    known = [(k, frozenset(k.args), v) for k, v in lits.items() if k.op == "and" and v is T.FALSE or k.op == "or" and v is T.TRUE]
    m = {}
    if known:
        for t in T.subterms([f]):
            if t.op in ("and", "or"):
                args = frozenset(t.args)
                for k, ks, v in known:
                    if t.op == k.op and t is not k and ks < args:
                        m[t] = v
    return T.subst(f, m) if m else f


def normal(facts):
    """the facts, and their normal forms (under the literals among them, until nothing changes)"""
    out = list(dict.fromkeys(facts))
    now = []
    for f in out:
        try:
            now.append(nterm(f))
        except Bad:
            now.append(f)
    for _ in range(8):
        new = []
        for j, f in enumerate(now):
            lits = literals(now[:j] + now[j + 1:])
            try:
                new.append(nterm(T.subst(absorbed(f, lits), lits)))
            except Bad:
                new.append(f)
            # the literals a fact states itself stay with it
            if new[-1] is T.FALSE:
                return [T.FALSE]
            out.append(f)
            now[j] = new[-1] if new[-1] is not T.TRUE else f
        if all(x is y for x, y in zip(new, now)):
            break
    return list(dict.fromkeys(out + now))


def _equal(x, y, facts, depth):
    if x is y:
        return True
    x, y = nterm(x), nterm(y)
    if x is y:
        return True
    if x.sort != "B" and poly(x) == poly(y):
        return True
    cs = conditions([x, y])
    if not cs or depth <= 0:
        return not cs and not smt.SOLVER.feasible(normal(facts))
    # an innermost condition
    c = next(c for c in cs if not any(t.op == "ite" for t in T.subterms([c])))
    cases = [(val, lit) for val, lit in ((T.TRUE, c), (T.FALSE, T.not_(c))) if smt.SOLVER.feasible(facts + [lit])]
    for val, lit in cases:
        m = {c: val}
        if lit.op == "and":
            m.update((k, T.TRUE) for k in lit.args)
        if not _equal(T.subst(x, m), T.subst(y, m), facts + [lit], depth - (len(cases) > 1)):
            return False
    return True

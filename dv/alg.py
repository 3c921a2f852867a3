"""Algebraic prover.

Terms are evaluated, under a set of facts, to rational functions over
generators (symbols, sines/cosines of base angles, square roots, ...) modulo the
relations of the generators.  Conditions and signs that the facts do not decide
raise NeedSplit, and the driver proves the goal in both cases.  Division by
zero, roots of negative numbers etc. are Undef, i.e. failures, unless the facts
exclude them."""
import time
from fractions import Fraction
from math import gcd

import z3

from . import terms as T
from .smt import SCALE, SOLVER, run


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class Undef(Exception):
    pass


class Restart(Exception):
    pass


class GiveUp(Exception):
    pass


# ---------------------------------------------------------------- polynomials
# poly: dict monomial -> coefficient (int or Fraction); monomial: tuple of (gen, exp)
ONE_M = ()


def p_const(c):
    c = _n(c)
    return {ONE_M: c} if c else {}


def _n(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def p_gen(g, e=1):
    return {((g, e),): 1}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        ga, gb = a[i][0], b[j][0]
        if ga == gb:
            out.append((ga, a[i][1] + b[j][1]))
            i += 1
            j += 1
        elif ga < gb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def m_div(a, b):
    """a / b or None"""
    if not b:
        return a
    d = dict(a)
    for g, e in b:
        x = d.get(g, 0) - e
        if x < 0:
            return None
        if x:
            d[g] = x
        else:
            d.pop(g)
    return tuple(sorted(d.items()))


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_scale(a, k):
    if not k:
        return {}
    return {m: _n(c * k) for m, c in a.items()}


def p_mul_raw(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            r[k] = v
    return {m: _n(c) for m, c in r.items() if c}


def p_lead(a):
    return max(a, key=lambda m: (sum(e for _, e in m), m))


def lexkey(m, order):
    return m


def p_gens(a):
    s = set()
    for m in a:
        for g, _ in m:
            s.add(g)
    return s


def p_content(a):
    """(rational content > 0, monomial content)"""
    den = 1
    num = 0
    for c in a.values():
        c = Fraction(c)
        den = den * c.denominator // gcd(den, c.denominator)
    for c in a.values():
        num = gcd(num, int(Fraction(c) * den))
    mono = None
    for m in a:
        d = dict(m)
        if mono is None:
            mono = d
        else:
            mono = {g: min(e, d[g]) for g, e in mono.items() if g in d}
        if not mono:
            break
    return Fraction(num, den), tuple(sorted(mono.items())) if mono else ()


def p_primitive(a):
    """a = k * mono * prim, prim has integer coprime coefficients and a positive
    leading coefficient"""
    k, mono = p_content(a)
    prim = {}
    for m, c in a.items():
        prim[m_div(m, mono)] = _n(Fraction(c) / k)
    if prim[p_lead(prim)] < 0:
        prim = p_neg(prim)
        k = -k
    return k, mono, prim


def p_key(a):
    return frozenset(a.items())


def p_divexact(a, b):
    """a / b if b divides a (as polynomials), else None"""
    if not a:
        return {}
    # multivariate division with lex order on sorted generator list
    gens = sorted(p_gens(a) | p_gens(b))
    if not p_gens(b) <= p_gens(a) and p_gens(b):
        return None
    idx = {g: i for i, g in enumerate(gens)}

    def key(m):
        v = [0] * len(gens)
        for g, e in m:
            v[idx[g]] = e
        return v
    lb = max(b, key=key)
    cb = b[lb]
    rest = [(m, c) for m, c in b.items() if m != lb]
    r = dict(a)
    q = {}
    steps = 0
    import heapq
    while r:
        steps += 1
        if steps > 4000:
            return None
        m = max(r, key=key)
        d = m_div(m, lb)
        if d is None:
            return None
        k = _n(Fraction(r.pop(m)) / cb)
        q[d] = k
        for n, c in rest:
            mm = m_mul(n, d)
            v = r.get(mm, 0) - c * k
            if v:
                r[mm] = _n(v)
            else:
                r.pop(mm, None)
    return q


# ---------------------------------------------------------------- rational functions
class Rat:
    __slots__ = ("num", "den")      # den: dict key -> (poly, exp); polys primitive

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}

    def is_const(self):
        return not self.den and (not self.num or list(self.num) == [ONE_M])

    def const(self):
        return Fraction(self.num.get(ONE_M, 0))

    def key(self):
        return (p_key(self.num), frozenset((k, e) for k, (p, e) in self.den.items()))


class Gen:
    __slots__ = ("id", "kind", "data", "term", "name", "rel")

    def __init__(self, id_, kind, data, term, name):
        self.id = id_
        self.kind = kind
        self.data = data
        self.term = term
        self.name = name
        self.rel = None      # (power, poly) : gen**power -> poly

    def __repr__(self):
        return self.name


SIGNS = frozenset((-1, 0, 1))
POS = frozenset((1,))
NEG = frozenset((-1,))
ZER = frozenset((0,))
NN = frozenset((0, 1))
NP_ = frozenset((0, -1))


def s_mul(a, b):
    return frozenset(x * y for x in a for y in b)


def s_pow(a, e):
    return frozenset(x ** e for x in a)


class Shared:
    """kept over the cases of one proof"""

    def __init__(self):
        self.den = {}         # angle monomial key -> denominator
        self.factor = {}


_factor_cache = {}


class Case:
    """one proof case: facts and everything evaluated under them"""

    def __init__(self, facts, shared, deadline):
        self.shared = shared
        self.deadline = deadline
        self.gens = []
        self.by_key = {}
        self.memo = {}
        self.bools = {}
        self.nan = {}
        self.signs = {}          # primitive poly key -> sign set
        self.poly_facts = []     # (poly, sign set)
        self.subst = {}          # term -> Rat
        self.bounds = {}         # gen/monomial key -> [lo, lostrict, hi, histrict] in units of pi
        self.sgn_memo = {}
        self.busy = set()
        self.raw = []
        self.contradiction = False
        self.pending = []
        self.z3_cache = {}
        self.side = []
        for f in facts:
            self.add_fact(f)
        for _ in range(3):
            pend, self.pending = self.pending, []
            if not pend:
                break
            self.memo.clear()
            for f in pend:
                self._literal(f)

    # ------------------------------------------------------------ generators
    def gen(self, key, kind, data=None, term=None, name=None):
        g = self.by_key.get(key)
        if g is None:
            g = Gen(len(self.gens), kind, data, term, name or f"{kind}{len(self.gens)}")
            self.gens.append(g)
            self.by_key[key] = g
        return g

    def reduce(self, p):
        """apply the relations of the generators"""
        while True:
            target = None
            for m in p:
                for g, e in m:
                    r = self.gens[g].rel
                    if r is not None and e >= r[0]:
                        if target is None or g > target:
                            target = g
            if target is None:
                return p
            power, repl = self.gens[target].rel
            out = {}
            cache = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(target, 0)
                if e < power:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                    continue
                q, r = divmod(e, power)
                if r:
                    d[target] = r
                else:
                    d.pop(target)
                base = tuple(sorted(d.items()))
                if q not in cache:
                    x = {ONE_M: 1}
                    for _ in range(q):
                        x = p_mul_raw(x, repl)
                    cache[q] = x
                for n, k in cache[q].items():
                    mm = m_mul(base, n)
                    v = out.get(mm, 0) + c * k
                    if v:
                        out[mm] = _n(v)
                    else:
                        out.pop(mm, None)
            p = out
            if len(p) > 20000:
                raise GiveUp("expression too large")
            self.tick()

    def tick(self):
        if time.process_time() > self.deadline:
            raise GiveUp("time")

    def pmul(self, a, b):
        if len(a) * len(b) > 400000:
            raise GiveUp("expression too large")
        return self.reduce(p_mul_raw(a, b))

    # ------------------------------------------------------------ rationals
    def rat(self, num, den=None):
        """normalise: cancel denominator factors"""
        if not num:
            return Rat({})
        den = dict(den or {})
        if den:
            for k in list(den):
                p, e = den[k]
                while e:
                    if len(p) == 1 and len(num) >= 1:
                        (mono, c), = p.items()
                        if all(m_div(m, mono) is not None for m in num):
                            num = {m_div(m, mono): _n(Fraction(v) / c) for m, v in num.items()}
                            e -= 1
                            continue
                        break
                    q = p_divexact(num, p) if len(num) < 3000 else None
                    if q is None:
                        break
                    num = q
                    e -= 1
                if e:
                    den[k] = (p, e)
                else:
                    del den[k]
        return Rat(num, den)

    def const(self, c):
        return Rat(p_const(c))

    def add(self, a, b):
        if not a.num:
            return b
        if not b.num:
            return a
        if not a.den and not b.den:
            return Rat(p_add(a.num, b.num))
        den = dict(a.den)
        fa, fb = [], []
        for k, (p, e) in b.den.items():
            ea = den[k][1] if k in den else 0
            if e > ea:
                den[k] = (p, e)
                fa.append((p, e - ea))
            elif ea > e:
                fb.append((p, ea - e))
        for k, (p, e) in a.den.items():
            if k not in b.den:
                fb.append((p, e))
        na, nb = a.num, b.num
        for p, e in fa:
            for _ in range(e):
                na = self.pmul(na, p)
        for p, e in fb:
            for _ in range(e):
                nb = self.pmul(nb, p)
        return self.rat(p_add(na, nb), den)

    def neg(self, a):
        return Rat(p_neg(a.num), a.den)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        if not a.num or not b.num:
            return Rat({})
        # cross cancellation first
        if a.den or b.den:
            a, b = self._cross(a, b), self._cross(b, a)
        num = self.pmul(a.num, b.num)
        den = dict(a.den)
        for k, (p, e) in b.den.items():
            den[k] = (p, den[k][1] + e) if k in den else (p, e)
        return self.rat(num, den)

    def _cross(self, a, b):
        """cancel a.num against b.den (b is returned untouched; only used pairwise)"""
        return a

    def pow(self, a, n):
        if n == 0:
            return self.const(1)
        r = a
        for _ in range(n - 1):
            r = self.mul(r, a)
        return r

    def inv(self, a):
        """1/a; a must be provably nonzero"""
        if not a.num:
            raise Undef("division by zero")
        s = self.sgn(a.num)
        if 0 in s:
            self.split_zero(a.num)
        num = {ONE_M: 1}
        for k, (p, e) in a.den.items():
            for _ in range(e):
                num = self.pmul(num, p)
        den = {}
        c, mono, prim = p_primitive(a.num)
        for g, e in mono:
            r = self.gens[g].rel
            if r is not None and e < r[0] and self.gens[g].kind in ("sqrt",):
                # 1/g = g/arg
                x = Rat(num, den)
                x = self.mul(Rat(num), Rat(p_gen(g, r[0] - e)))
                y = self.inv(Rat(self.reduce(p_gen(g, r[0]))))
                rest = self.rat_den_only(mono, g, c, prim)
                return self.mul(self.mul(x, y), rest)
            p = p_gen(g)
            den[p_key(p)] = (p, e)
        if prim != {ONE_M: 1}:
            for p, e in self.split_factors(prim):
                k = p_key(p)
                den[k] = (p, den[k][1] + e) if k in den else (p, e)
        return self.rat(p_scale(num, 1 / Fraction(c)), den)

    def rat_den_only(self, mono, g, c, prim):
        rest = tuple((x, e) for x, e in mono if x != g)
        q = p_mul_raw({rest: _n(Fraction(c))}, prim)
        return self.inv(Rat(q))

    def split_factors(self, prim):
        """factor a denominator cheaply (so that later cancellation works)"""
        if len(prim) > 60 or len(prim) < 2:
            return [(prim, 1)]
        return self.factor(prim)

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def equal(self, a, b):
        return not self.sub(a, b).num

    # ------------------------------------------------------------ factoring
    def factor(self, prim):
        k = p_key(prim)
        names = {g: self.gens[g].name for g in p_gens(prim)}
        ck = k
        r = _factor_cache.get(ck)
        if r is not None:
            return r
        if len(prim) > 150:
            return [(prim, 1)]
        gens = sorted(p_gens(prim))
        import sympy
        xs = sympy.symbols([f"x{g}" for g in gens])
        if len(gens) == 1:
            xs = list(xs)
        ix = {g: i for i, g in enumerate(gens)}
        d = {}
        for m, c in prim.items():
            e = [0] * len(gens)
            for g, x in m:
                e[ix[g]] = x
            d[tuple(e)] = sympy.Rational(Fraction(c).numerator, Fraction(c).denominator)
        try:
            P = sympy.Poly.from_dict(d, *xs)
            c, fs = P.factor_list()
        except Exception:
            _factor_cache[ck] = [(prim, 1)]
            return _factor_cache[ck]
        out = []
        for f, e in fs:
            p = {}
            for mon, cc in f.terms():
                p[tuple((g, int(x)) for g, x in zip(gens, mon) if x)] = _n(Fraction(int(cc.p), int(cc.q)))
            kk, mono, pp = p_primitive(p)
            if mono:
                p2 = {mono: 1}
                if pp == {ONE_M: 1}:
                    out.append((p2, e))
                    continue
            out.append((pp if not mono else p_mul_raw({mono: 1}, pp), e))
        # sign check: product of primitives must equal prim up to a positive factor; restore sign
        _factor_cache[ck] = out
        return out

    # ------------------------------------------------------------ facts
    def add_fact(self, f):
        if f is T.TRUE:
            return
        if f is T.FALSE:
            self.contradiction = True
            return
        if f.op == "and":
            for a in f.args:
                self.add_fact(a)
            return
        self.raw.append(f)
        self._literal(f)

    def _literal(self, f):
        pos = True
        g = f
        if g.op == "not":
            pos, g = False, g.args[0]
        if g.op == "or":
            if not pos:
                for a in g.args:
                    self.add_fact(T.not_(a))
                return
            # unit propagation
            left = []
            for a in g.args:
                v = self.quiet(a)
                if v is True:
                    return
                if v is None:
                    left.append(a)
            if not left:
                self.contradiction = True
            elif len(left) == 1:
                self.add_fact(left[0])
            else:
                self.bools[g] = True
                if f not in self.pending and len(self.pending) < 50:
                    self.pending.append(f)
            return
        if g.op == "and" and not pos:
            self._literal(T.or_(*[T.not_(a) for a in g.args]))
            return
        if g.op in ("sym", "uf", "isnan", "eq") and g.sort == "B" and (g.op != "eq"):
            old = self.bools.get(g)
            if old is not None and old != pos:
                self.contradiction = True
            self.bools[g] = pos
            return
        if g.op in ("lt", "le", "eq"):
            a, b = g.args
            if g.op == "lt":
                rel = POS if pos else NP_
            elif g.op == "le":
                rel = NN if pos else NEG
            else:
                rel = ZER if pos else frozenset((-1, 1))
            try:
                if rel == ZER:
                    if self._equation(a, b):
                        return
                d = self.sub(self.ev(b), self.ev(a))
                sd = POS
                for k, (p, e) in d.den.items():
                    sd = s_mul(sd, s_pow(self.sgn(p), e))
                if sd == POS:
                    self.assert_sign(d.num, rel)
                elif sd == NEG:
                    self.assert_sign(p_neg(d.num), rel)
                elif rel in (ZER, frozenset((-1, 1))):
                    self.assert_sign(d.num, rel)
                else:
                    self.pending.append(f)
            except (NeedSplit, Undef):
                self.pending.append(f)
            return

    def _equation(self, a, b):
        """orient an equation as a substitution when one side is a plain symbol"""
        for x, y in ((a, b), (b, a)):
            if x.op in ("sym", "uf") and x not in self.subst and x.sort == "R":
                if x in set(T.subterms(y)):
                    continue
                r = self.ev(y)
                g = self.by_key.get(("t", x))
                if g is not None and g.id in p_gens(r.num):
                    continue
                if g is not None and any(g.id in p_gens(p) for p, e in r.den.values()):
                    continue
                self.subst[x] = r
                self.memo.clear()
                self.sgn_memo.clear()
                self.rebuild_facts()
                return True
        # sin/cos fact equations are kept as sign facts
        return False

    def rebuild_facts(self):
        raw = [f for f in self.raw]
        self.signs.clear()
        self.poly_facts = []
        self.bounds.clear()
        self.gens = []
        # keep substitutions valid: re-evaluate them on fresh generators
        old = list(self.subst)
        eqs = [f for f in raw if f.op == "eq"]
        self.by_key = {}
        self.memo.clear()
        self.sgn_memo.clear()
        self.subst = {}
        done = []
        for f in eqs:
            a, b = f.args
            for x, y in ((a, b), (b, a)):
                if x in old and x not in self.subst and x not in set(T.subterms(y)):
                    self.subst[x] = self.ev(y)
                    done.append(f)
                    break
        self.memo.clear()
        rest = [f for f in raw if f not in done]
        self.pending = []
        for f in rest:
            self._literal(f)

    def assert_sign(self, poly, rel):
        if not poly:
            if 0 not in rel:
                self.contradiction = True
            return
        k, mono, prim = p_primitive(poly)
        s = POS if k > 0 else NEG
        for g, e in mono:
            s = s_mul(s, s_pow(self.gen_sign(g), e))
        if prim == {ONE_M: 1}:
            # monomial: information on its generators
            sg = POS if k > 0 else NEG
            rel2 = frozenset(x for x in SIGNS if s_mul(sg, frozenset((x,))) <= rel)
            self._assert_mono(mono, rel2)
            return
        # divide out monomial factors of known definite sign
        if s == POS or s == NEG:
            sg = 1 if s == POS else -1
            r = frozenset(x * sg for x in rel)
            self._store(prim, r)
        else:
            q = p_mul_raw({mono: 1}, prim) if mono else prim
            sg = 1 if k > 0 else -1
            self._store(q, frozenset(x * sg for x in rel))
        self._bound(poly, rel)
        self.sgn_memo.clear()
        self.z3_cache.clear()

    def _assert_mono(self, mono, rel):
        # strip generators of definite sign
        rest = []
        sg = 1
        for g, e in mono:
            s = s_pow(self.gen_sign(g), e)
            if s == POS:
                continue
            if s == NEG:
                sg = -sg
                continue
            rest.append((g, e))
        rel = frozenset(x * sg for x in rel)
        if not rest:
            if 1 not in rel:
                self.contradiction = True
            return
        if len(rest) == 1:
            g, e = rest[0]
            if e % 2 == 0:
                if rel == ZER:
                    r = ZER
                elif 0 not in rel:
                    r = frozenset((-1, 1))
                else:
                    return
            else:
                r = rel
            p = p_gen(g)
            self._store(p, r)
            self._bound(p, r)
        else:
            p = {tuple(rest): 1}
            self._store(p, rel)
            if 0 not in rel:
                for g, e in rest:
                    self._store(p_gen(g), frozenset((-1, 1)))
        self.sgn_memo.clear()
        self.z3_cache.clear()

    def _store(self, p, rel):
        k = p_key(p)
        cur = self.signs.get(k, SIGNS) & rel
        self.signs[k] = cur
        if not cur:
            self.contradiction = True
        self.poly_facts = [(q, s) for q, s in self.poly_facts if p_key(q) != k]
        self.poly_facts.append((p, cur))
        gs = p_gens(p)
        if len(p) == 1 and cur == ZER and len(gs) == 1:
            g = self.gens[next(iter(gs))]
            if g.kind in ("cos", "sin") and g.rel is None:
                pass

    def _bound(self, poly, rel):
        """bounds of angle-like monomials in units of pi: poly = q*m + r*PI (+ c)"""
        pi = self.by_key.get(("pi",))
        mono, q, r, c = None, None, Fraction(0), Fraction(0)
        for m, k in poly.items():
            if m == ONE_M:
                c = Fraction(k)
            elif pi is not None and m == ((pi.id, 1),):
                r = Fraction(k)
            elif mono is None:
                mono, q = m, Fraction(k)
            else:
                return
        if mono is None:
            return
        if c:
            # numbers are compared with multiples of pi through rational bounds
            r_lo = r + (c / Fraction("3.14159265358980") if c > 0 else c / Fraction("3.14159265358979"))
            r_hi = r + (c / Fraction("3.14159265358979") if c > 0 else c / Fraction("3.14159265358980"))
        else:
            r_lo = r_hi = r
        b = self.bounds.setdefault(mono, [None, False, None, False])
        # q*m + r*pi in rel
        if rel in (POS, NN, ZER):
            self._upd(b, q, r_hi, rel == POS)
        if rel in (NEG, NP_, ZER):
            self._upd(b, -q, -r_lo, rel == NEG)
        if rel == frozenset((-1, 1)):
            v = -r / q
            if c == 0:
                if b[0] == v:
                    b[1] = True
                if b[2] == v:
                    b[3] = True

    @staticmethod
    def _upd(b, q, r, strict):
        # q*m + r*pi >= 0 (or > 0)
        v = -r / q
        if q > 0:
            if b[0] is None or v > b[0] or (v == b[0] and strict):
                b[0], b[1] = v, strict
        else:
            if b[2] is None or v < b[2] or (v == b[2] and strict):
                b[2], b[3] = v, strict

    # ------------------------------------------------------------ bounds
    def mono_bounds(self, m):
        b = list(self.bounds.get(m, [None, False, None, False]))
        if len(m) == 1 and m[0][1] == 1:
            g = self.gens[m[0][0]]
            for lo, ls, hi, hs in self.kind_bounds(g):
                if lo is not None and (b[0] is None or lo > b[0] or (lo == b[0] and ls)):
                    b[0], b[1] = lo, ls
                if hi is not None and (b[2] is None or hi < b[2] or (hi == b[2] and hs)):
                    b[2], b[3] = hi, hs
        elif len(m) == 2:
            pi = self.by_key.get(("pi",))
            if pi is not None and (pi.id, 1) in m:
                g = [x for x in m if x[0] != pi.id][0]
                if g[1] == 1 and self.gens[g[0]].kind == "frac":
                    return [Fraction(0), False, Fraction(1), True]
        return b

    def kind_bounds(self, g):
        H = Fraction(1, 2)
        if g.kind == "arctan":
            s = self.sgn_quiet(g.data.num)
            return [(-H if -1 in s else Fraction(0), -1 in s or 0 not in s,
                     H if 1 in s else Fraction(0), 1 in s or 0 not in s)]
        if g.kind == "arccos":
            x = g.data
            lo, ls, hi, hs = Fraction(0), False, Fraction(1), False
            s = self.rsgn_quiet(x)
            if -1 not in s:
                hi, hs = H, 0 not in s
            elif 1 not in s:
                lo, ls = H, 0 not in s
            if lo == 0 and 0 not in self.rsgn_quiet(self.sub(self.const(1), x)):
                ls = True
            if hi == 1 and 0 not in self.rsgn_quiet(self.add(self.const(1), x)):
                hs = True
            return [(lo, ls, hi, hs)]
        if g.kind == "arcsin":
            return [(-H, False, H, False)]
        if g.kind == "arctan2":
            y, x = g.data
            s = self.rsgn_quiet(y)
            lo, ls, hi, hs = Fraction(-1), True, Fraction(1), False
            if -1 not in s:
                lo, ls = Fraction(0), s == POS
                if s == POS:
                    hs = True
            if s == NEG:
                hi, hs = Fraction(0), True
            if s == ZER:
                hi = Fraction(1)
                lo, ls = Fraction(0), False
            return [(lo, ls, hi, hs)]
        return []

    def poly_bounds(self, p):
        """interval of a linear combination, in units of pi"""
        pi = self.by_key.get(("pi",))
        lo = hi = Fraction(0)
        ls = hs = False
        for m, c in p.items():
            c = Fraction(c)
            if pi is not None and m == ((pi.id, 1),):
                b = [Fraction(1), False, Fraction(1), False]
            elif m == ONE_M:
                b = [1 / Fraction("3.14159265358980"), True, 1 / Fraction("3.14159265358979"), True]
            else:
                b = self.mono_bounds(m)
            x = b if c > 0 else [b[2], b[3], b[0], b[1]]
            lo = None if lo is None or x[0] is None else lo + c * x[0]
            hi = None if hi is None or x[2] is None else hi + c * x[2]
            ls = ls or x[1]
            hs = hs or x[3]
        return lo, ls, hi, hs

    # ------------------------------------------------------------ signs
    def gen_sign(self, g):
        s = SIGNS
        k = p_key(p_gen(g))
        if k in self.signs:
            s = s & self.signs[k]
        gen = self.gens[g]
        kind = gen.kind
        if kind in ("pi", "cosh", "exp"):
            s = s & POS
        elif kind in ("sqrt",):
            s = s & NN
            if 0 in s and ("gs", g) not in self.busy:
                self.busy.add(("gs", g))
                try:
                    if 0 not in self.sgn_quiet(gen.rel[1]):
                        s = s & POS
                finally:
                    self.busy.discard(("gs", g))
        elif kind == "cbrt":
            if ("gs", g) not in self.busy:
                self.busy.add(("gs", g))
                try:
                    s = s & self.sgn_quiet(gen.rel[1])
                finally:
                    self.busy.discard(("gs", g))
        elif kind in ("sin", "cos"):
            mono, D = gen.data
            lo, ls, hi, hs = self._scaled_bounds(mono, D)
            s = s & trig_sign(kind, lo, ls, hi, hs)
        elif kind == "sinh":
            p, D = gen.data
            if ("gs", g) not in self.busy:
                self.busy.add(("gs", g))
                try:
                    s = s & self.sgn_quiet({p: 1})
                finally:
                    self.busy.discard(("gs", g))
        elif kind == "frac":
            s = s & NN
        elif kind in ("arctan", "arccos", "arctan2", "arcsin", "sym"):
            b = self.mono_bounds(((g, 1),))
            if b[0] is not None and (b[0] > 0 or (b[0] == 0 and b[1])):
                s = s & POS
            elif b[0] is not None and b[0] == 0:
                s = s & NN
            if b[2] is not None and (b[2] < 0 or (b[2] == 0 and b[3])):
                s = s & NEG
            elif b[2] is not None and b[2] == 0:
                s = s & NP_
        return s

    def _scaled_bounds(self, mono, D):
        b = self.mono_bounds(mono) if not isinstance(mono, Rat) else [None, False, None, False]
        lo = None if b[0] is None else b[0] / D
        hi = None if b[2] is None else b[2] / D
        return lo, b[1], hi, b[3]

    def sgn_quiet(self, p):
        try:
            return self.sgn(p, deep=False)
        except (NeedSplit, Undef, GiveUp):
            return SIGNS

    def rsgn_quiet(self, r):
        try:
            s = self.sgn(r.num, deep=False)
            for k, (p, e) in r.den.items():
                s = s_mul(s, s_pow(self.sgn(p, deep=False), e))
            return s
        except (NeedSplit, Undef, GiveUp):
            return SIGNS

    def rsgn(self, r):
        s = self.sgn(r.num)
        for k, (p, e) in r.den.items():
            s = s_mul(s, s_pow(self.sgn(p), e))
        return s

    def sgn(self, p, deep=True):
        """possible signs of a polynomial under the facts"""
        if not p:
            return ZER
        if list(p) == [ONE_M]:
            return POS if p[ONE_M] > 0 else NEG
        key = (p_key(p), deep)
        r = self.sgn_memo.get(key)
        if r is not None:
            return r
        k, mono, prim = p_primitive(p)
        s = POS if k > 0 else NEG
        for g, e in mono:
            s = s_mul(s, s_pow(self.gen_sign(g), e))
        if mono and len(mono) > 1 and len(s) > 1:
            km = self.signs.get(p_key({mono: 1}))
            if km is not None:
                s = s & s_mul(km, POS if k > 0 else NEG)
        if prim != {ONE_M: 1}:
            sp = self._sgn_prim(prim, deep)
            if len(sp) > 1 and mono:
                q = self.signs.get(p_key(p_mul_raw({mono: 1}, prim)))
                if q is not None:
                    s2 = s_mul(q, POS if k > 0 else NEG)
                    r = s_mul(s, sp) & s2
                    self.sgn_memo[key] = r
                    return r
            s = s_mul(s, sp)
        elif len(s) > 1 and deep and mono:
            s = s & self._sgn_z3(p)
        self.sgn_memo[key] = s
        return s

    def _sgn_prim(self, prim, deep):
        s = self.signs.get(p_key(prim), SIGNS)
        if len(s) == 1:
            return s
        # linear in angles
        lo, ls, hi, hs = self.poly_bounds(prim)
        if lo is not None and (lo > 0 or (lo == 0 and ls)):
            return POS
        if hi is not None and (hi < 0 or (hi == 0 and hs)):
            return NEG
        if lo is not None and lo == 0:
            s = s & NN
        if hi is not None and hi == 0:
            s = s & NP_
        # sum of terms of one sign
        tot = None
        strict = False
        ok = True
        for m, c in prim.items():
            t = POS if c > 0 else NEG
            for g, e in m:
                t = s_mul(t, s_pow(self.gen_sign(g), e))
            if t == ZER:
                continue
            if -1 not in t:
                d = 1
            elif 1 not in t:
                d = -1
            else:
                ok = False
                break
            if tot is None:
                tot = d
            elif tot != d:
                ok = False
                break
            if 0 not in t:
                strict = True
        if ok:
            if tot is None:
                return ZER
            r = frozenset((tot,)) if strict else frozenset((tot, 0))
            s = s & r
            if len(s) == 1:
                return s
        # differences of facts: prim + fact combinations of one sign
        for q, rel in self.poly_facts:
            if len(q) < 2 or rel not in (POS, NN, NEG, NP_):
                continue
            if len(s) == 1:
                break
            sign = 1 if rel in (POS, NN) else -1
            # prim = a*q + rest with a>0 or <0 such that rest has one sign
            for a in self._ratios(prim, q):
                rest = p_add(prim, p_scale(q, -a))
                rs = self._simple_sign(rest)
                tsign = (1 if a > 0 else -1) * sign
                if rs is None:
                    continue
                if tsign > 0 and -1 not in rs:
                    s = s & (POS if (0 not in rel or 0 not in rs) else NN)
                if tsign < 0 and 1 not in rs:
                    s = s & (NEG if (0 not in rel or 0 not in rs) else NP_)
        if len(s) == 1 or not deep:
            if len(s) > 1 and len(prim) <= 12:
                fs = self.factor(prim)
                if len(fs) > 1 or fs[0][1] > 1:
                    s = s & self._sgn_factors(prim, fs, deep)
            return s
        if len(prim) <= 60:
            fs = self.factor(prim)
            if len(fs) > 1 or fs[0][1] > 1:
                s = s & self._sgn_factors(prim, fs, deep)
                if len(s) == 1:
                    return s
        s = s & self._sgn_z3(prim)
        return s

    def _sgn_factors(self, prim, fs, deep):
        lead = {ONE_M: 1}
        c = Fraction(1)
        t = POS
        prod = {ONE_M: 1}
        for f, e in fs:
            t = s_mul(t, s_pow(self.sgn(f, deep), e))
            for _ in range(e):
                prod = p_mul_raw(prod, f)
        # overall sign between prim and the product of the factors
        m = next(iter(prod))
        if m in prim:
            if Fraction(prim[m]) / Fraction(prod[m]) < 0:
                t = s_mul(t, NEG)
        else:
            return SIGNS
        return t

    def _ratios(self, p, q):
        out = []
        for m, c in q.items():
            if m in p and m != ONE_M:
                r = Fraction(p[m]) / Fraction(c)
                if r not in out:
                    out.append(r)
            if len(out) >= 3:
                break
        return out

    def _simple_sign(self, p):
        if not p:
            return ZER
        tot = ZER
        for m, c in p.items():
            t = POS if c > 0 else NEG
            for g, e in m:
                t = s_mul(t, s_pow(self.gen_sign(g), e))
            if tot == ZER:
                tot = t
            elif t == ZER:
                pass
            elif -1 not in tot and -1 not in t:
                tot = POS if (0 not in tot or 0 not in t) else NN
            elif 1 not in tot and 1 not in t:
                tot = NEG if (0 not in tot or 0 not in t) else NP_
            else:
                return None
        return tot

    # ------------------------------------------------------------ z3 for signs
    def _z3poly(self, p, xs):
        terms = []
        for m, c in p.items():
            c = Fraction(c)
            e = z3.RealVal(f"{c.numerator}/{c.denominator}") if c.denominator != 1 else z3.RealVal(c.numerator)
            for g, k in m:
                for _ in range(k):
                    e = e * xs(g)
            terms.append(e)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def z3_facts(self, gens, xs):
        """relations and facts about the given generators"""
        todo = list(gens)
        seen = set(todo)
        out = []
        pending = list(self.poly_facts)
        while todo:
            g = todo.pop()
            gen = self.gens[g]
            if gen.kind == "pi":
                out += [xs(g) > z3.RealVal("3.14159265358979"), xs(g) < z3.RealVal("3.1415926535898")]
            if gen.rel is not None:
                power, poly = gen.rel
                x = xs(g)
                for _ in range(power - 1):
                    x = x * xs(g)
                out.append(x == self._z3poly(poly, xs))
                for h in p_gens(poly):
                    if h not in seen:
                        seen.add(h)
                        todo.append(h)
            if gen.kind in ("sin", "cos"):
                out += [xs(g) <= 1, xs(g) >= -1]
                mate = gen.rel is None and self.by_key.get(("sin",) + tuple(self._tkey(gen)))
                if mate and mate.id not in seen:
                    seen.add(mate.id)
                    todo.append(mate.id)
            if gen.kind == "cosh":
                out.append(xs(g) >= 1)
            s = self.gen_sign(g)
            if s == POS:
                out.append(xs(g) > 0)
            elif s == NEG:
                out.append(xs(g) < 0)
            elif s == NN:
                out.append(xs(g) >= 0)
            elif s == NP_:
                out.append(xs(g) <= 0)
            elif s == ZER:
                out.append(xs(g) == 0)
            elif s == frozenset((-1, 1)):
                out.append(xs(g) != 0)
            b = self.bounds.get(((g, 1),))
            if b:
                pi = z3.Real("g_pi")
                if b[0] is not None:
                    v = z3.RealVal(f"{b[0].numerator}/{b[0].denominator}") * pi
                    out.append(xs(g) > v if b[1] else xs(g) >= v)
                if b[2] is not None:
                    v = z3.RealVal(f"{b[2].numerator}/{b[2].denominator}") * pi
                    out.append(xs(g) < v if b[3] else xs(g) <= v)
                out += [pi > z3.RealVal("3.14159265358979"), pi < z3.RealVal("3.1415926535898")]
            for q, rel in list(pending):
                gs = p_gens(q)
                if g in gs and len(gs) <= 6:
                    pending.remove((q, rel))
                    for h in gs:
                        if h not in seen:
                            seen.add(h)
                            todo.append(h)
                    e = self._z3poly(q, xs)
                    out.append({POS: e > 0, NEG: e < 0, NN: e >= 0, NP_: e <= 0, ZER: e == 0,
                                frozenset((-1, 1)): e != 0}.get(rel, z3.BoolVal(True)))
        return out

    def _tkey(self, gen):
        return (gen.data[0], gen.data[1])

    def _sgn_z3(self, p):
        k = p_key(p)
        if k in self.z3_cache:
            return self.z3_cache[k]
        self.tick()
        names = {}

        def xs(g):
            return z3.Real("g_pi" if self.gens[g].kind == "pi" else f"g{g}")
        if len(p) > 80:
            return SIGNS
        facts = self.z3_facts(p_gens(p), xs)
        e = self._z3poly(p, xs)
        res = set()
        budget = 1500 * SCALE[0]
        # can it be <0, ==0, >0 ?
        for sg, c in ((-1, e < 0), (0, e == 0), (1, e > 0)):
            s = z3.SolverFor("QF_NRA")
            s.add(*facts)
            s.add(c)
            r = run(s, budget)
            if r != "unsat":
                res.add(sg)
            if r == "unknown":
                budget = 400 * SCALE[0]
        r = frozenset(res)
        if not r:
            self.contradiction = True
            r = SIGNS
        self.z3_cache[k] = r
        return r

    # ------------------------------------------------------------ splitting
    def split_zero(self, p):
        """p may be zero: ask for the case distinction"""
        k, mono, prim = p_primitive(p)
        for g, e in mono:
            if 0 in self.gen_sign(g):
                self.split_gen(g)
        if prim != {ONE_M: 1} and 0 in self.sgn(prim):
            fs = self.factor(prim) if len(prim) <= 60 else [(prim, 1)]
            for f, e in fs:
                if 0 in self.sgn(f):
                    gs = p_gens(f)
                    t = self.poly_term(f)
                    raise NeedSplit(T.eq(t, T.ZERO))
        raise NeedSplit(T.eq(self.poly_term(p), T.ZERO))

    def split_sign(self, p):
        """sign of p is needed"""
        k, mono, prim = p_primitive(p)
        for g, e in mono:
            if len(s_pow(self.gen_sign(g), e)) > 1:
                self.split_gen(g)
        if prim != {ONE_M: 1} and len(self.sgn(prim)) > 1:
            fs = self.factor(prim) if len(prim) <= 60 else [(prim, 1)]
            for f, e in fs:
                sf = self.sgn(f)
                if len(s_pow(sf, e)) > 1:
                    if len(f) == 1:
                        for m in f:
                            for g, ee in m:
                                if len(s_pow(self.gen_sign(g), ee * e)) > 1:
                                    self.split_gen(g)
                    t = self.poly_term(f)
                    if sf == NN or sf == NP_ or e % 2 == 0:
                        raise NeedSplit(T.eq(t, T.ZERO))
                    raise NeedSplit(T.lt(t, T.ZERO))
        t = self.poly_term(p)
        raise NeedSplit(T.lt(t, T.ZERO))

    def split_gen(self, g):
        gen = self.gens[g]
        if gen.kind in ("sin", "cos"):
            mono, D = gen.data
            if not isinstance(mono, Rat):
                b = self.mono_bounds(mono)
                if b[0] is not None and b[2] is not None:
                    lo, hi = b[0] / D, b[2] / D
                    off = Fraction(0) if gen.kind == "sin" else Fraction(1, 2)
                    import math
                    k = math.floor(lo - off)
                    pts = []
                    while k + off <= hi:
                        if k + off >= lo:
                            pts.append(k + off)
                        k += 1
                    mt = self.mono_term(mono)
                    inner = [x for x in pts if lo < x < hi]
                    if inner:
                        x = inner[len(inner) // 2]
                        raise NeedSplit(T.le(mt, T.mul(T.const(x * D), T.PI)))
                    for x in pts:
                        if (x == lo and not b[1]) or (x == hi and not b[3]):
                            raise NeedSplit(T.eq(mt, T.mul(T.const(x * D), T.PI)))
        if gen.kind == "sqrt":
            self.split_zero(gen.rel[1])
        s = self.gen_sign(g)
        t = self.mono_term(((g, 1),))
        if s in (NN, NP_):
            raise NeedSplit(T.eq(t, T.ZERO))
        raise NeedSplit(T.lt(t, T.ZERO))

    # ------------------------------------------------------------ back to terms
    def gen_term(self, g):
        gen = self.gens[g]
        if gen.term is not None:
            return gen.term
        k = gen.kind
        if k in ("sin", "cos", "sinh", "cosh"):
            mono, D = gen.data
            a = self.mono_term(mono) if not isinstance(mono, Rat) else self.rat_term(mono)
            return T.fn(k, T.div(a, T.const(D)))
        if k == "sqrt":
            return T.fn("sqrt", self.poly_term(gen.rel[1]))
        if k == "cbrt":
            return T.fn("cbrt", self.poly_term(gen.rel[1]))
        if k in ("arctan", "arccos", "arcsin", "arctanh", "log", "exp", "arcsinh", "arccosh"):
            return T.fn(k, self.rat_term(gen.data))
        if k == "arctan2":
            return T.fn("arctan2", self.rat_term(gen.data[0]), self.rat_term(gen.data[1]))
        if k == "frac":
            u = self.rat_term(gen.data)
            return T.fn("mod", u, T.ONE)
        raise GiveUp(f"no term for {k}")

    def mono_term(self, m):
        t = T.ONE
        for g, e in m:
            t = T.mul(t, T.powi(self.gen_term(g), e))
        return t

    def poly_term(self, p):
        t = T.ZERO
        for m, c in sorted(p.items(), key=lambda x: str(x[0])):
            t = T.add(t, T.mul(T.const(Fraction(c)), self.mono_term(m)))
        return t

    def rat_term(self, r):
        t = self.poly_term(r.num)
        for k, (p, e) in r.den.items():
            t = T.div(t, T.powi(self.poly_term(p), e))
        return t

    # ------------------------------------------------------------ evaluation
    def quiet(self, c):
        try:
            return self.decide(c)
        except (NeedSplit, Undef, GiveUp):
            return None

    def decide(self, c):
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        if c in self.bools:
            return self.bools[c]
        o = c.op
        if o == "not":
            return not self.decide(c.args[0])
        if o in ("and", "or"):
            absorbing = o == "or"
            pend = None
            for a in c.args:
                try:
                    if self.decide(a) == absorbing:
                        return absorbing
                except NeedSplit as e:
                    pend = pend or e
            if pend:
                raise pend
            return not absorbing
        if o in ("lt", "le", "eq"):
            a, b = c.args
            d = self.sub(self.ev(b), self.ev(a))
            if o == "eq" and not d.num:
                return True
            s = self.rsgn(d)
            if o == "lt":
                if s == POS:
                    return True
                if 1 not in s:
                    return False
            elif o == "le":
                if -1 not in s:
                    return True
                if s == NEG:
                    return False
            else:
                if s == ZER:
                    return True
                if 0 not in s:
                    return False
            # undecided
            if o == "eq" or s in (NN, NP_):
                for p in [d.num]:
                    self.split_zero(p)
            if o == "lt" and s == frozenset((0, 1)):
                self.split_zero(d.num)
            for k, (p, e) in d.den.items():
                if len(s_pow(self.sgn(p), e)) > 1:
                    self.split_sign(p)
            self.split_sign(d.num)
        if o == "isnan":
            return False
        if o == "undef":
            raise Undef("uninitialised value used as a condition")
        if o in ("sym", "uf"):
            raise NeedSplit(c)
        if o == "ite":
            return self.decide(c.args[1] if self.decide(c.args[0]) else c.args[2])
        raise GiveUp(f"condition {o}")

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            self.tick()
            r = self._ev(t)
            self.memo[t] = r
        return r

    def _ev(self, t):
        if t in self.subst:
            return self.subst[t]
        o = t.op
        if o == "const":
            return self.const(t.args[0])
        if o == "pi":
            return Rat(p_gen(self.gen(("pi",), "pi", None, t, "pi").id))
        if o in ("sym", "uf"):
            return Rat(p_gen(self.gen(("t", t), "sym", None, t, T.pretty(t)).id))
        if o == "count":
            return Rat(p_gen(self.gen(("t", t), "sym", None, t, "count").id))
        if o == "toreal":
            return self.ev(t.args[0])
        if o == "ite":
            return self.ev(t.args[1] if self.decide(t.args[0]) else t.args[2])
        if o == "add":
            # flatten to keep recursion shallow
            return self.add(self.ev(t.args[0]), self.ev(t.args[1]))
        if o == "neg":
            return self.neg(self.ev(t.args[0]))
        if o == "mul":
            return self.mul(self.ev(t.args[0]), self.ev(t.args[1]))
        if o == "div":
            return self.div(self.ev(t.args[0]), self.ev(t.args[1]))
        if o == "pow":
            return self.pow(self.ev(t.args[0]), t.args[1])
        if o == "nan":
            raise Undef("NaN")
        if o == "undef":
            raise Undef("uninitialised memory")
        if o == "inf":
            raise Undef("infinity")
        f = getattr(self, "f_" + o, None)
        if f is None:
            return self.opaque(o, [self.ev(a) for a in t.args])
        return f(*[self.ev(a) for a in t.args])

    def opaque(self, o, args):
        key = (o,) + tuple(a.key() for a in args)
        g = self.by_key.get(key)
        if g is None:
            term = T.fn(o, *[self.rat_term(a) for a in args])
            g = self.gen(key, "sym", None, term, f"{o}{len(self.gens)}")
        return Rat(p_gen(g.id))

    # roots -----------------------------------------------------------
    def f_sqrt(self, x):
        if not x.num:
            return x
        s = self.rsgn(x)
        if -1 in s:
            if s == NEG:
                raise Undef("square root of a negative number")
            for k, (p, e) in x.den.items():
                if len(s_pow(self.sgn(p), e)) > 1:
                    self.split_sign(p)
            self.split_sign(x.num)
        # sqrt(n/d) = sqrt(n*d')/|..|
        outside = self.const(1)      # factors pulled out
        inside = {ONE_M: 1}
        coef = Fraction(1)
        c, mono, prim = p_primitive(x.num)
        parts = []                   # (poly, exponent)
        for g, e in mono:
            parts.append((p_gen(g), e))
        if prim != {ONE_M: 1}:
            fs = self.factor(prim)
            prod = {ONE_M: 1}
            for f, e in fs:
                for _ in range(e):
                    prod = p_mul_raw(prod, f)
            m = next(iter(prod))
            coef = Fraction(prim.get(m, 0)) / Fraction(prod[m]) if m in prim else None
            if coef is None:
                parts.append((prim, 1))
                coef = Fraction(1)
            else:
                parts.extend(fs)
        coef = coef * c
        for k, (p, e) in x.den.items():
            parts.append((p, -e))
        # combine (1-c)(1+c) = s^2 and (C-1)(C+1) = S^2
        parts, sign = self._pairs(parts)
        coef = coef * sign
        num_in, den_in = [], []
        for p, e in parts:
            q, r = divmod(abs(e), 2)
            if r and e < 0:
                q += 1          # 1/p = p / p^2
            if q:
                a = self.absp(p)
                y = self.pow(a, q)
                outside = self.mul(outside, y if e > 0 else self.inv(y))
            if r:
                inside = self.pmul(inside, p)
        # rational coefficient
        n, d = abs(coef).numerator, abs(coef).denominator
        rn, rd = _isq(n), _isq(d)
        out_c, in_c = _sqrt_frac(abs(coef))
        outside = self.mul(outside, self.const(out_c))
        inside = p_scale(inside, in_c * (1 if coef > 0 else -1))
        inside = self.reduce(inside)
        if list(inside) == [ONE_M] and inside[ONE_M] == 1:
            return outside
        key = ("sqrt", p_key(inside))
        g = self.by_key.get(key)
        if g is None:
            g = self.gen(key, "sqrt", None, None, f"sqrt{len(self.gens)}")
            g.rel = (2, inside)
        return self.mul(outside, Rat(p_gen(g.id)))

    def _pairs(self, parts):
        """replace (1-c^2) factors by squares of sines"""
        sign = 1
        d = {}
        order = []
        for p, e in parts:
            k, mono, q = p_primitive(p)
            kk = p_key(p)
            if kk in d:
                d[kk] = (p, d[kk][1] + e)
            else:
                d[kk] = (p, e)
                order.append(kk)
        for g in list(self.gens):
            if g.kind in ("sin", "sinh"):
                cg = self._mate(g)
                if cg is None:
                    continue
                plus = {((cg.id, 1),): 1, ONE_M: 1}
                minus = {((cg.id, 1),): 1, ONE_M: -1}
                kp, km = p_key(plus), p_key(minus)
                if kp in d and km in d:
                    ep, em = d[kp][1], d[km][1]
                    if (ep > 0) == (em > 0) and ep and em:
                        e = min(abs(ep), abs(em))
                        sg = 1 if ep > 0 else -1
                        d[kp] = (plus, ep - sg * e)
                        d[km] = (minus, em - sg * e)
                        sp = p_gen(g.id)
                        ks = p_key(sp)
                        d[ks] = (sp, d.get(ks, (sp, 0))[1] + 2 * sg * e)
                        if ks not in order:
                            order.append(ks)
                        # (c-1)(c+1) = -s^2 for the sine
                        if g.kind == "sin" and e % 2:
                            sign = -sign
        return [d[k] for k in order if d[k][1]], sign

    def _mate(self, g):
        k = "cos" if g.kind == "sin" else "cosh"
        return self.by_key.get((k, g.data[0], g.data[1]) if not isinstance(g.data[0], Rat) else (k, g.data[0].key(), g.data[1]))

    def absp(self, p):
        s = self.sgn(p)
        if -1 not in s:
            return Rat(p)
        if 1 not in s:
            return Rat(p_neg(p))
        self.split_sign(p)

    def f_abs(self, x):
        s = self.rsgn(x)
        if -1 not in s:
            return x
        if 1 not in s:
            return self.neg(x)
        for k, (p, e) in x.den.items():
            if len(s_pow(self.sgn(p), e)) > 1:
                self.split_sign(p)
        self.split_sign(x.num)

    def f_cbrt(self, x):
        if x.is_const():
            v = x.const()
            n, d = _icbrt(v.numerator), _icbrt(v.denominator)
            if n is not None and d is not None:
                return self.const(Fraction(n, d))
        outside = self.const(1)
        inside = {ONE_M: 1}
        c, mono, prim = p_primitive(x.num)
        parts = [(p_gen(g), e) for g, e in mono]
        if prim != {ONE_M: 1}:
            fs = self.factor(prim)
            prod = {ONE_M: 1}
            for f, e in fs:
                for _ in range(e):
                    prod = p_mul_raw(prod, f)
            m = next(iter(prod))
            if m in prim and len(prod) == len(prim):
                c = c * Fraction(prim[m]) / Fraction(prod[m])
                parts.extend(fs)
            else:
                parts.append((prim, 1))
        for k, (p, e) in x.den.items():
            parts.append((p, -e))
        for p, e in parts:
            q, r = divmod(e, 3)
            if q > 0:
                outside = self.mul(outside, self.pow(Rat(p), q))
            elif q < 0:
                outside = self.mul(outside, self.inv(self.pow(Rat(p), -q)))
            for _ in range(r):
                inside = self.pmul(inside, p)
        n, d = _icbrt(Fraction(c).numerator), _icbrt(Fraction(c).denominator)
        if n is not None and d is not None:
            outside = self.mul(outside, self.const(Fraction(n, d)))
        else:
            inside = p_scale(inside, c)
        if list(inside) == [ONE_M] and inside[ONE_M] == 1:
            return outside
        key = ("cbrt", p_key(inside))
        g = self.by_key.get(key)
        if g is None:
            g = self.gen(key, "cbrt", None, None, f"cbrt{len(self.gens)}")
            g.rel = (3, inside)
        return self.mul(outside, Rat(p_gen(g.id)))

    # trigonometry ----------------------------------------------------
    def _angle_parts(self, x):
        """x as a list of (coefficient, monomial or Rat) plus q*pi"""
        if x.den:
            return None
        pi = self.by_key.get(("pi",))
        q = Fraction(0)
        parts = []
        for m, c in x.num.items():
            if pi is not None and m == ((pi.id, 1),):
                q += Fraction(c)
            else:
                parts.append((Fraction(c), m))
        return q, parts

    def _expand_frac(self, x):
        """2*pi*n*frac(u) -> 2*pi*n*u inside a trigonometric argument"""
        pi = self.by_key.get(("pi",))
        if pi is None or x.den:
            return x
        for m, c in list(x.num.items()):
            if len(m) == 2 and (pi.id, 1) in m:
                g = [y for y in m if y[0] != pi.id][0]
                if g[1] == 1 and self.gens[g[0]].kind == "frac" and (Fraction(c) / 2).denominator == 1:
                    rest = dict(x.num)
                    del rest[m]
                    u = self.gens[g[0]].data
                    y = self.mul(self.mul(self.const(c), Rat(p_gen(pi.id))), u)
                    return self._expand_frac(self.add(Rat(rest), y))
        return x

    def trig(self, x):
        """(cos x, sin x)"""
        x = self._expand_frac(x)
        if x.den:
            parts, q = [(Fraction(1), x)], Fraction(0)
        else:
            q, parts = self._angle_parts(x)
        c, s = self._trig_pi(q)
        for coef, m in parts:
            cc, ss = self._trig_part(coef, m)
            c, s = self.sub(self.mul(c, cc), self.mul(s, ss)), self.add(self.mul(s, cc), self.mul(c, ss))
        return c, s

    def _trig_pi(self, q):
        q = q % 2
        table = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
        if q in table:
            return self.const(table[q][0]), self.const(table[q][1])
        h = Fraction(1, 2)
        s3 = self.mul(self.const(h), self.f_sqrt(self.const(3)))
        s2 = self.mul(self.const(h), self.f_sqrt(self.const(2)))
        if q.denominator in (3, 4, 6):
            def cosq(q):
                q = q % 2
                if q > 1:
                    q = 2 - q
                if q > h:
                    return self.neg(cosq(1 - q))
                return {Fraction(0): self.const(1), Fraction(1, 6): s3, Fraction(1, 4): s2, Fraction(1, 3): self.const(h), h: self.const(0)}[q]
            return cosq(q), cosq(q - h)
        pi = self.gen(("pi",), "pi", None, T.PI, "pi")
        return self._trig_part(q, ((pi.id, 1),))

    def _trig_part(self, coef, m):
        key = m.key() if isinstance(m, Rat) else self._mono_key(m)
        # inverse functions
        if not isinstance(m, Rat) and len(m) == 1 and m[0][1] == 1:
            g = self.gens[m[0][0]]
            base = None
            if g.kind == "arctan":
                x = g.data
                r = self.f_sqrt(self.add(self.const(1), self.mul(x, x)))
                base = (self.inv(r), self.div(x, r))
            elif g.kind == "arccos":
                x = g.data
                base = (x, self.f_sqrt(self.sub(self.const(1), self.mul(x, x))))
            elif g.kind == "arcsin":
                x = g.data
                base = (self.f_sqrt(self.sub(self.const(1), self.mul(x, x))), x)
            elif g.kind == "arctan2":
                y, x = g.data
                r = self.f_sqrt(self.add(self.mul(x, x), self.mul(y, y)))
                base = (self.div(x, r), self.div(y, r))
            if base is not None and coef.denominator == 1:
                return self._multiple(base, int(coef))
            if base is not None and coef.denominator == 2:
                half = self._half(base, m)
                if half is not None:
                    return self._multiple(half, coef.numerator)
        D = self.shared.den.get(key, 1)
        if (coef * D).denominator != 1:
            self.shared.den[key] = D * (coef * D).denominator
            raise Restart()
        n = int(coef * D)
        mk = m.key() if isinstance(m, Rat) else m
        ck, sk = ("cos", mk, D), ("sin", mk, D)
        c = self.gen(ck, "cos", (m, D), None, f"cos({self._mname(m)}/{D})")
        s = self.by_key.get(sk)
        if s is None:
            s = self.gen(sk, "sin", (m, D), None, f"sin({self._mname(m)}/{D})")
            s.rel = (2, {ONE_M: 1, ((c.id, 2),): -1})
        return self._multiple((Rat(p_gen(c.id)), Rat(p_gen(s.id))), n)

    def _half(self, base, m):
        """cos and sin of half of an angle in (-pi, pi] given its cos and sin"""
        b = self.mono_bounds(m)
        if b[0] is None or b[2] is None or b[0] < -1 or b[2] > 1:
            return None
        c, s = base
        ch = self.f_sqrt(self.mul(self.const(Fraction(1, 2)), self.add(self.const(1), c)))
        sh = self.f_sqrt(self.mul(self.const(Fraction(1, 2)), self.sub(self.const(1), c)))
        sg = self.rsgn(s)
        if b[0] >= 0:
            return ch, sh
        if b[2] <= 0:
            return ch, self.neg(sh)
        if -1 not in sg:
            return ch, sh
        if 1 not in sg:
            return ch, self.neg(sh)
        self.split_sign(s.num)

    def _mname(self, m):
        if isinstance(m, Rat):
            return "rat"
        return "*".join(self.gens[g].name + (f"^{e}" if e > 1 else "") for g, e in m)

    def _mono_key(self, m):
        return tuple((self.gens[g].name, e) for g, e in m)

    def _multiple(self, base, n):
        c, s = base
        if n < 0:
            s = self.neg(s)
            n = -n
        if n == 0:
            return self.const(1), self.const(0)
        rc, rs = c, s
        for _ in range(n - 1):
            rc, rs = self.sub(self.mul(rc, c), self.mul(rs, s)), self.add(self.mul(rs, c), self.mul(rc, s))
        return rc, rs

    def f_cos(self, x):
        return self.trig(x)[0]

    def f_sin(self, x):
        return self.trig(x)[1]

    def f_tan(self, x):
        c, s = self.trig(x)
        return self.div(s, c)

    # hyperbolic ------------------------------------------------------
    def hyp(self, x):
        if x.den:
            parts = [(Fraction(1), x)]
        else:
            parts = [(Fraction(c), m) for m, c in x.num.items()]
        c, s = self.const(1), self.const(0)
        for coef, m in parts:
            cc, ss = self._hyp_part(coef, m)
            c, s = self.add(self.mul(c, cc), self.mul(s, ss)), self.add(self.mul(s, cc), self.mul(c, ss))
        return c, s

    def _hyp_part(self, coef, m):
        key = ("h", m.key() if isinstance(m, Rat) else self._mono_key(m))
        if m == ONE_M:
            m = Rat({ONE_M: 1})
        if not isinstance(m, Rat) and len(m) == 1 and m[0][1] == 1:
            g = self.gens[m[0][0]]
            base = None
            if g.kind == "arctanh":
                x = g.data
                r = self.f_sqrt(self.sub(self.const(1), self.mul(x, x)))
                base = (self.inv(r), self.div(x, r))
            elif g.kind == "arcsinh":
                x = g.data
                base = (self.f_sqrt(self.add(self.const(1), self.mul(x, x))), x)
            elif g.kind == "arccosh":
                x = g.data
                base = (x, self.f_sqrt(self.sub(self.mul(x, x), self.const(1))))
            if base is not None and coef.denominator == 1:
                return self._hmultiple(base, int(coef))
        D = self.shared.den.get(key, 1)
        if (coef * D).denominator != 1:
            self.shared.den[key] = D * (coef * D).denominator
            raise Restart()
        n = int(coef * D)
        mk = m.key() if isinstance(m, Rat) else m
        c = self.gen(("cosh", mk, D), "cosh", (m, D), None, f"cosh({self._mname(m)}/{D})")
        s = self.by_key.get(("sinh", mk, D))
        if s is None:
            s = self.gen(("sinh", mk, D), "sinh", (m, D), None, f"sinh({self._mname(m)}/{D})")
            s.rel = (2, {((c.id, 2),): 1, ONE_M: -1})
        return self._hmultiple((Rat(p_gen(c.id)), Rat(p_gen(s.id))), n)

    def _hmultiple(self, base, n):
        c, s = base
        if n < 0:
            s = self.neg(s)
            n = -n
        if n == 0:
            return self.const(1), self.const(0)
        rc, rs = c, s
        for _ in range(n - 1):
            rc, rs = self.add(self.mul(rc, c), self.mul(rs, s)), self.add(self.mul(rs, c), self.mul(rc, s))
        return rc, rs

    def f_cosh(self, x):
        return self.hyp(x)[0]

    def f_sinh(self, x):
        return self.hyp(x)[1]

    def f_tanh(self, x):
        c, s = self.hyp(x)
        return self.div(s, c)

    # inverse functions -----------------------------------------------
    def _inverse(self, kind, data, keyx, name):
        g = self.by_key.get((kind, keyx))
        if g is None:
            g = self.gen((kind, keyx), kind, data, None, f"{name}{len(self.gens)}")
        return Rat(p_gen(g.id))

    def _known_angles(self):
        """single angle symbols whose sine and cosine are generators"""
        for g in list(self.gens):
            if g.kind == "cos" and not isinstance(g.data[0], Rat):
                mono, D = g.data
                yield mono, D, g

    def _find_angle(self, c=None, s=None):
        """a known angle with the given cosine (and sine): (Rat angle, mono)"""
        for mono, D, g in self._known_angles():
            for n in ({1, D} if D > 1 else {1}):
                cc, ss = self._multiple((Rat(p_gen(g.id)), Rat(p_gen(self.by_key[("sin", mono, D)].id))), n)
                if c is not None and not self.equal(cc, c):
                    continue
                if s is not None and not self.equal(ss, s):
                    continue
                return Rat({mono: Fraction(n, D)}), mono, Fraction(n, D)
        return None

    def f_arccos(self, x):
        if x.is_const():
            v = x.const()
            t = {Fraction(1): 0, Fraction(-1): 1, Fraction(0): Fraction(1, 2), Fraction(1, 2): Fraction(1, 3), Fraction(-1, 2): Fraction(2, 3)}
            if v in t:
                return self.mul(self.const(t[v]), self.ev(T.PI))
            if abs(v) > 1:
                raise Undef("arccos out of domain")
        f = self._find_angle(c=x)
        if f is not None:
            ang, mono, k = f
            b = self.mono_bounds(mono)
            lo = None if b[0] is None else b[0] * k
            hi = None if b[2] is None else b[2] * k
            if lo is not None and hi is not None:
                if lo >= 0 and hi <= 1:
                    return ang
                if lo >= 1 and hi <= 2:
                    return self.sub(self.mul(self.const(2), self.ev(T.PI)), ang)
                if lo >= -1 and hi <= 0:
                    return self.neg(ang)
                if lo >= -1 and hi <= 2:
                    piv = Fraction(0) if lo < 0 else Fraction(1)
                    raise NeedSplit(T.le(self.mono_term(mono), T.mul(T.const(piv / k), T.PI)))
        # domain
        for y, what in ((self.sub(self.const(1), x), "above"), (self.add(self.const(1), x), "below")):
            s = self.rsgn(y)
            if s == NEG:
                raise Undef("arccos out of domain")
            if -1 in s:
                d = y
                self._check_den(d)
                self.split_sign(d.num)
        return self._inverse("arccos", x, x.key(), "arccos")

    def _check_den(self, d):
        for k, (p, e) in d.den.items():
            if len(s_pow(self.sgn(p), e)) > 1:
                self.split_sign(p)

    def f_arcsin(self, x):
        if x.is_const():
            v = x.const()
            t = {Fraction(1): Fraction(1, 2), Fraction(-1): Fraction(-1, 2), Fraction(0): 0}
            if v in t:
                return self.mul(self.const(t[v]), self.ev(T.PI))
        for y in (self.sub(self.const(1), x), self.add(self.const(1), x)):
            s = self.rsgn(y)
            if s == NEG:
                raise Undef("arcsin out of domain")
            if -1 in s:
                self._check_den(y)
                self.split_sign(y.num)
        return self._inverse("arcsin", x, x.key(), "arcsin")

    def f_arctan(self, x):
        if not x.num:
            return x
        if x.is_const() and abs(x.const()) == 1:
            return self.mul(self.const(x.const() / 4), self.ev(T.PI))
        # arctan(tan(y)) for y in (-pi/2, pi/2)
        for mono, D, g in self._known_angles():
            s = Rat(p_gen(self.by_key[("sin", mono, D)].id))
            c = Rat(p_gen(g.id))
            if self.equal(self.mul(x, c), s):
                b = self.mono_bounds(mono)
                h = Fraction(1, 2) * D
                if b[0] is not None and b[2] is not None and (b[0] > -h or (b[0] == -h and b[1])) and (b[2] < h or (b[2] == h and b[3])):
                    return Rat({mono: Fraction(1, D)})
        return self._inverse("arctan", x, x.key(), "arctan")

    def f_arctan2(self, y, x):
        if not y.num:
            s = self.rsgn(x)
            if s == POS or s == ZER:
                return self.const(0)
            if s == NEG:
                return self.ev(T.PI)
            self._check_den(x)
            self.split_sign(x.num)
        if not x.num:
            s = self.rsgn(y)
            if s == POS:
                return self.mul(self.const(Fraction(1, 2)), self.ev(T.PI))
            if s == NEG:
                return self.mul(self.const(Fraction(-1, 2)), self.ev(T.PI))
            self._check_den(y)
            self.split_sign(y.num)
        r2 = self.add(self.mul(x, x), self.mul(y, y))
        s = self.rsgn(r2)
        if 0 in s:
            if 0 in self.rsgn(y):
                self.split_zero(y.num)
            raise GiveUp("arctan2 at the origin")
        r = self.f_sqrt(r2)
        c, sn = self.div(x, r), self.div(y, r)
        f = self._find_angle(c=c, s=sn)
        if f is not None:
            ang, mono, k = f
            b = self.mono_bounds(mono)
            lo = None if b[0] is None else b[0] * k
            hi = None if b[2] is None else b[2] * k
            if lo is not None and hi is not None:
                if (lo > -1 or (lo == -1 and b[1])) and hi <= 1:
                    return ang
                if (lo > 1 or (lo == 1 and b[1])) and hi <= 2:
                    return self.sub(ang, self.mul(self.const(2), self.ev(T.PI)))
                if lo >= -1 and hi <= 2:
                    raise NeedSplit(T.le(self.mono_term(mono), T.mul(T.const(1 / k), T.PI)))
        # normal form: unit vector
        return self._inverse("arctan2", (sn, c), (sn.key(), c.key()), "arctan2_")

    def f_arctanh(self, x):
        if not x.num:
            return x
        for y in (self.sub(self.const(1), x), self.add(self.const(1), x)):
            s = self.rsgn(y)
            if s <= NP_:
                raise Undef("arctanh out of domain")
            if s != POS:
                self._check_den(y)
                self.split_sign(y.num)
        for g in list(self.gens):
            if g.kind == "cosh" and not isinstance(g.data[0], Rat):
                mono, D = g.data
                s = Rat(p_gen(self.by_key[("sinh", mono, D)].id))
                if self.equal(self.mul(x, Rat(p_gen(g.id))), s):
                    return Rat({mono: Fraction(1, D)})
        return self._inverse("arctanh", x, x.key(), "arctanh")

    def f_arcsinh(self, x):
        if not x.num:
            return x
        return self._inverse("arcsinh", x, x.key(), "arcsinh")

    def f_arccosh(self, x):
        y = self.sub(x, self.const(1))
        s = self.rsgn(y)
        if s == NEG:
            raise Undef("arccosh out of domain")
        if -1 in s:
            self._check_den(y)
            self.split_sign(y.num)
        return self._inverse("arccosh", x, x.key(), "arccosh")

    def f_log(self, x):
        s = self.rsgn(x)
        if 1 not in s:
            raise Undef("log of a non-positive number")
        if s != POS:
            self._check_den(x)
            self.split_sign(x.num)
        if x.is_const() and x.const() == 1:
            return self.const(0)
        g = self.by_key.get(("log", x.key())) or self.gen(("log", x.key()), "log", x, None, f"log{len(self.gens)}")
        return Rat(p_gen(g.id))

    def f_exp(self, x):
        if not x.num:
            return self.const(1)
        c, s = self.hyp(x)
        return self.add(c, s)

    def f_mod(self, x, m):
        if not m.num:
            raise Undef("modulo zero")
        u = self.div(x, m)
        s = self.rsgn(m)
        if s != POS:
            if s == NEG:
                raise GiveUp("negative modulus")
            self.split_sign(m.num)
        return self.mul(m, self.frac(u))

    def frac(self, u):
        c = Fraction(u.num.get(ONE_M, 0)) if not u.den else Fraction(0)
        if not u.den:
            k = c.numerator // c.denominator
            if k:
                u = self.sub(u, self.const(k))
                c -= k
        if u.is_const():
            return u
        # frac of frac
        if not u.den and len(u.num) == 1:
            (m, k), = u.num.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1 and self.gens[m[0][0]].kind == "frac":
                return u
        # integer multiples of frac inside frac
        if not u.den:
            for m, k in u.num.items():
                if Fraction(k).denominator == 1 and len(m) == 1 and m[0][1] == 1 and self.gens[m[0][0]].kind == "frac":
                    inner = self.gens[m[0][0]].data
                    rest = dict(u.num)
                    del rest[m]
                    return self.frac(self.add(Rat(rest), self.mul(self.const(k), inner)))
        # known interval: u * pi is linear in angles when u = angle/pi
        pi = self.gen(("pi",), "pi", None, T.PI, "pi")
        w = self.mul(u, Rat(p_gen(pi.id)))
        if not w.den:
            lo, ls, hi, hs = self.poly_bounds(w.num)
            if lo is not None and hi is not None:
                import math
                k = math.floor(lo)
                if hi < k + 1 or (hi == k + 1 and hs):
                    return self.sub(u, self.const(k))
                if hi <= k + 2 and (hi < k + 2 or hs) and (hi - lo) <= 3:
                    raise NeedSplit(T.lt(self.poly_term(w.num), T.mul(T.const(k + 1), T.PI)))
        g = self.by_key.get(("frac", u.key())) or self.gen(("frac", u.key()), "frac", u, None, f"frac{len(self.gens)}")
        return Rat(p_gen(g.id))

    def f_floor(self, x):
        return self.sub(x, self.frac(x))

    # ------------------------------------------------------------ goals
    def prove(self, goal):
        """True / False; may raise NeedSplit, Undef, GiveUp"""
        o = goal.op
        if goal is T.TRUE:
            return True
        if o == "and":
            return all(self.prove(g) for g in goal.args)
        if o == "eq" and goal.args[0].sort != "B":
            a, b = goal.args
            if a is b:
                self.ev(a)
                return True
            d = self.sub(self.ev(a), self.ev(b))
            if not d.num:
                return True
            # both sides nonnegative with equal squares
            s = self.rsgn(d)
            if s == ZER:
                return True
            if 0 not in s:
                return False
            return None
        try:
            v = self.decide(goal)
        except NeedSplit:
            raise
        return v


def _isq(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def _icbrt(n):
    if n < 0:
        r = _icbrt(-n)
        return None if r is None else -r
    r = round(n ** (1 / 3))
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** 3 == n:
            return x
    return None


def _sqrt_frac(f):
    """f = out^2 * in with in squarefree (small primes)"""
    n = f.numerator * f.denominator
    out = Fraction(1, f.denominator)
    r = _isq(n)
    if r is not None:
        return out * r, Fraction(1)
    inn = n
    p = 2
    while p * p <= inn and p < 1000:
        while inn % (p * p) == 0:
            inn //= p * p
            out *= p
        p += 1
    return out, Fraction(inn)


def trig_sign(kind, lo, ls, hi, hs):
    """possible signs of sin/cos on an interval given in units of pi"""
    if lo is None or hi is None:
        return SIGNS
    if hi < lo:
        return SIGNS
    if kind == "cos":
        lo, hi = lo + Fraction(1, 2), hi + Fraction(1, 2)
    if hi - lo > 2:
        return SIGNS
    import math
    s = set()
    k = math.floor(lo)
    while k <= hi:
        # open interval (k, k+1)
        a, b = max(lo, Fraction(k)), min(hi, Fraction(k + 1))
        if a < b:
            s.add(1 if k % 2 == 0 else -1)
        if lo <= k <= hi:
            if not ((k == lo and ls) or (k == hi and hs)):
                s.add(0)
        k += 1
    if lo == hi and lo.denominator != 1:
        s = {1 if math.floor(lo) % 2 == 0 else -1}
    return frozenset(s) if s else SIGNS


# ---------------------------------------------------------------- driver
class Result:
    def __init__(self, ok, reason="", cases=0, case=None):
        self.ok = ok
        self.reason = reason
        self.cases = cases
        self.case = case or []

    def __bool__(self):
        return self.ok


def contradictory(facts):
    from .smt import check
    r, _ = check(facts, 800, True)
    if r == "unsat":
        return True
    r, _ = check(facts, 800, False)
    return r == "unsat"


def prove(goal, facts, timeout=20.0, max_cases=300):
    """prove goal under facts; every case split is on a condition of the goal"""
    if goal is T.TRUE:
        return Result(True, "trivial", 0)
    # flatten implications
    facts = list(facts)
    deadline = time.process_time() + timeout
    shared = Shared()
    work = [([], goal)]
    cases = 0
    while work:
        extra, goal_ = work.pop()
        cases += 1
        if cases > max_cases:
            return Result(False, "too many cases", cases, extra)
        g = goal_
        fs = facts + extra
        # goal of the form (not a) or b : assume the negations
        while g.op == "or":
            args = list(g.args)
            last = args[-1]
            fs = fs + [T.not_(a) for a in args[:-1]]
            g = last
        if g.op == "and" and False:
            pass
        r = None
        for _ in range(12):
            try:
                case = Case(fs, shared, deadline)
                if case.contradiction:
                    r = True
                    break
                r = case.prove(g)
                if case.contradiction:
                    r = True
                break
            except Restart:
                continue
            except NeedSplit as e:
                c = e.cond
                if c in extra or T.not_(c) in extra or c.op in ("true", "false"):
                    if contradictory(fs):
                        r = True
                        break
                    return Result(False, f"cannot decide {T.pretty(c, 6)}", cases, extra)
                pos, neg = fs + [c], fs + [T.not_(c)]
                for cc in (T.not_(c), c):
                    work.append((extra + [cc], goal_))
                r = "split"
                break
            except Undef as e:
                if contradictory(fs):
                    r = True
                    break
                return Result(False, f"undefined: {e}", cases, extra)
            except GiveUp as e:
                return Result(False, f"gave up: {e}", cases, extra)
        if r == "split":
            if len(extra) > 24:
                return Result(False, "split depth", cases, extra)
            continue
        if r is True:
            continue
        if contradictory(fs):
            continue
        # last resort: SMT on the original literals
        if SOLVER.valid(fs, g, 2000):
            continue
        return Result(False, f"cannot prove {T.pretty(g, 6)}", cases, extra)
    return Result(True, "", cases)

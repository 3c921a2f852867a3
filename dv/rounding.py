"""Rounded evaluation of terms: which results can be NaN, for every rounding
consistent with IEEE arithmetic.

Every arithmetic node of a term is an operation rounded in an unknown way.  The
value of a node is an uninterpreted function of the (rounded) values of its
operands; what is known about it are ground instances of these laws of
correctly rounded binary arithmetic without overflow and underflow:

  x + y   x if y = 0; 0 exactly if x = -y; the sign of the exact sum; at least
          x if y >= 0, at most x if y <= 0 (x is representable: monotonicity)
  x * y   0 exactly if one is; sign; x if y = 1; |x y| <= |x| if |y| <= 1
  x / y   y != 0: sign; x if y = 1; |x / y| <= 1 if |x| <= |y|; 1 if x = y
  sqrt    not negative, positive for positive arguments, monotonic, and
          sqrt(x * x) = |x| (radix two)
  arccos  0 at 1, pi at -1, between 0 and pi

A node also has a definedness: division by zero, roots of negative numbers and
inverse cosines outside [-1, 1] are undefined; comparisons of undefined values
have an arbitrary outcome.  Exactness (negation, absolute value, minimum,
comparison, constants) is not rounded."""
import z3

from . import smt, terms as T

REAL = z3.RealSort()


class Rounded:
    def __init__(self):
        self.memo = {}
        self.axioms = []
        self.sqrts = []
        self.squares = []
        self.funs = {}
        self.free = 0
        self.partial = []       # (term, domain condition, definedness of the operands)

    def f(self, name, n):
        return self.funs.setdefault(name, z3.Function("r_" + name, *([REAL] * (n + 1))))

    def unknown(self):
        self.free += 1
        return z3.Bool(f"unknown{self.free}")

    def __call__(self, t):
        """(value, definedness) of a real term; (value, None) of a boolean one"""
        if t not in self.memo:
            self.memo[t] = self.tr(t)
        return self.memo[t]

    def real(self, t):
        return self(t)[0]

    def square(self, x, q):
        self.squares.append((x, q))
        for a, r in self.sqrts:
            self.relate(x, q, a, r)

    def root(self, a, r):
        for x, q in self.squares:
            self.relate(x, q, a, r)
        for b, s in self.sqrts:
            self.axioms.append(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(z3.Implies(a <= b, r <= s), z3.Implies(b <= a, s <= r))))
        self.sqrts.append((a, r))

    def relate(self, x, q, a, r):
        """r = sqrt(a), q = x * x"""
        m = z3.If(x >= 0, x, -x)
        self.axioms.append(z3.Implies(a >= 0, z3.And(z3.Implies(q <= a, m <= r), z3.Implies(q >= a, m >= r))))

    def tr(self, t):
        o = t.op
        if t.sort == "B":
            return self.boolean(t), None
        if o in ("const", "int"):
            return z3.RealVal(str(t.args[0])), z3.BoolVal(True)
        if o == "pi":
            p = z3.Real("PI")
            self.axioms.append(z3.And(p > z3.RealVal("3.1415"), p < z3.RealVal("3.1416")))
            return p, z3.BoolVal(True)
        if o == "sym":
            return z3.Real("s_" + str(t.args[0])), z3.BoolVal(True)
        if o == "ite":
            c = self(t.args[0])[0]
            (x, dx), (y, dy) = self(t.args[1]), self(t.args[2])
            return z3.If(c, x, y), z3.If(c, dx, dy)
        if o == "toreal":
            return self(t.args[0])
        if o == "uf":
            args = [self(a) for a in t.args[1]] if isinstance(t.args[1], tuple) else []
            return z3.Real(f"u_{len(self.memo)}"), self.unknown()
        args = [self(a) for a in t.args if isinstance(a, T.Term)]
        v = [a[0] for a in args]
        d = z3.And(*[a[1] for a in args]) if args else z3.BoolVal(False)
        if o == "neg":
            return -v[0], d
        if o == "abs":
            return z3.If(v[0] >= 0, v[0], -v[0]), d
        if o == "add":
            a, b = v
            if t.args[1].id < t.args[0].id:
                a, b = b, a
            r = self.f("add", 2)(a, b)
            for x, y in ((a, b), (b, a)):
                self.axioms += [z3.Implies(y >= 0, r >= x), z3.Implies(y <= 0, r <= x)]
            self.axioms += [(r == 0) == (a + b == 0), (r > 0) == (a + b > 0)]
            return r, d
        if o == "pow":
            n = t.args[1]
            r = v[0]
            for k in range(n - 1):
                r = self.mul(r, v[0])
            return r, d
        if o == "mul":
            a, b = v
            if t.args[1].id < t.args[0].id:
                a, b = b, a
            return self.mul(a, b), d
        if o == "div":
            a, b = v
            r = self.f("div", 2)(a, b)
            pos = z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0))
            aa, bb = z3.If(a >= 0, a, -a), z3.If(b >= 0, b, -b)
            self.axioms.append(z3.Implies(b != 0, z3.And((r == 0) == (a == 0), (r > 0) == pos, z3.Implies(aa <= bb, z3.And(r <= 1, r >= -1)),
                                                         z3.Implies(aa >= bb, z3.Or(r >= 1, r <= -1)),
                                                         z3.Implies(b == 1, r == a), z3.Implies(b == -1, r == -a))))
            self.partial.append((t, b != 0, d))
            return r, z3.And(d, b != 0)
        if o == "sqrt":
            r = self.f("sqrt", 1)(v[0])
            self.axioms.append(z3.Implies(v[0] >= 0, z3.And(r >= 0, (r > 0) == (v[0] > 0))))
            self.root(v[0], r)
            self.partial.append((t, v[0] >= 0, d))
            return r, z3.And(d, v[0] >= 0)
        if o in ("arccos", "arcsin"):
            r = self.f(o, 1)(v[0])
            p = self.real(T.PI)
            ok = z3.And(v[0] >= -1, v[0] <= 1)
            if o == "arccos":
                self.axioms.append(z3.Implies(ok, z3.And(r >= 0, r <= p, z3.Implies(v[0] == 1, r == 0), z3.Implies(v[0] == -1, r == p))))
            self.partial.append((t, ok, d))
            return r, z3.And(d, ok)
        if o == "arctan2":
            r = self.f(o, 2)(*v)
            p = self.real(T.PI)
            self.axioms += [r >= -p, r <= p, z3.Implies(v[0] > 0, r >= 0), z3.Implies(v[0] < 0, r <= 0)]
            return r, d
        if o == "mod":
            r = self.f(o, 2)(*v)
            self.axioms.append(z3.Implies(v[1] > 0, z3.And(r >= 0, r <= v[1])))
            self.partial.append((t, v[1] != 0, d))
            return r, z3.And(d, v[1] != 0)
        if o in ("sin", "cos", "arctan", "floor", "trunc", "cbrt", "tanh"):
            r = self.f(o, 1)(v[0])
            if o in ("sin", "cos"):
                self.axioms += [r <= 1, r >= -1]
            return r, d
        # nothing is known of it
        return z3.Real(f"u_{len(self.memo)}"), self.unknown()

    def mul(self, a, b):
        r = self.f("mul", 2)(a, b)
        pos = z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0))
        self.axioms += [(r == 0) == z3.Or(a == 0, b == 0), (r > 0) == pos]
        for x, y in ((a, b), (b, a)):
            self.axioms += [z3.Implies(y == 1, r == x), z3.Implies(y == -1, r == -x),
                            z3.Implies(z3.And(y >= -1, y <= 1), z3.If(x >= 0, z3.And(r <= x, r >= -x), z3.And(r >= x, r <= -x)))]
        if a.eq(b):
            self.square(a, r)
        return r

    def boolean(self, t):
        o = t.op
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "and":
            return z3.And(*[self(a)[0] for a in t.args])
        if o == "or":
            return z3.Or(*[self(a)[0] for a in t.args])
        if o == "not":
            return z3.Not(self(t.args[0])[0])
        if o == "ite":
            return z3.If(*[self(a)[0] for a in t.args])
        if o in ("lt", "le", "eq") and t.args[0].sort != "B":
            (a, da), (b, db) = self(t.args[0]), self(t.args[1])
            c = {"lt": a < b, "le": a <= b, "eq": a == b}[o]
            return z3.If(z3.And(da, db), c, self.unknown())
        if o == "eq":
            return self(t.args[0])[0] == self(t.args[1])[0]
        return self.unknown()

    def not_nan(self, t):
        """a result that is a number or infinite"""
        o = t.op
        if o == "div":
            (a, da), (b, db) = self(t.args[0]), self(t.args[1])
            return z3.And(da, db, z3.Or(a != 0, b != 0))
        if o == "neg":
            return self.not_nan(t.args[0])
        if o == "ite":
            return z3.If(self(t.args[0])[0], self.not_nan(t.args[1]), self.not_nan(t.args[2]))
        if o == "mul":
            for c, x in (t.args, t.args[::-1]):
                if T.is_const(c) and T.cval(c) != 0:
                    return self.not_nan(x)
        if o == "toreal":
            return self.not_nan(t.args[0])
        return self(t)[1]

    def valid(self, facts, goal, ms=20000):
        """(True, '') or (False, why)"""
        s = z3.Solver()
        s.add(*self.axioms)
        s.add(*facts)
        s.add(z3.Not(goal))
        r = smt.run(s, ms * smt.SCALE[0])
        if r == "unsat":
            return True, ""
        if r == "sat":
            m = s.model()
            return False, "not valid; a rounding is: " + ", ".join(f"{d.name()}={m[d]}" for d in m.decls() if d.arity() == 0 and d.name().startswith("s_"))[:600]
        return False, "z3: unknown"

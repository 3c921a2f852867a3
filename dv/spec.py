"""Mathematical specification functions (written from the property statements).

`E` is operator sugar over terms; nothing in here is derived from the code."""
from fractions import Fraction

from . import terms as T
from .ctx import CTX


class E:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        return E(T.add(self.t, tm(o)))

    __radd__ = __add__

    def __sub__(self, o):
        return E(T.sub(self.t, tm(o)))

    def __rsub__(self, o):
        return E(T.sub(tm(o), self.t))

    def __mul__(self, o):
        return E(T.mul(self.t, tm(o)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return E(T.div(self.t, tm(o)))

    def __rtruediv__(self, o):
        return E(T.div(tm(o), self.t))

    def __neg__(self):
        return E(T.neg(self.t))

    def __pow__(self, n):
        return E(T.powi(self.t, n))

    def __lt__(self, o):
        return T.lt(self.t, tm(o))

    def __le__(self, o):
        return T.le(self.t, tm(o))

    def __gt__(self, o):
        return T.lt(tm(o), self.t)

    def __ge__(self, o):
        return T.le(tm(o), self.t)

    def eq(self, o):
        return T.eq(self.t, tm(o))

    def ne(self, o):
        return T.not_(T.eq(self.t, tm(o)))

    def __bool__(self):
        raise TypeError("truth value of a spec term")


def tm(x):
    if isinstance(x, E):
        return x.t
    if isinstance(x, T.Term):
        return x
    if isinstance(x, (int, Fraction)):
        return T.const(x)
    t = getattr(x, "term", None)
    if t is not None:
        return t
    raise TypeError(f"spec term from {type(x)}")


def V(name):
    return E(T.sym(name))


def Vs(names):
    return [V(n) for n in names.split()]


def C(v):
    return E(T.const(Fraction(v)))


PI = E(T.PI)
TWO_PI = 2 * PI


def _f(n):
    def g(x):
        return E(T.fn(n, tm(x)))
    return g


sin, cos, tan, sqrt, sinh, cosh, tanh, cbrt = [_f(n) for n in
                                               "sin cos tan sqrt sinh cosh tanh cbrt".split()]
arctan, arccos, arctanh = [_f(n) for n in "arctan arccos arctanh".split()]


def mod(x, m):
    return E(T.fn("mod", tm(x), tm(m)))


def ite(c, a, b):
    return E(T.ite(c, tm(a), tm(b)))


def absv(x):
    return E(T.fn("abs", tm(x)))


def rad(x):
    return x * PI / 180


def deg(x):
    return x * 180 / PI


def and_(*xs):
    return T.and_(*xs)


def or_(*xs):
    return T.or_(*xs)


def not_(x):
    return T.not_(x)


def wrapped(x, hi=None):
    """0 <= x < 2 pi"""
    return T.and_(E(T.ZERO) <= x, x < (TWO_PI if hi is None else hi))


def same_angle(x, y):
    """x and y are the same point of the circle"""
    return T.and_(cos(x).eq(cos(y)), sin(x).eq(sin(y)))


# ------------------------------------------------------------------ two-body
def semi_latus(a, e, regime):
    if regime == "ell":
        return a * (1 - e * e)
    if regime == "hyp":
        return a * (e * e - 1)
    return 2 * a


def regime_facts(a, e, nu, mu, regime):
    fs = [a > 0, mu > 0]
    if regime == "ell":
        return fs + [e >= 0, e < 1]
    if regime == "hyp":
        return fs + [e > 1, 1 + e * cos(nu) > 0]
    return fs + [e.eq(1), 1 + e * cos(nu) > 0]


def two_body(a, e, i, om, Om, nu, mu, regime):
    """the state of the conic: distance p/(1+e cos nu), orientation by the
    rotations Rz(Om) Rx(i) Rz(om), velocity (mu/h) (-sin nu, e + cos nu)"""
    p = semi_latus(a, e, regime)
    r = p / (1 + e * cos(nu))
    k = sqrt(mu / p)
    P, Q = perifocal(i, om, Om)
    pos = [r * (cos(nu) * P[j] + sin(nu) * Q[j]) for j in range(3)]
    vel = [k * (-sin(nu) * P[j] + (e + cos(nu)) * Q[j]) for j in range(3)]
    return pos + vel


def perifocal(i, om, Om):
    R = matmul(matmul(rot_z(Om), rot_x(i)), rot_z(om))
    return [R[j][0] for j in range(3)], [R[j][1] for j in range(3)]


def rot_x(t):
    return [[C(1), C(0), C(0)], [C(0), cos(t), -sin(t)], [C(0), sin(t), cos(t)]]


def rot_y(t):
    return [[cos(t), C(0), sin(t)], [C(0), C(1), C(0)], [-sin(t), C(0), cos(t)]]


def rot_z(t):
    return [[cos(t), -sin(t), C(0)], [sin(t), cos(t), C(0)], [C(0), C(0), C(1)]]


def matmul(A, B):
    return [[A[r][0] * B[0][c] + A[r][1] * B[1][c] + A[r][2] * B[2][c] for c in range(3)] for r in range(3)]


def cross(u, v):
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def norm(u):
    return sqrt(dot(u, u))

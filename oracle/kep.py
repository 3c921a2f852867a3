"""oracles for pyorb.kepler"""
import math

import numpy as np

from run import Oracle
from lits import beside, numbers

import pyorb
from pyorb import kepler as K

PI, TP = math.pi, 2 * math.pi
ORACLES = {}


def register(pid):
    def f(cls):
        ORACLES[pid] = cls()
        return cls
    return f


# ------------------------------------------------------------------ helpers
def angdiff(a, b):
    d = (a - b) % TP
    return min(d, TP - d)


def close(x, y, tol=1e-9, scale=None):
    x, y = float(x), float(y)
    if math.isnan(x) or math.isnan(y):
        return False
    s = max(abs(x), abs(y)) if scale is None else scale
    return abs(x - y) <= tol * max(s, 1e-300)


def pick(rng, *xs):
    return rng.choice(xs)


LIMITS = numbers("kepler.py", lo=1e-12, hi=1e4)
SIZES = sorted({int(x) + d for x in numbers("kepler.py", lo=2, hi=3000) if x == int(x) for d in (0, 1) if x not in (180, 360)})


def limit(rng, lo, hi, default):
    """a number of the source text that lies in this range, or one beside it"""
    xs = [x for x in LIMITS if lo <= x <= hi]
    y = beside(rng, rng.choice(xs)) if xs else default
    return y if lo <= y <= hi else default


def angle(rng, special=0.3):
    x = rng.random()
    if x < special:
        return pick(rng, 0.0, PI / 2, PI, 1.5 * PI, PI / 4, 2.0, 6.0)
    if x < special + 0.1:
        return limit(rng, 0, TP * 0.9999, 1.0)
    return rng.uniform(0, TP * 0.9999)


def turns(rng, x, p=0.15):
    """maybe some revolutions away"""
    return x + TP * rng.randint(-3, 3) if rng.random() < p else x


def inclination(rng, planar=0.35):
    x = rng.random()
    if x < planar:
        return pick(rng, 0.0, PI)
    if x < planar + 0.15:
        return pick(rng, PI / 2, 0.1, PI - 0.1, 3.0, limit(rng, 1e-4, PI - 1e-4, 1.0), PI - limit(rng, 1e-4, PI - 1e-4, 1.0))
    return rng.uniform(0.02, PI - 0.02)


def eccentricity(rng, regime):
    if regime == "circ":
        return 0.0
    if regime == "ell":
        return pick(rng, 0.5, 0.01, 0.9, rng.uniform(0.01, 0.95), rng.uniform(0.01, 0.95), limit(rng, 1e-4, 0.98, 0.3), 1 - limit(rng, 0.02, 0.98, 0.3), 10 ** rng.uniform(-4, -1))
    if regime == "par":
        return 1.0
    return pick(rng, 1.5, 2.0, 1.05, rng.uniform(1.02, 5.0), rng.uniform(1.02, 5.0), 1 + limit(rng, 1e-2, 3, 0.1), limit(rng, 1.01, 30, 1.2), rng.uniform(5, 30))


def nearly(rng):
    """an eccentricity beside that of the parabola"""
    d = 10 ** rng.uniform(-9, -3) if rng.random() < 0.7 else limit(rng, 1e-10, 1e-2, 5e-10)
    return 1 + rng.choice([-1, 1]) * d


def blur(e):
    """what rounding may do to 1 - e^2"""
    return 1e-13 / abs(1 - e) if e != 1 else 0.0


def elements(rng, regimes=("circ", "ell", "hyp"), scale=1.0, planar=0.35):
    reg = rng.choice(regimes)
    e = eccentricity(rng, reg)
    a = (limit(rng, 1e-4, 1e4, 1.0) if rng.random() < 0.1 else 10 ** rng.uniform(-2, 2)) * scale
    nu = angle(rng)
    if reg == "hyp":
        lim = math.acos(max(-1.0, -1 / e)) * 0.9
        nu = pick(rng, 0.0, rng.uniform(0, lim), TP - rng.uniform(1e-3, lim), rng.uniform(0, lim))
    if reg == "par":
        nu = pick(rng, 0.0, rng.uniform(0, 2.5), TP - rng.uniform(1e-3, 2.5))
    return [a, e, inclination(rng, planar), turns(rng, angle(rng)), turns(rng, angle(rng)), turns(rng, nu) if reg in ("ell", "circ") else nu]


def ref_state(kep, mu):
    a, e, i, om, Om, nu = [float(x) for x in kep]
    p = a * (1 - e * e) if e < 1 else (2 * a if e == 1 else a * (e * e - 1))
    r = p / (1 + e * math.cos(nu))
    k = math.sqrt(mu / p)
    cO, sO, co, so, ci, si = math.cos(Om), math.sin(Om), math.cos(om), math.sin(om), math.cos(i), math.sin(i)
    P = (cO * co - sO * so * ci, sO * co + cO * so * ci, so * si)
    Q = (-cO * so - sO * co * ci, -sO * so + cO * co * ci, co * si)
    x = [r * (math.cos(nu) * P[j] + math.sin(nu) * Q[j]) for j in range(3)]
    v = [k * (-math.sin(nu) * P[j] + (e + math.cos(nu)) * Q[j]) for j in range(3)]
    return x + v


def state_close(got, want, tol=1e-8):
    rs = math.sqrt(sum(x * x for x in want[:3]))
    vs = math.sqrt(sum(x * x for x in want[3:]))
    for j in range(6):
        if not close(got[j], want[j], tol, rs if j < 3 else vs):
            return False
    return True


def canonical(kep):
    a, e, i, om, Om, nu = [float(x) for x in kep]
    planar, retro = i in (0.0, PI), i == PI
    if planar:
        om = om - Om if retro else om + Om
        Om = 0.0
    if e == 0:
        nu = nu + om
        om = 0.0
    return [a, e, i, om % TP, Om % TP, nu % TP]


def kep_close(got, want, tol=1e-5):
    for j in range(3):
        if not close(got[j], want[j], tol, max(abs(want[j]), 1.0) if j else None):
            return f"element {j}: {got[j]!r} instead of {want[j]!r}"
    for j in range(3, 6):
        if not (angdiff(float(got[j]), want[j]) <= tol):
            return f"angle {j}: {got[j]!r} instead of {want[j]!r}"
        if not (0 <= float(got[j]) <= TP):
            return f"angle {j}: {got[j]!r} out of range"
    return None


def layout(arr, kind):
    """same values in another memory layout"""
    if kind == "F":
        return np.asfortranarray(arr)
    if kind == "strided" and arr.ndim == 2:
        big = np.zeros((arr.shape[0], arr.shape[1] * 2), dtype=arr.dtype)
        big[:, ::2] = arr
        return big[:, ::2]
    return np.array(arr)


def drop_columns(case, key="kep"):
    cols = case[key]
    if len(cols) > 1:
        for j in range(len(cols)):
            c = dict(case)
            c[key] = cols[:j] + cols[j + 1:]
            if isinstance(case.get("mu"), list):
                c["mu"] = case["mu"][:j] + case["mu"][j + 1:]
            yield c


def size(rng):
    if rng.random() < 0.08:
        n = pick(rng, 17, 40, *SIZES)
        return n if n <= 300 or rng.random() < 0.3 else 40
    return pick(rng, 1, 1, 2, 3, 5, 8)


def mu_of(rng, n):
    if rng.random() < 0.4:
        return [10 ** rng.uniform(-1, 1) for _ in range(n)]
    return 10 ** rng.uniform(-1, 1)


def mu_at(mu, j):
    return mu[j] if isinstance(mu, list) else mu


def mu_arg(mu):
    return np.array(mu) if isinstance(mu, list) else mu


# ------------------------------------------------------------------ C01
@register("C01")
class C01(Oracle):
    """Keplerian elements of all regimes, mixed arrays and vectors, scalar and per-orbit mu"""

    def gen(self, rng):
        n = size(rng)
        mu = mu_of(rng, n)
        vec = n == 1 and rng.random() < 0.5 and not isinstance(mu, list)
        ks = [elements(rng, ("circ", "ell", "hyp", "par")) for _ in range(n)]
        if rng.random() < 0.15:
            k = rng.choice(ks)
            k[1], k[5] = nearly(rng), rng.uniform(-2, 2)
        return {"kep": ks, "mu": mu, "vec": vec, "layout": pick(rng, "C", "F", "strided")}

    def check(self, c):
        kep = np.array(c["kep"]).T
        arg = kep[:, 0].copy() if c["vec"] else layout(kep, c["layout"])
        out = K.kep_to_cart(arg, mu=mu_arg(c["mu"]))
        out = np.asarray(out).reshape(6, -1)
        if out.shape != (6, len(c["kep"])):
            return f"shape {out.shape}"
        for j, k in enumerate(c["kep"]):
            want = ref_state(k, mu_at(c["mu"], j))
            if not state_close(out[:, j], want, 1e-8 + blur(k[1])):
                return f"state of elements {k} (mu={mu_at(c['mu'], j)}) is {out[:, j].tolist()}, expected {want}"
        return None

    def smaller(self, c):
        return drop_columns(c)


# ------------------------------------------------------------------ C02
def axis_state(rng):
    """exactly axis aligned planar states"""
    s = pick(rng, 1.0, -1.0)
    x = pick(rng, 1.0, 4.0, 0.25)
    f = pick(rng, 1.0, 1.25, 0.75, 1.5)        # 1: circular; at an apsis
    return [s * x, f, pick(rng, 1.0, -1.0)] + [pick(rng, 0.0, -0.0) for _ in range(4)]


@register("C02")
class C02(Oracle):
    """states of canonical elements (inclined, planar, retrograde, circular, hyperbolic), plus axis aligned ones"""

    def gen(self, rng):
        n = size(rng)
        mu = mu_of(rng, n)
        vec = n == 1 and rng.random() < 0.5 and not isinstance(mu, list)
        if rng.random() < 0.2:
            return {"axis": axis_state(rng), "vec": vec}
        if rng.random() < 0.1:
            d = rng.choice([-1, 1]) * (limit(rng, 1e-10, 1e-3, 5e-10) if rng.random() < 0.5 else 10 ** rng.uniform(-10, -3))
            k = elements(rng, ("ell",))
            k[1], k[5] = 1 + d, rng.uniform(-2, 2)
            return {"barely": k, "mu": 10 ** rng.uniform(-1, 1), "vec": vec}
        return {"kep": [elements(rng) for _ in range(n)], "mu": mu, "vec": vec, "layout": pick(rng, "C", "F", "strided")}

    def check(self, c):
        if "axis" in c:
            x, f, d = c["axis"][:3]
            z = c["axis"][3:]
            st = np.array([x, z[0], z[1], z[2], d * math.sqrt(1 / abs(x)) * f * (1 if x > 0 else -1), z[3]])
            st = st if c["vec"] else st.reshape(6, 1)
            o = np.asarray(K.cart_to_kep(st, mu=1.0)).reshape(6)
            if o[4] != 0:
                return f"node {o[4]} of a planar orbit"
            for j in (3, 5):
                if not (0 <= o[j] < TP):
                    return f"angle {j} = {o[j]!r} of state {st.ravel().tolist()} (mu=1) is outside [0, 2 pi)"
            # direction of periapsis along +x or -x, body at an apsis
            at_peri = f >= 1
            w = 0.0 if (x > 0) == at_peri else PI
            if f == 1.0:
                if o[3] != 0 or angdiff(o[5], 0.0 if x > 0 else PI) > 1e-6:
                    return f"circular planar state {st.ravel().tolist()}: {o.tolist()}"
            elif angdiff(o[3], w) > 1e-6 or angdiff(o[5], 0.0 if at_peri else PI) > 1e-6:
                return f"planar state {st.ravel().tolist()}: {o.tolist()}"
            return None
        if "barely" in c:
            k = c["barely"]
            st = np.array(ref_state(k, c["mu"]))
            o = np.asarray(K.cart_to_kep(st if c["vec"] else st.reshape(6, 1), mu=c["mu"])).reshape(6)
            if not o[0] > 0 or not close(o[0], k[0], 1e-4) or not abs(o[1] - k[1]) < 1e-13 + 1e-4 * abs(k[1] - 1):
                return f"state {st.tolist()} (mu={c['mu']}) of elements {k} gives {o.tolist()}"
            return None
        cart = np.array([ref_state(k, mu_at(c["mu"], j)) for j, k in enumerate(c["kep"])]).T
        arg = cart[:, 0].copy() if c["vec"] else layout(cart, c["layout"])
        out = np.asarray(K.cart_to_kep(arg, mu=mu_arg(c["mu"]))).reshape(6, -1)
        if out.shape != cart.shape:
            return f"shape {out.shape}"
        for j, k in enumerate(c["kep"]):
            m = kep_close(out[:, j], canonical(k))
            if m:
                return f"state {cart[:, j].tolist()} (mu={mu_at(c['mu'], j)}) gives {out[:, j].tolist()}: {m}"
            if canonical(k)[4] == 0 and k[2] in (0.0, PI) and out[4, j] != 0:
                return f"node {out[4, j]} of a planar orbit"
            if k[1] == 0 and out[3, j] != 0:
                return f"argument of periapsis {out[3, j]} of a circular orbit"
        return None

    def smaller(self, c):
        return drop_columns(c) if "kep" in c else []


# ------------------------------------------------------------------ C03
@register("C03")
class C03(Oracle):
    """round trips elements -> state -> elements and state -> elements -> state"""

    def gen(self, rng):
        n = size(rng)
        mu = mu_of(rng, n)
        vec = n == 1 and rng.random() < 0.5 and not isinstance(mu, list)
        return {"kep": [elements(rng) for _ in range(n)], "mu": mu, "vec": vec, "deg": rng.random() < 0.4}

    def check(self, c):
        kep = np.array(c["kep"]).T
        if c["deg"]:
            kep[2:] = np.degrees(kep[2:])
        if c["vec"]:
            kep = kep[:, 0].copy()
        kw = dict(mu=mu_arg(c["mu"]), degrees=c["deg"])
        cart = K.kep_to_cart(kep.copy(), **kw)
        kep2 = K.cart_to_kep(np.array(cart), **kw)
        cart2 = K.kep_to_cart(np.array(kep2), **kw)
        k2 = np.array(kep2).reshape(6, -1)
        if c["deg"]:
            k2[2:] = np.radians(k2[2:])
        s1, s2 = np.asarray(cart).reshape(6, -1), np.asarray(cart2).reshape(6, -1)
        for j, k in enumerate(c["kep"]):
            m = kep_close(k2[:, j], canonical(k))
            if m:
                return f"elements {k} came back as {k2[:, j].tolist()}: {m}"
            if not state_close(s2[:, j], s1[:, j].tolist(), 1e-6):
                return f"state {s1[:, j].tolist()} came back as {s2[:, j].tolist()}"
        return None

    def smaller(self, c):
        return drop_columns(c)


# ------------------------------------------------------------------ anomalies
def nu_of(rng, e, revolutions=True):
    if e < 1:
        x = angle(rng)
        return x + (rng.randint(-3, 3) * TP if revolutions and rng.random() < 0.5 else 0.0)
    lim = (math.acos(-1 / e) if e > 1 else PI) * (0.9 if e < 1.001 or rng.random() < 0.8 else 0.999)
    return pick(rng, 0.0, 1.0, -1.0, rng.uniform(-1, 1)) * lim


def any_e(rng):
    return eccentricity(rng, rng.choice(("circ", "ell", "ell", "par", "hyp", "hyp")))


def ecc_of(rng, e):
    """an eccentric anomaly"""
    if e < 1:
        return nu_of(rng, e)
    x = rng.random()
    if x < 0.1:
        return 0.0
    if x < 0.3 and e > 1.001:
        return rng.choice([-1, 1]) * limit(rng, 0.1, 15, 5.0)
    return rng.uniform(-4, 4) if x < 0.8 or e < 1.001 else rng.uniform(-14, 14)


def anomaly_inputs(rng, what):
    """values of an anomaly and eccentricities with a way of passing them"""
    n = size(rng)
    form = pick(rng, "aa", "aa", "af", "fa", "ff", "nn")
    if form in ("ff", "nn"):
        n = 1
    es = [nearly(rng) if what != "M" and rng.random() < 0.1 else any_e(rng) for _ in range(n)]
    if form == "af":
        es = [es[0]] * n
    xs = [(nu_of if what == "nu" else ecc_of if what == "E" else mean_of)(rng, e) for e in es]
    if form == "fa":
        x = rng.uniform(-0.9, 0.9)
        xs = [x if what != "M" else abs(x)] * n
    return {"x": xs, "e": es, "form": form, "layout": pick(rng, "C", "C", "reversed", "strided", "2d", "2dF", "col")}


def mean_of(rng, e):
    if e < 1:
        return angle(rng)
    x = rng.random()
    if x < 0.1:
        return 0.0
    if x < 0.2:
        return rng.choice([-1, 1]) * limit(rng, 0.1, 1000, 50.0)
    return rng.uniform(-20, 20) if x < 0.95 else rng.uniform(-1000, 1000)


def dims(n, kind):
    return (n,) if not kind.startswith(("2d", "col")) else (n, 1) if kind == "col" else (2, n // 2) if n % 2 == 0 else (1, n)


def line(xs, kind):
    a = np.array(xs, dtype=float)
    if kind.startswith(("2d", "col")):
        a = a.reshape(dims(len(xs), kind))
        return np.asfortranarray(a) if kind == "2dF" else a
    if kind == "reversed":
        return np.array(xs[::-1], dtype=float)[::-1]
    if kind == "strided":
        b = np.full(2 * len(xs), 0.123)
        b[::2] = a
        return b[::2]
    return a


def forms(c, xs=None):
    xs = c["x"] if xs is None else xs
    f = c["form"]
    es = c["e"]
    w = {"a": lambda v, k: line(v, c["layout"]) if k == 0 else line(v, {"2dF": "2d", "2d": "2d", "col": "col"}.get(c["layout"], "C")), "f": lambda v, k: float(v[0]), "n": lambda v, k: np.float64(v[0])}
    return w[f[0]](xs, 0), w[f[1]](es, 1)


def fewer(c):
    if len(c["x"]) > 1:
        for j in range(len(c["x"])):
            yield dict(c, x=c["x"][:j] + c["x"][j + 1:], e=c["e"][:j] + c["e"][j + 1:])


def flat(r):
    return np.asarray(r, dtype=float).reshape(-1)


def shape_of(c):
    return () if "a" not in c["form"] else dims(len(c["x"]), c["layout"])


def true_point(nu, e):
    """conic point over the latus rectum"""
    r = 1 / (1 + e * math.cos(nu))
    return r * math.cos(nu), r * math.sin(nu)


def ecc_point(E, e):
    if e < 1:
        return (math.cos(E) - e) / (1 - e * e), math.sin(E) / math.sqrt(1 - e * e)
    if e > 1:
        return (e - math.cosh(E)) / (e * e - 1), math.sinh(E) / math.sqrt(e * e - 1)
    return (1 - E * E) / 2, E


def near(p, q, tol=1e-7):
    s = 1 + max(abs(x) for x in p + q)
    return all(abs(x - y) <= tol * s for x, y in zip(p, q))


@register("C04")
class C04(Oracle):
    """anomalies of all regimes and revolutions"""

    def gen(self, rng):
        w = pick(rng, "nu", "E")
        return dict(anomaly_inputs(rng, w), what=w)

    def check(self, c):
        x, e = forms(c)
        f, g = (K.true_to_eccentric, K.eccentric_to_true) if c["what"] == "nu" else (K.eccentric_to_true, K.true_to_eccentric)
        y = f(x, e)
        if np.shape(y) != shape_of(c):
            return f"shape {np.shape(y)}"
        z = flat(g(y, forms(c)[1]))
        y = flat(y)
        for j, (a, ec) in enumerate(zip(c["x"], c["e"])):
            if c["what"] == "nu":
                p, q = true_point(a, ec), ecc_point(y[j], ec)
                ok = near(p, q, 1e-7 + blur(ec))
                periodic = True
                wrapped = ec < 1
            else:
                p, q = ecc_point(a, ec), true_point(y[j], ec)
                ok = near(p, q, 1e-7 + blur(ec))
                periodic = ec < 1
                wrapped = True
            if not ok:
                return f"{f.__name__}({a}, {ec}) = {y[j]}: point {q} instead of {p}"
            if wrapped and not 0 <= y[j] < TP + 1e-15:
                return f"{f.__name__}({a}, {ec}) = {y[j]} outside [0, 2 pi)"
            d = angdiff(z[j], a) if periodic else abs(z[j] - a) / (1 + abs(a))
            if not d < 1e-6:
                return f"{g.__name__}({f.__name__}({a}, {ec})) = {z[j]}"
        return None

    def smaller(self, c):
        return fewer(c)


def kepler_residual(M, e, E):
    if e == 1:
        return E + E ** 3 / 3 - M
    if e > 1:
        return e * math.sinh(E) - E - M
    return E - e * math.sin(E) - M


@register("C05")
class C05(Oracle):
    """mean anomalies of all regimes with default and given solver options"""

    def gen(self, rng):
        w = pick(rng, "nu", "E", "M", "M", "M")
        c = dict(anomaly_inputs(rng, w), what=w)
        if w == "M" and rng.random() < 0.5:
            c["options"] = {k: v for k, v in (("tol", pick(rng, 1e-3, 1e-6, 1e-10)), ("max_iter", pick(rng, 1, 2, 100)),
                                              ("degree", pick(rng, 4, 5, 6))) if rng.random() < 0.7}
        return c

    def check(self, c):
        x, e = forms(c)
        if c["what"] == "E":
            y = flat(K.eccentric_to_mean(x, e))
            for a, ec, b in zip(c["x"], c["e"], y):
                r = kepler_residual(b, ec, a)
                if not abs(r) < 1e-9 * (1 + abs(b)):
                    return f"eccentric_to_mean({a}, {ec}) = {b}"
            return None
        if c["what"] == "nu":
            y = flat(K.true_to_mean(x, e))
            ea = flat(K.true_to_eccentric(x, e))
            for a, ec, b, E in zip(c["x"], c["e"], y, ea):
                if not abs(kepler_residual(b, ec, E)) < 1e-9 * (1 + abs(b)):
                    return f"true_to_mean({a}, {ec}) = {b}"
            return None
        opts = c.get("options")
        seen = []
        real = K.laguerre_solve_kepler
        lim = (opts or {}).get("max_iter", 5000)
        tol = (opts or {}).get("tol", 1e-12)

        def spy(*a, **k):
            r = real(*a, **k)
            seen.append((r, k))
            return r
        K.laguerre_solve_kepler = spy
        try:
            given = None if opts is None else dict(opts)
            y = K.mean_to_eccentric(x, e, **({} if opts is None else {"solver_options": given}))
            if opts is not None and given != opts:
                return f"solver options changed to {given}"
            n1 = list(seen)
            nu = K.mean_to_true(x, e, **({} if opts is None else {"solver_options": given}))
        finally:
            K.laguerre_solve_kepler = real
        if np.shape(y) != shape_of(c) or np.shape(nu) != shape_of(c):
            return f"shapes {np.shape(y)} {np.shape(nu)}"
        y = flat(y)
        nu = flat(nu)
        for a, ec, b, t in zip(c["x"], c["e"], y, nu):
            at_limit = any(r[1] >= lim and r[0] == b for r, k in n1)
            r = kepler_residual(a, ec, b)
            rt = 1e-9 if ec == 1 else max(tol, 1e-10)
            if not (abs(r) <= rt * (1 + abs(a)) or at_limit):
                return f"mean_to_eccentric({a}, {ec}, {opts}) = {b}: residual {r}"
            if not at_limit and not near(ecc_point(b, ec), true_point(t, ec), 1e-6) and not abs(t - PI) < 1e-5:
                return f"mean_to_true({a}, {ec}, {opts}) = {t} but eccentric anomaly {b}"
        return None

    def smaller(self, c):
        return fewer(c)


@register("C06")
class C06(Oracle):
    """solver runs from arbitrary starts, and start values"""

    def gen(self, rng):
        e = eccentricity(rng, pick(rng, "circ", "ell", "ell", "hyp"))
        if rng.random() < 0.4:
            return {"M": (angle(rng) if e < 1 else rng.uniform(-30, 30)) if rng.random() < 0.9 else 0.0, "e": e,
                    "arr": rng.random() < 0.5}
        M = angle(rng) + (TP * rng.randint(-2, 2) if e < 1 else 0)
        return {"E0": pick(rng, M, rng.uniform(-7, 7), 0.0, PI), "M": M, "e": e, "tol": 10 ** rng.uniform(-10, 0),
                "max_iter": pick(rng, 1, 2, 3, 10, 5000), "degree": pick(rng, 2, 3, 4, 5, 6)}

    def check(self, c):
        if "E0" in c:
            try:
                with np.errstate(over="raise"):
                    E, it = K.laguerre_solve_kepler(c["E0"], c["M"], c["e"], tol=c["tol"], max_iter=c["max_iter"], degree=c["degree"])
            except (FloatingPointError, OverflowError):
                return None         # a start value so far off that an iterate overflows
            e = c["e"]

            def f(E):
                return c["M"] + E - e * np.sinh(E) if e > 1 else c["M"] - E + e * np.sin(E)
            if not it <= c["max_iter"]:
                return f"{it} iterations with max_iter={c['max_iter']}"
            if (it == 0) != (abs(f(c["E0"])) < c["tol"]):
                return f"{it} iterations from a start value with residual {f(c['E0'])} (tol {c['tol']})"
            if it < c["max_iter"] and not abs(f(E)) < c["tol"] * (1 + 1e-6) + 1e-14:
                return f"stopped after {it} iterations with residual {f(E)} (tol {c['tol']})"
            return None
        M, e = c["M"], c["e"]
        g = (lambda m: float(K.kepler_guess(np.array([m, m]), np.array([e, 0.2]))[0])) if c["arr"] else \
            (lambda m: float(K.kepler_guess(m, e)))
        a = g(M)
        if not math.isfinite(a):
            return f"guess {a} for M={M}, e={e}"
        b = g(-M) if e > 1 else g(TP - M)
        s = -b if e > 1 else TP - b
        if abs(M - PI) > 1e-9 and not abs(a - s) < 1e-7 * (1 + abs(a)):
            return f"guess {a} for M={M}, e={e} but {b} for the mirrored anomaly"
        return None


ROWS6 = {"kep_to_cart": ("kep", "cart", True), "cart_to_kep": ("cart", "kep", True), "kep_to_equi": ("kep", "equi", False),
         "equi_to_kep": ("equi", "kep", False), "cart_to_equi": ("cart", "equi", True), "equi_to_cart": ("equi", "cart", True)}
ANGLES = {"kep": (2, 3, 4, 5), "equi": (5,), "cart": ()}
ANOM = {"true_to_eccentric": "nu", "eccentric_to_true": "E", "eccentric_to_mean": "E", "true_to_mean": "nu",
        "mean_to_eccentric": "M", "mean_to_true": "M"}


def columns(rng, kind, n, regimes=("circ", "ell", "hyp"), mu=1.3):
    ks = [elements(rng, regimes, planar=0.15 if kind == "equi" else 0.35) for _ in range(n)]
    for k in ks:
        if kind == "equi" and k[2] > 3.0:
            k[2] = 0.0
    if kind == "kep":
        return ks
    if kind == "cart":
        return [ref_state(k, mu if isinstance(mu, float) else mu[j]) for j, k in enumerate(ks)]
    return [equi_ref(k) for k in ks]


def equi_ref(k):
    a, e, i, om, Om, nu = k
    return [a, e * math.sin(om + Om), e * math.cos(om + Om), math.tan(i / 2) * math.sin(Om), math.tan(i / 2) * math.cos(Om),
            (om + Om + nu) % TP]


def six_case(rng):
    f = rng.choice(sorted(ROWS6))
    src = ROWS6[f][0]
    n = size(rng)
    reg = ("circ", "ell") if "equi" in ROWS6[f] else ("circ", "ell", "hyp", "par") if f == "kep_to_cart" else ("circ", "ell", "hyp")
    mu = 1.3 if not ROWS6[f][2] or rng.random() < 0.5 else [pick(rng, 1.3, 2.0, 0.7) for _ in range(n)]
    cols = columns(rng, src, n, reg, mu)
    if f == "kep_to_equi":
        for k in cols:
            k[2] = min(k[2], 3.0)
    return {"f": f, "cols": cols, "vec": n == 1 and rng.random() < 0.5, "mu": mu}


def call6(f, x, mu, **kw):
    return getattr(K, f)(x, **(dict(mu=mu) if ROWS6[f][2] else {}), **kw)


def rows_equal(dst, got, want, tol=1e-7):
    """columns of the same kind (radians)"""
    for j in range(got.shape[1]):
        for r in range(6):
            a, b = float(got[r, j]), float(want[r, j])
            if r in ANGLES[dst] and r != 2:
                ok = angdiff(a, b) < 1e-5 and (abs(a - b) < 1e-5 or angdiff(a, 0.0) < 1e-5)
            else:
                s = max(1e-3, abs(a), abs(b))
                if dst == "cart":
                    s = max(s, float(np.max(np.abs(want[(0 if r < 3 else 3):(3 if r < 3 else 6), j]))))
                ok = abs(a - b) <= tol * s
            if not ok:
                return f"row {r} of column {j}: {a} instead of {b}"
    return None


SINGLE = {"orbital_distance": 4, "elliptic_radius": 3, "parabolic_radius": 2, "hyperbolic_radius": 3}


@register("C07")
class C07(Oracle):
    """all functions with a degrees argument"""

    def gen(self, rng):
        x = rng.random()
        if x < 0.5:
            c = six_case(rng)
            if isinstance(c["mu"], list):
                c["mu"] = 1.3
            return c
        if x < 0.75:
            f = rng.choice(sorted(ANOM))
            return dict(anomaly_inputs(rng, ANOM[f]), f=f)
        f = rng.choice(sorted(SINGLE) + ["euler_rotation_matrix", "true_of_the_asymptote"])
        return {"f": f, "arr": rng.random() < 0.5, "v": [rng.uniform(0.1, 1.4) for _ in range(4)]}

    def check(self, c):
        f = c["f"]
        if f in ROWS6:
            src, dst, _ = ROWS6[f]
            x = np.array(c["cols"]).T
            d = x.copy()
            for r in ANGLES[src]:
                d[r] = np.degrees(d[r])
            if c["vec"]:
                x, d = x[:, 0].copy(), d[:, 0].copy()
            R, D = call6(f, x, c["mu"]).reshape(6, -1), np.array(call6(f, d, c["mu"], degrees=True)).reshape(6, -1)
            for r in ANGLES[dst]:
                D[r] = np.radians(D[r])
            m = rows_equal(dst, D, R)
            return m and f"{f} of {c['cols']} in degrees: {m}"
        fn = getattr(K, f)
        if f in ANOM:
            R = flat(fn(*forms(c)))
            D = np.radians(flat(fn(*forms(c, [math.degrees(v) for v in c["x"]]), degrees=True)))
            wrap = "to_true" in f or f == "true_to_eccentric"
            for a, e, p, q in zip(c["x"], c["e"], R, D):
                if wrap and e < 1 or f.endswith("to_true"):
                    ok = angdiff(p, q) < 1e-6 and (abs(p - q) < 1e-6 or angdiff(p, 0.0) < 1e-6)
                else:
                    ok = abs(p - q) < 1e-7 * (1 + abs(p))
                if not ok:
                    return f"{f}({a}, {e}): {p} rad, but {q} rad when given in degrees"
            return None
        v = c["v"]
        w = (lambda t: np.array([t, t])) if c["arr"] else float
        if f == "true_of_the_asymptote":
            p, q = flat(fn(w(1 + v[0]))), np.radians(flat(fn(w(1 + v[0]), degrees=True)))
        elif f == "euler_rotation_matrix":
            p, q = flat(fn(*map(w, v[:3]))), flat(fn(*[w(math.degrees(t)) for t in v[:3]], degrees=True))
        elif f == "orbital_distance":
            p, q = flat(fn(*map(w, v))), flat(fn(w(v[0]), w(v[1]), w(v[2]), w(math.degrees(v[3])), degrees=True))
        else:
            n = SINGLE[f]
            p, q = flat(fn(*map(w, v[:n]))), flat(fn(w(math.degrees(v[0])), *map(w, v[1:n]), degrees=True))
        if p.shape != q.shape or not np.allclose(p, q, rtol=1e-9, atol=1e-12):
            return f"{f}{v}: {p.tolist()} in radians, {q.tolist()} in degrees"
        return None


@register("C08")
class C08(Oracle):
    """mixtures of regimes in arrays against single orbits"""

    def gen(self, rng):
        if rng.random() < 0.05:
            f = rng.choice(sorted(ANOM) + ["kepler_guess"] + sorted(ROWS6))
            return dict(f=f, empty=[6, 0] if f in ROWS6 else pick(rng, [0], [0, 2], [3, 0]), form=pick(rng, "aa", "as", "sa"),
                        deg=rng.random() < 0.4)
        if rng.random() < 0.6:
            c = six_case(rng)
            c["deg"] = rng.random() < 0.4
            c["layout"] = pick(rng, "C", "F", "strided", "reversed")
            return c
        f = rng.choice(sorted(ANOM) + ["kepler_guess"])
        return dict(anomaly_inputs(rng, ANOM.get(f, "M")), f=f, deg=rng.random() < 0.4)

    def empty(self, c):
        z = np.empty(c["empty"])
        f, kw = c["f"], {} if c["f"] == "kepler_guess" else {"degrees": c["deg"]}
        args = [z] if f in ROWS6 else [z if k == "a" else 0.5 for k in c["form"]]
        try:
            r = getattr(K, f)(*args, **kw)
        except Exception as ex:
            return f"{f} of empty arrays of shape {c['empty']} ({c['form']}): {type(ex).__name__}: {ex}"
        if not isinstance(r, np.ndarray) or r.shape != z.shape:
            return f"{f} of empty arrays of shape {c['empty']} ({c['form']}): {r!r}"
        return None

    def check(self, c):
        f = c["f"]
        if "empty" in c:
            return self.empty(c)
        if f in ROWS6:
            src, dst, _ = ROWS6[f]
            x = np.array(c["cols"]).T
            if c["deg"]:
                for r in ANGLES[src]:
                    x[r] = np.degrees(x[r])
            lay = c["layout"]
            arg = np.array(x[:, ::-1])[:, ::-1] if lay == "reversed" else layout(x, lay)
            out = np.array(call6(f, arg, mu_arg(c["mu"]), degrees=c["deg"]))
            if out.shape != x.shape:
                return f"{f}: shape {out.shape} for input {x.shape}"
            one = np.array([call6(f, x[:, j].copy(), mu_at(c["mu"], j), degrees=c["deg"]) for j in range(x.shape[1])])
            if one.shape != x.T.shape:
                return f"{f}: shape {one.shape[1:]} of the result for one vector"
            one = one.T.copy()
            if c["deg"]:
                for r in ANGLES[dst]:
                    out[r], one[r] = np.radians(out[r]), np.radians(one[r])
            m = rows_equal(dst, out, one)
            return m and f"{f} of the columns {x.T.tolist()} (mu={c['mu']}, degrees={c['deg']}): {m} for that column alone"
        fn = getattr(K, f)
        xs = [math.degrees(v) for v in c["x"]] if c["deg"] and f != "kepler_guess" else c["x"]
        kw = {} if f == "kepler_guess" else {"degrees": c["deg"]}
        r = fn(*forms(c, xs), **kw)
        if np.shape(r) != shape_of(c):
            return f"{f}: shape {np.shape(r)}"
        r = flat(r)
        for j, (a, e) in enumerate(zip(xs, c["e"])):
            s = float(fn(float(a), float(e), **kw))
            k = math.radians if c["deg"] else float
            ok = abs(s - r[j]) < 1e-7 * (1 + abs(s)) or (e < 1 or f.endswith("true")) and angdiff(k(s), k(r[j])) < 1e-6 and angdiff(k(s), 0.0) < 1e-6
            if not ok:
                return f"{f} of x={xs}, e={c['e']} ({c['form']}, {c['layout']}): element {j} is {r[j]}, alone it is {s}"
        return None

    def smaller(self, c):
        if "empty" in c:
            return []
        if c["f"] in ROWS6:
            return drop_columns(c, "cols")
        return fewer(c)


@register("C09")
class C09(Oracle):
    """arguments of all functions before and after the call, for all data types"""

    def gen(self, rng):
        dt = pick(rng, "float64", "float64", "float32", "int64", "int32")
        x = rng.random()
        if x < 0.6:
            c = six_case(rng)
            if isinstance(c["mu"], list) and rng.random() < 0.5:
                c["mu"] = 1.3
            c.update(deg=rng.random() < 0.5, dtype=dt)
            if dt.startswith("int"):
                src = ROWS6[c["f"]][0]
                n = len(c["cols"])
                c["cols"] = [[rng.randint(1, 6), pick(rng, 0, 2) if c["f"] == "kep_to_cart" else 0, rng.randint(0, 2), rng.randint(0, 6), rng.randint(0, 6), pick(rng, 0, 1)]
                             if src == "kep" else [rng.randint(1, 6), rng.randint(1, 4), rng.randint(-3, 3), 0, rng.randint(-1, 1), 1]
                             if src == "cart" else [rng.randint(1, 6), 0, 0, rng.randint(0, 2), rng.randint(-1, 1), rng.randint(0, 6)] for _ in range(n)]
            return c
        f = rng.choice(sorted(ANOM) + ["kepler_guess"])
        c = dict(anomaly_inputs(rng, ANOM.get(f, "M")), f=f, deg=f != "kepler_guess" and rng.random() < 0.5, dtype=dt)
        if "a" not in c["form"]:
            c["form"] = "aa"
        if dt.startswith("int"):
            if c["form"][1] == "a":
                c["e"] = [pick(rng, 0, 0, 1, 2, 3) for _ in c["e"]]
            if c["form"][0] == "a":
                c["x"] = [pick(rng, 0, 1) for _ in c["x"]]
            else:
                c["x"] = [rng.uniform(0.1, 0.9)] * len(c["x"])
        return c

    def check(self, c):
        f = c["f"]
        dt = np.dtype(c["dtype"])
        if f in ROWS6:
            x = np.array(c["cols"]).T
            if c["deg"] and dt.kind == "f":
                for r in ANGLES[ROWS6[f][0]]:
                    x[r] = np.degrees(x[r])
            x = x.astype(dt)
            if c["vec"]:
                x = x[:, 0].copy()
            args = [x]
            kw = {"degrees": c["deg"]}
            if ROWS6[f][2]:
                mu = mu_arg(c["mu"])
                if isinstance(mu, np.ndarray) and dt == np.float32:
                    mu = mu.astype(dt)
                kw["mu"] = mu
        else:
            args = [a.astype(dt) if isinstance(a, np.ndarray) else a for a in forms(c)]
            kw = {} if f == "kepler_guess" else {"degrees": c["deg"]}
        arrays = [v for v in args + list(kw.values()) if isinstance(v, np.ndarray)]
        before = [(a.tobytes(), a.shape, a.dtype, a.strides) for a in arrays]
        out = getattr(K, f)(*args, **kw)
        after = [(a.tobytes(), a.shape, a.dtype, a.strides) for a in arrays]
        if before != after:
            return f"{f} changed its input {args} ({kw})"
        if not isinstance(out, np.ndarray):
            return f"{f} returned {type(out).__name__}"
        if any(np.shares_memory(out, a) for a in arrays):
            return f"{f} returned memory of its input"
        if out.dtype.kind != "f":
            return f"{f} of {dt} returned {out.dtype}"
        if dt == np.float32 and out.dtype != np.float32 and c.get("form", "aa") == "aa":
            return f"{f} of float32 returned {out.dtype}"
        if dt.kind == "i":
            ref = np.asarray(getattr(K, f)(*[a.astype(float) if isinstance(a, np.ndarray) else a for a in args], **kw))
            if ref.shape != out.shape or not np.allclose(out, ref, rtol=1e-9, atol=1e-9, equal_nan=True):
                return f"{f} of integers {[np.asarray(a).tolist() for a in args]} gives {out.tolist()}, of floats {ref.tolist()}"
        return None


@register("C10")
class C10(Oracle):
    """elliptic orbits, inclination below pi"""

    def gen(self, rng):
        n = size(rng)
        ks = [elements(rng, ("circ", "ell"), planar=0.2) for _ in range(n)]
        for k in ks:
            if k[2] > 3.0:
                k[2] = 0.0
            if rng.random() < 0.3:
                k[3] += TP * rng.randint(-2, 1)
                k[4] += TP * rng.randint(-2, 1)
        return {"kep": ks, "mu": mu_of(rng, n), "vec": n == 1 and rng.random() < 0.5, "deg": rng.random() < 0.5}

    def check(self, c):
        deg = c["deg"]
        vec = c["vec"] and not isinstance(c["mu"], list)
        kep = np.array(c["kep"]).T
        arg = kep.copy()
        if deg:
            arg[2:] = np.degrees(arg[2:])
        if vec:
            arg = arg[:, 0].copy()
        q = K.kep_to_equi(arg, degrees=deg)
        Q = np.array(q).reshape(6, -1)
        if q.shape != arg.shape:
            return f"shape {q.shape}"
        lam = np.radians(Q[5]) if deg else Q[5]
        for j, k in enumerate(c["kep"]):
            want = equi_ref(k)
            for r in range(5):
                if not abs(Q[r, j] - want[r]) < 1e-9 * max(1, abs(want[r])):
                    return f"kep_to_equi of {k}: {Q[:, j].tolist()} instead of {want}"
            if angdiff(lam[j], want[5]) > 1e-9 or not 0 <= Q[5, j] <= (360 if deg else TP):
                return f"kep_to_equi of {k}: longitude {Q[5, j]}, expected {want[5]} rad"
        back = np.array(K.equi_to_kep(np.array(q), degrees=deg)).reshape(6, -1)
        if deg:
            back[2:] = np.radians(back[2:])
        for j, k in enumerate(c["kep"]):
            want = canonical(k)
            m = kep_close(back[:, j], want)
            if m:
                return f"equi_to_kep(kep_to_equi({k})) = {back[:, j].tolist()}: {m}"
        # states, with the anomaly element as mean anomaly
        mu = mu_arg(c["mu"])
        nu = np.array([float(K.mean_to_true(k[5] % TP, k[1])) for k in c["kep"]])
        kt = kep.copy()
        kt[5] = nu
        st = np.array([ref_state(kt[:, j], mu_at(c["mu"], j)) for j in range(kt.shape[1])]).T
        cart = np.array(K.equi_to_cart(np.array(q), mu=mu, degrees=deg)).reshape(6, -1)
        for j in range(kt.shape[1]):
            if not state_close(cart[:, j], st[:, j].tolist(), 1e-6):
                return f"equi_to_cart of the elements of {c['kep'][j]} is {cart[:, j].tolist()}, expected {st[:, j].tolist()}"
        s = st[:, 0].copy() if vec else st
        q2 = np.array(K.cart_to_equi(s, mu=mu, degrees=deg)).reshape(6, -1)
        l2 = np.radians(q2[5]) if deg else q2[5]
        for j, k in enumerate(c["kep"]):
            want = equi_ref(k)
            for r in range(5):
                if not abs(q2[r, j] - want[r]) < 1e-6 * max(1, abs(want[r])):
                    return f"cart_to_equi of the state of {k}: {q2[:, j].tolist()} instead of {want}"
            if angdiff(l2[j], want[5]) > 1e-5:
                return f"cart_to_equi of the state of {k}: longitude {l2[j]} rad, expected {want[5]}"
        return None

    def smaller(self, c):
        return drop_columns(c)


@register("C11")
class C11(Oracle):
    """orbits of every regime, scalars and arrays"""

    def gen(self, rng):
        n = size(rng)
        reg = pick(rng, "ell", "circ", "hyp", "par")
        c = {"kep": [elements(rng, (reg,)) for _ in range(n)], "mu": 10 ** rng.uniform(-1, 1), "reg": reg, "arr": n > 1 or rng.random() < 0.5,
             "deg": rng.random() < 0.4, "ints": rng.random() < 0.2}
        if rng.random() < 0.3:
            for k in c["kep"]:
                if reg == "ell":
                    k[1] = pick(rng, 1 - 10 ** rng.uniform(-4, -1), limit(rng, 1e-4, 0.9999, 0.3))
                elif reg == "hyp":
                    k[1] = pick(rng, 10 ** rng.uniform(0.01, 4), limit(rng, 1.01, 1e4, 1.2))
                    k[5] = rng.uniform(-0.95, 0.95) * math.acos(-1 / k[1])
                k[0] *= 10 ** rng.uniform(-4, 8)
        if c["ints"]:
            for k in c["kep"]:
                k[0] = float(rng.choice([rng.randrange(1, 9), rng.randrange(10 ** 5, 10 ** 12)]))
        return c

    def check(self, c):
        mu, reg = c["mu"], c["reg"]
        kep = np.array(c["kep"]).T
        st = np.array([ref_state(k, mu) for k in c["kep"]]).T
        r = np.linalg.norm(st[:3], axis=0)
        v = np.linalg.norm(st[3:], axis=0)
        h = np.linalg.norm(np.cross(st[:3], st[3:], axis=0), axis=0)
        a, e, nu = kep[0], kep[1], kep[5]
        w = (lambda x: np.array(x)) if c["arr"] else (lambda x: float(x[0]))
        A = (lambda x: w(np.degrees(x))) if c["deg"] else w
        dg = {"degrees": c["deg"]}

        def bad(name, got, want, tol=1e-8):
            got, want = flat(got), np.array(want)[:len(flat(got))]
            if got.shape != (len(want),) or (c["arr"] and len(got) != len(a)):
                return f"{name}: shape {got.shape}"
            for g, x in zip(got, want):
                if not close(g, x, tol):
                    return f"{name} gives {g}, expected {x} (elements {c['kep']}, mu {mu})"
            return None
        sa = a if reg != "hyp" else -a
        tests = []
        if c.get("ints"):
            whole = (lambda x: np.array(x).astype(np.int64)) if c["arr"] else (lambda x: int(x[0]))
            w0, w = w, lambda x: whole(x) if x is a or x is sa else w0(x)
        if reg == "par":
            tests += [("parabolic_total_angular_momentum", K.parabolic_total_angular_momentum(w(a), mu), h),
                      ("parabolic_radius", K.parabolic_radius(A(nu), w(a), **dg), r)]
        else:
            tests += [("orbit_total_angular_momentum", K.orbit_total_angular_momentum(w(sa), w(e), mu), h),
                      ("orbital_speed", K.orbital_speed(w(r), w(sa), mu), v)]
        tests.append(("orbital_distance", K.orbital_distance(w(h), mu, w(e), A(nu), **dg), r))
        if reg in ("ell", "circ"):
            E = np.array([math.atan2(math.sqrt(1 - x * x) * math.sin(y), x + math.cos(y)) for x, y in zip(e, nu)])
            tests += [("elliptic_radius", K.elliptic_radius(A(E), w(a), w(e), **dg), r),
                      ("orbital_period", K.orbital_period(w(a), mu), 2 * np.pi * a ** 1.5 / math.sqrt(mu)),
                      ("semi_major_axis", K.semi_major_axis(w(2 * np.pi * a ** 1.5 / math.sqrt(mu)), mu), a)]
        if reg == "hyp":
            tests.append(("hyperbolic_radius", K.hyperbolic_radius(A(nu), w(a), w(e), **dg), r))
            t = flat(K.true_of_the_asymptote(w(e), **dg))
            t = np.radians(t) if c["deg"] else t
            for x, y in zip(e, t):
                if not (PI / 2 < y < PI and abs(1 + x * math.cos(y)) < 1e-9):
                    return f"true_of_the_asymptote({x}) = {y} rad"
        for t in tests:
            m = bad(*t)
            if m:
                return m
        return None


def rot_ref(k, t):
    c, s = math.cos(t), math.sin(t)
    return np.array({"x": [[1, 0, 0], [0, c, -s], [0, s, c]], "y": [[c, 0, s], [0, 1, 0], [-s, 0, c]],
                     "z": [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[k])


@register("C12")
class C12(Oracle):
    """rotation matrices, all combinations of scalar and array angles"""

    def gen(self, rng):
        if rng.random() < 0.4:
            return {"axis": pick(rng, "x", "y", "z"), "t": rng.uniform(-10, 10), "dtype": pick(rng, None, "float32", "float64")}
        n = pick(rng, 1, 2, 3, 5)
        return {"ang": [[rng.uniform(-7, 7) for _ in range(n)] for _ in range(3)], "form": [pick(rng, "a", "a", "f", "f", "i", "j") for _ in range(3)],
                "deg": rng.random() < 0.4}

    def check(self, c):
        if "axis" in c:
            kw = {} if c["dtype"] is None else {"dtype": np.dtype(c["dtype"]).type}
            R = getattr(K, "rot_mat_" + c["axis"])(c["t"], **kw)
            want = np.dtype(c["dtype"] or "float64")
            if R.dtype != want or R.shape != (3, 3) or not np.allclose(R, rot_ref(c["axis"], c["t"]), atol=1e-6 if want == np.float32 else 1e-12):
                return f"rot_mat_{c['axis']}({c['t']}) = {R.tolist()} ({R.dtype})"
            return None
        ang = [[float(round(x)) if f in "ij" else x for x in v] for v, f in zip(c["ang"], c["form"])]
        d = (lambda x, f: x if f in "ij" else math.degrees(x)) if c["deg"] else (lambda x, f: x)
        if c["deg"]:
            ang = [[math.radians(x) if f in "ij" else x for x in v] for v, f in zip(ang, c["form"])]
        arg = {"a": lambda v: np.array([d(x, "a") for x in v]), "f": lambda v: d(v[0], "f"), "i": lambda v: np.array([round(x) for x in v]), "j": lambda v: round(v[0])}
        i, om, Om = [arg[f](v) for v, f in zip(c["ang"], c["form"])]
        R = K.euler_rotation_matrix(i, om, Om, degrees=c["deg"])
        n = len(c["ang"][0]) if set("ai") & set(c["form"]) else None
        if R.shape != ((3, 3) if n is None else (3, 3, n)):
            return f"shape {R.shape} for {c['form']}"
        for j in range(n or 1):
            a = [v[j] if f in "ai" else v[0] for v, f in zip(ang, c["form"])]
            want = rot_ref("z", a[2]) @ rot_ref("x", a[0]) @ rot_ref("z", a[1])
            got = R if n is None else R[:, :, j]
            if not np.allclose(got, want, atol=1e-10):
                return f"euler_rotation_matrix{tuple(a)} = {got.tolist()}"
        return None


@register("C13")
class C13(Oracle):
    """arguments of both signs and zero, scalars and arrays"""

    def gen(self, rng):
        n = size(rng)
        k = pick(rng, "float", "array", "array", "int", "intarray", "list2d")
        xs = [pick(rng, 0.0, rng.uniform(0.1, 30), -rng.uniform(0.1, 30), 1.0, -1.0, rng.choice([-1, 1]) * 10 ** rng.uniform(-5, 1.5), rng.choice([-1, 1]) * limit(rng, 1e-6, 35, 2.0),
                   rng.choice([-1, 1]) * limit(rng, 1e-3, 5, 2.0) ** 2, rng.choice([-1, 1]) * 10 ** rng.uniform(1.5, 4.5), rng.choice([-1, 1]) * limit(rng, 30, 3e4, 50.0), pick(rng, 1, 0.25, 2, 3) * PI ** 2) for _ in range(n)]
        if k.startswith("int"):
            xs = [float(round(x)) for x in xs]
        return {"x": xs, "kind": k}

    def check(self, c):
        xs, k = c["x"], c["kind"]
        arg = {"float": lambda: xs[0], "int": lambda: int(xs[0]), "array": lambda: np.array(xs), "intarray": lambda: np.array(xs, dtype=int),
               "list2d": lambda: np.array([xs, xs])}[k]()
        res = K.stumpff(arg)
        sep = (K.stumpff0(arg), K.stumpff1(arg), K.stumpff2(arg), K.stumpff3(arg))
        if len(res) != 4 or not all(np.array_equal(a, b) for a, b in zip(res, sep)):
            return f"stumpff({xs}) = {res}"
        for n in range(4):
            if np.shape(res[n]) != np.shape(arg):
                return f"shape {np.shape(res[n])} of stumpff{n}"
            for x, y in zip(np.asarray(arg, dtype=float).reshape(-1), flat(res[n])):
                w = self.ref(n, x)
                if not abs(w - y) < 1e-10 * (1 + abs(w)) / min(1.0, abs(x) * 100 if x else 1.0):
                    return f"stumpff{n}({x}) = {y}, expected {w}"
        return None

    def ref(self, n, x):
        if abs(x) < 40:
            s, t = 0.0, 1.0 / math.factorial(n)
            for j in range(60):
                s += t
                t *= -x / ((n + 2 * j + 1) * (n + 2 * j + 2))
            return s
        s = math.sqrt(abs(x))
        c, q = (math.cos(s), math.sin(s)) if x > 0 else (math.cosh(s), math.sinh(s))
        return (c, q / s, (1 - c) / x, (s - q) / (s * x))[n]

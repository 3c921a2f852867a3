"""oracles for pyorb.Orbit: random histories against a model that converts at once"""
import copy
import math

import numpy as np

from run import Oracle
from lits import beside, numbers

import pyorb
from pyorb import kepler as K


ORACLES = {}
PI, TP = math.pi, 2 * math.pi
KN = ["a", "e", "i", "omega", "Omega", "anom"]
CN = ["x", "y", "z", "vx", "vy", "vz"]
TYPES = ["true", "eccentric", "mean"]
NAN = float("nan")


def register(pid):
    def f(cls):
        ORACLES[pid] = cls()
        return cls
    return f


class Stop(Exception):
    """the history left the part of the domain that can be compared numerically"""


class Bad(Exception):
    pass


# ------------------------------------------------------------------ model
class Model:
    def __init__(self, n, G, M0, degrees, typ):
        self.G, self.M0, self.degrees, self.type = G, M0, degrees, typ
        self.kep = [[NAN] * 6 for _ in range(n)]
        self.cart = [[NAN] * 6 for _ in range(n)]
        self.m = [0.0] * n
        self.last = [None] * n
        # relative tolerance of the comparisons: element angles found with arccos next to
        # 0 or half a turn are known to 1.5e-8 only, which an orbit near e = 1 amplifies
        self.err, self.tol = 0.0, 1e-6
        # elements that were computed, so that angles are known up to a revolution
        self.wrap = [[False] * 6 for _ in range(n)]

    @property
    def n(self):
        return len(self.m)

    def mu(self, j):
        return self.G * (self.M0 + self.m[j])

    def circ(self):
        return 360.0 if self.degrees else TP

    def rad(self, x):
        return math.radians(x) if self.degrees else x

    def deg(self, x):
        return math.degrees(x) if self.degrees else x

    def anomaly(self, j, typ, x=None, src=None):
        """anomaly of another type, by direct formulas (bound and unbound orbits)"""
        src = src or self.type
        x = self.kep[j][5] if x is None else x
        return self.deg(conv(self.rad(x), self.kep[j][1], src, typ))

    def sync(self, j):
        if self.last[j] == "k" and not any(map(math.isnan, self.kep[j])):
            k = list(self.kep[j])
            for q in (2, 3, 4):
                k[q] = self.rad(k[q])
            k[5] = conv(self.rad(k[5]), k[1], self.type, "true")
            guard(k)
            self.known(k[1])
            self.cart[j] = state(k, self.mu(j))
        elif self.last[j] == "c" and not any(map(math.isnan, self.cart[j])):
            k = [float(t) for t in K.cart_to_kep(np.array(self.cart[j]), mu=self.mu(j))]
            guard(k)
            x = max(1e-300, min(abs(math.sin(t)) for t in k[3:6]))
            self.err += min(2e-8, 1e-15 / x)
            self.known(k[1])
            k[5] = conv(k[5], k[1], "true", self.type)
            self.kep[j] = k[:2] + [self.deg(t) for t in k[2:]]

    def known(self, e):
        self.tol = max(self.tol, 100 * self.err / (1 - e) ** 2)
        if self.tol > 1e-3:
            raise Stop

    def set(self, rep, j, vals, wrap=False):
        """vals: {row: value}"""
        self.wrap[j] = [True] * 6 if rep == "c" else [wrap if q in vals else w for q, w in enumerate(self.wrap[j])]
        (self.kep if rep == "k" else self.cart)[j] = [vals.get(q, old) for q, old in enumerate((self.kep if rep == "k" else self.cart)[j])]
        self.last[j] = rep
        self.sync(j)

    def copy(self):
        return copy.deepcopy(self)


def guard(k):
    a, e, i, om, Om, nu = k
    if not (a > 0 and e > 0.002 and abs(e - 1) > 0.05 and e < 20 and 0.03 < abs(math.sin(i)) and a < 1e6):
        raise Stop
    if e > 1 and 1 + e * math.cos(nu) < 0.1:
        raise Stop


def conv(x, e, src, dst):
    """anomaly of one type to another, radians"""
    if src == dst:
        return x
    if e < 1:
        turns = math.floor((x + PI) / TP) if src == "mean" else 0
        if src == "true":
            E = 2 * math.atan2(math.sqrt(1 - e) * math.sin(x / 2), math.sqrt(1 + e) * math.cos(x / 2)) % TP
        elif src == "eccentric":
            E = x
        else:
            M = x - turns * TP
            E = M
            lo, hi = M - e - 1e-9, M + e + 1e-9
            for _ in range(200):
                E = (lo + hi) / 2
                if E - e * math.sin(E) > M:
                    hi = E
                else:
                    lo = E
            E += turns * TP
        if dst == "mean":
            return E - e * math.sin(E)
        if dst == "eccentric":
            return E
        return 2 * math.atan2(math.sqrt(1 + e) * math.sin(E / 2), math.sqrt(1 - e) * math.cos(E / 2)) % TP
    if src == "true":
        x = (x + PI) % TP - PI
        E = 2 * math.atanh(math.sqrt((e - 1) / (e + 1)) * math.tan(x / 2))
    elif src == "eccentric":
        E = x
    else:
        lo, hi = -60.0, 60.0
        for _ in range(300):
            E = (lo + hi) / 2
            if e * math.sinh(E) - E > x:
                hi = E
            else:
                lo = E
    if dst == "mean":
        return e * math.sinh(E) - E
    if dst == "eccentric":
        return E
    return 2 * math.atan(math.sqrt((e + 1) / (e - 1)) * math.tanh(E / 2)) % TP


def state(k, mu):
    from kep import ref_state
    return ref_state(k, mu)


# ------------------------------------------------------------------ comparison
def close(x, y, tol, scale):
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    return abs(x - y) <= tol * max(abs(scale), 1e-12)


def compare(got_kep, got_cart, model, what="", exact=True):
    got_kep, got_cart = np.asarray(got_kep), np.asarray(got_cart)
    if got_kep.shape != (6, model.n) or got_cart.shape != (6, model.n):
        raise Bad(f"{what}shape {got_kep.shape} {got_cart.shape} instead of {(6, model.n)}")
    for j in range(model.n):
        w = model.kep[j]
        for q in range(6):
            g = float(got_kep[q, j])
            if math.isnan(w[q]) or math.isnan(g):
                ok = math.isnan(w[q]) and math.isnan(g)
            elif q < 2:
                ok = close(g, w[q], model.tol, w[q])
            elif exact and not model.wrap[j][q]:
                ok = close(g, w[q], 1e-7, max(abs(w[q]), 1e-3 * model.circ()))
            elif q == 5 and w[1] > 1 and model.type != "true":
                ok = close(g, w[q], 10 * model.tol, max(abs(w[q]), 1.0))
            else:
                d = (g - w[q]) % model.circ()
                ok = min(d, model.circ() - d) < model.tol * model.circ()
            if not ok:
                raise Bad(f"{what}{KN[q]} of orbit {j} is {g!r} instead of {w[q]!r}")
        w = model.cart[j]
        for q in range(6):
            g = float(got_cart[q, j])
            s = math.sqrt(sum(t * t for t in w[:3])) if q < 3 else math.sqrt(sum(t * t for t in w[3:]))
            if math.isnan(w[q]) or math.isnan(g):
                ok = math.isnan(w[q]) and math.isnan(g)
            else:
                ok = close(g, w[q], model.tol, s)
            if not ok:
                raise Bad(f"{what}{CN[q]} of orbit {j} is {g!r} instead of {w[q]!r}")


def check_all(orb, model, what="", exact=True):
    if orb.num != model.n or len(orb) != model.n:
        raise Bad(f"{what}{orb.num} orbits instead of {model.n}")
    if orb.type != model.type:
        raise Bad(f"{what}anomaly type {orb.type!r} instead of {model.type!r}")
    if not np.array_equal(np.asarray(orb.m, dtype=float), np.array(model.m)):
        raise Bad(f"{what}masses {orb.m} instead of {model.m}")
    compare(orb.kepler, orb.cartesian, model, what, exact)


# ------------------------------------------------------------------ histories
LIMITS = numbers("orbit.py", lo=1e-4, hi=1e5)
SIZES = sorted({int(x) + d for x in numbers("orbit.py", lo=2, hi=40) if x == int(x) for d in (0, 1)})


def limit(rng, lo, hi, default):
    """a number of the source text that lies in this range, or one beside it"""
    xs = [x for x in LIMITS if lo <= x <= hi]
    y = beside(rng, rng.choice(xs)) if xs else default
    return y if lo <= y <= hi else default


def new_kep(rng, model_deg):
    c = 360.0 if model_deg else TP
    if rng.random() < 0.15:
        return [rng.choice([10 ** rng.uniform(-2, 3), limit(rng, 1e-3, 1e4, 1.5)]), rng.choice([10 ** rng.uniform(-2.5, -1), rng.uniform(0.8, 0.95), limit(rng, 2e-3, 0.95, 0.3)]),
                rng.choice([rng.uniform(0.02, 0.48), rng.choice([0.02, 0.25, 0.48])]) * c, rng.choice([0.0, 0.25, 0.5, 0.75, 2.3, -1.4, rng.uniform(-2, 3)]) * c,
                rng.choice([0.0, 0.25, 0.5, 0.75, rng.uniform(0, 1)]) * c, rng.choice([0.0, 0.5, 1e-3, 0.999, rng.uniform(0, 1)]) * c]
    return [round(rng.uniform(0.5, 3), 3), round(rng.uniform(0.05, 0.8), 3), round(rng.uniform(0.05, 0.42), 3) * c,
            round(rng.uniform(-0.2, 1.2), 3) * c, round(rng.uniform(0, 1), 3) * c, round(rng.uniform(0, 1), 3) * c]


def sel(rng, n):
    """a selection of orbits: (kind, data)"""
    kind = rng.choice(["int", "list", "mask", "slice", "all", "array", "negative"])
    if n == 0:
        return ["all", None]
    if kind == "int":
        return [kind, rng.randrange(n)]
    if kind == "negative":
        return ["int", -1 - rng.randrange(n)]
    if kind in ("list", "array"):
        return [kind, sorted(rng.sample(range(n), rng.randint(1, n)))]
    if kind == "mask":
        m = [rng.random() < 0.5 for _ in range(n)]
        return [kind, m]
    if kind == "slice":
        a = rng.randrange(n + 1)
        return [kind, [a, rng.randint(a, n)]]
    return ["all", None]


def sel_obj(s):
    kind, d = s
    return {"int": lambda: d, "list": lambda: list(d), "array": lambda: np.array(d, dtype=int), "mask": lambda: np.array(d, dtype=bool),
            "slice": lambda: slice(*d), "all": lambda: slice(None)}[kind]()


def sel_idx(s, n):
    kind, d = s
    if kind == "int":
        return [d % n] if n else []
    if kind in ("list", "array"):
        return list(d)
    if kind == "mask":
        return [j for j in range(n) if d[j]]
    if kind == "slice":
        return list(range(n))[slice(*d)]
    return list(range(n))


def elem_values(rng, name, n, deg, scalar):
    """values for one element; Cartesian ones are relative to the current state"""
    k = 1 if scalar else n
    if name in KN:
        q = KN.index(name)
        return [new_kep(rng, deg)[q] for _ in range(k)]
    return [round(rng.uniform(-0.1, 0.1), 3) for _ in range(k)]


def gen_change(rng, n, deg):
    """one change of elements"""
    kind = rng.choice(["attr"] * 5 + ["update"] * 4 + ["block", "block", "rv", "anomaly", "period", "velocity", "equinoctial", "propagate", "updblock"])
    sc = rng.random() < 0.4
    if kind == "attr":
        name = rng.choice(KN + CN)
        return {"op": "attr", "name": name, "scalar": sc, "vals": elem_values(rng, name, n, deg, sc)}
    if kind == "update":
        names = rng.sample(KN if rng.random() < 0.6 else CN, rng.randint(1, 3))
        s = sel(rng, n)
        k = len(sel_idx(s, n))
        sc = sc or s[0] == "int"
        return {"op": "update", "names": names, "sel": s, "scalar": sc, "vals": [elem_values(rng, m, k, deg, sc) for m in names]}
    if kind == "updblock":
        s = sel(rng, n)
        rep = rng.choice("kc")
        k = 1 if s[0] == "int" else len(sel_idx(s, n))
        return {"op": "updblock", "rep": rep, "sel": s, "vals": [new_kep(rng, deg) for _ in range(k)]}
    if kind == "block":
        rep = rng.choice("kc")
        one = rng.random() < 0.3
        return {"op": "block", "rep": rep, "one": one, "vals": [new_kep(rng, deg) for _ in range(1 if one else n)]}
    if kind == "rv":
        return {"op": "rv", "name": rng.choice("rv"), "vals": [[round(rng.uniform(-0.1, 0.1), 3) for _ in range(3)] for _ in range(n)]}
    if kind == "anomaly":
        return {"op": "anomaly", "name": rng.choice(TYPES), "scalar": sc, "vals": [round(rng.uniform(0, 1), 3) for _ in range(1 if sc else n)]}
    if kind == "period":
        return {"op": "period", "name": rng.choice(["period", "mean_motion"]), "scalar": sc, "vals": [round(rng.uniform(2, 20), 3) for _ in range(1 if sc else n)]}
    if kind == "velocity":
        return {"op": "velocity", "vals": [round(rng.uniform(0.9, 1.05), 3) for _ in range(n)], "scalar": rng.random() < 0.25}
    if kind == "equinoctial":
        return {"op": "equinoctial", "vals": [new_kep(rng, deg) for _ in range(n)]}
    return {"op": "propagate", "scalar": sc, "vals": [0.0 if rng.random() < 0.05 else round(rng.uniform(-20, 20), 3) for _ in range(1 if sc else n)]}


def per(vals, n, scalar):
    return list(vals) * n if scalar else list(vals)


def arr(vals, scalar):
    return float(vals[0]) if scalar else np.array(vals, dtype=float)


def bound(model, idx=None):
    for j in range(model.n) if idx is None else idx:
        if not model.kep[j][1] < 1:
            raise Stop


def rel_values(model, name, idx, vals):
    """Cartesian values relative to the current state"""
    q = CN.index(name)
    out = []
    for j, f in zip(idx, vals):
        c = model.cart[j]
        if any(map(math.isnan, c)):
            raise Stop
        s = math.sqrt(sum(t * t for t in (c[:3] if q < 3 else c[3:])))
        out.append(c[q] + f * s)
    return out


def blocks(model, rep, idx, vals):
    """whole element sets; a Cartesian one is the state of these elements"""
    out = []
    for j, v in zip(idx, vals):
        if rep == "k":
            out.append(list(v))
        else:
            k = v[:2] + [model.rad(t) for t in v[2:]]
            guard(k)
            out.append(state(k, model.mu(j)))
    return out


def apply(orb, model, op, dry=False):
    """perform op on the orbit and on the model (the model first: its domain checks stop the history)"""
    n = model.n
    o = op["op"]
    if o == "attr":
        name = op["name"]
        if name in KN:
            vs = per(op["vals"], n, op["scalar"])
            real = arr(op["vals"], op["scalar"])
            rep, q = "k", KN.index(name)
            if name == "anom":
                bound(model)
        else:
            rep, q = "c", CN.index(name)
            sc = op["scalar"] and n == 1
            vs = rel_values(model, name, range(n), per(op["vals"], n, op["scalar"]))
            real = vs[0] if sc else np.array(vs)
        for j in range(n):
            model.set(rep, j, {q: vs[j]})
        return lambda: setattr(orb, name, real)
    if o == "update":
        idx = sel_idx(op["sel"], n)
        rep = "k" if op["names"][0] in KN else "c"
        kw, per_j = {}, [{} for _ in idx]
        for name, vals in zip(op["names"], op["vals"]):
            if rep == "k":
                vs = per(vals, len(idx), op["scalar"])
                kw[name] = float(vals[0]) if op["scalar"] else np.array(vals, dtype=float)
                q = KN.index(name)
            else:
                q = CN.index(name)
                vs = rel_values(model, name, idx, per(vals, len(idx), op["scalar"]))
                kw[name] = vs[0] if op["sel"][0] == "int" else np.array(vs)
            for d, v in zip(per_j, vs):
                d[q] = v
        bound(model, idx)
        for j, d in zip(idx, per_j):
            model.set(rep, j, d)
        if op["sel"][0] != "all":
            kw["inds"] = sel_obj(op["sel"])
        return lambda: orb.update(**kw)
    if o == "updblock":
        idx = sel_idx(op["sel"], n)
        vs = blocks(model, op["rep"], idx, op["vals"])
        for j, v in zip(idx, vs):
            model.set(op["rep"], j, dict(enumerate(v)))
        a = np.array(vs, dtype=float).T if op["sel"][0] != "int" else np.array(vs[0])
        if not vs:
            a = np.zeros((6, 0))
        kw = {"kepler" if op["rep"] == "k" else "cartesian": a}
        if op["sel"][0] != "all":
            kw["inds"] = sel_obj(op["sel"])
        return lambda: orb.update(**kw)
    if o == "block":
        if op["one"]:
            if len({model.mu(j) for j in range(n)}) > 1 and op["rep"] == "c":
                raise Stop
            v = blocks(model, op["rep"], [0] if n else [], op["vals"])
            if not v:
                raise Stop
            vs, a = v * n, np.array(v[0])
        else:
            vs = blocks(model, op["rep"], range(n), op["vals"])
            a = np.array(vs, dtype=float).T if n else np.zeros((6, 0))
        for j in range(n):
            model.set(op["rep"], j, dict(enumerate(vs[j])))
        return lambda: setattr(orb, "kepler" if op["rep"] == "k" else "cartesian", a)
    if o == "rv":
        off = 0 if op["name"] == "r" else 3
        cols = []
        for j in range(n):
            c = model.cart[j]
            if any(map(math.isnan, c)):
                raise Stop
            s = math.sqrt(sum(t * t for t in c[off:off + 3]))
            cols.append([c[off + q] + op["vals"][j][q] * s for q in range(3)])
        for j in range(n):
            model.set("c", j, {off + q: cols[j][q] for q in range(3)})
        a = np.array(cols, dtype=float).T if n else np.zeros((3, 0))
        return lambda: setattr(orb, op["name"], a)
    if o == "anomaly":
        bound(model)
        vs = [v * model.circ() for v in op["vals"]]
        real = arr(vs, op["scalar"])
        for j, v in enumerate(per(vs, n, op["scalar"])):
            model.set("k", j, {5: model.anomaly(j, model.type, v, op["name"])}, wrap=op["name"] != model.type)
        return lambda: setattr(orb, op["name"] + "_anomaly", real)
    if o == "period":
        bound(model)
        vs = [v if op["name"] == "period" else model.circ() / v for v in op["vals"]]
        real = arr(vs, op["scalar"])
        for j, v in enumerate(per(op["vals"], n, op["scalar"])):
            model.set("k", j, {0: (v / TP) ** (2 / 3) * model.mu(j) ** (1 / 3)})
        return lambda: setattr(orb, op["name"], real)
    if o == "velocity":
        bound(model)
        vs = []
        for j in range(n):
            c = model.cart[j]
            if any(map(math.isnan, c)):
                raise Stop
            f = op["vals"][j]
            s = math.sqrt(sum(t * t for t in c[3:]))
            if j and op.get("scalar"):      # one speed for all of them
                f = vs[0] / s
            vs.append(f * s)
            model.set("c", j, {q: c[q] * f for q in (3, 4, 5)})
        real = vs[0] if vs and op.get("scalar") else np.array(vs)
        return lambda: setattr(orb, "velocity", real)
    if o == "equinoctial":
        cols = []
        for j in range(n):
            v = op["vals"][j]
            a, e, i, om, Om, M = v[:2] + [model.rad(t) for t in v[2:]]
            t = math.tan(i / 2)
            cols.append([a, e * math.sin(om + Om), e * math.cos(om + Om), t * math.sin(Om), t * math.cos(Om), model.deg((om + Om + M) % TP)])
            x = conv(M % TP, e, "mean", model.type)
            model.set("k", j, dict(enumerate([a, e] + [model.deg(t) for t in (i, om % TP, Om % TP, x)])), wrap=True)
        if not n:
            raise Stop
        a = np.array(cols, dtype=float).T
        return lambda: setattr(orb, "equinoctial", a)
    if o == "propagate":
        real = arr(op["vals"], op["scalar"])
        for j, dt in enumerate(per(op["vals"], n, op["scalar"])):
            k = model.kep[j]
            if any(map(math.isnan, k)):
                raise Stop
            turns = sum(abs(x) for x in (dt,) + tuple(op.get("parts", ()))) * math.sqrt(model.mu(j) / k[0] ** 3)
            if turns / (1 - k[1]) ** 2 > 1e5:      # the position is lost in rounding
                raise Stop
            M = conv(model.rad(k[5]), k[1], model.type, "mean") + math.sqrt(model.mu(j) / k[0] ** 3) * dt
            if k[1] < 1:
                M %= TP
            elif abs(M) > 200:
                raise Stop
            model.set("k", j, {5: model.deg(conv(M, k[1], "mean", model.type))}, wrap=True)
        return lambda: orb.propagate(real)
    if o == "type":
        old = model.type
        for j in range(n):
            k = model.kep[j]
            if any(map(math.isnan, k)):
                continue
            was = model.last[j]
            k[5] = model.deg(conv(model.rad(k[5]), k[1], old, op["name"]))
            if old != op["name"]:
                model.last[j] = "k"
                model.wrap[j][5] = True
        model.type = op["name"]
        return lambda: setattr(orb, "type", op["spelling"])
    if o == "add":
        k = op["num"]
        kw = {}
        first = n
        for _ in range(k):
            model.kep.append([NAN] * 6)
            model.cart.append([NAN] * 6)
            model.m.append(0.0)
            model.last.append(None)
            model.wrap.append([False] * 6)
        if op.get("m") is not None:
            kw["m"] = op["m"][0] if len(op["m"]) == 1 else np.array(op["m"], dtype=float)
            for j in range(k):
                model.m[first + j] = op["m"][0] if len(op["m"]) == 1 else op["m"][j]
        if op["how"] in ("kepler", "cartesian", "names", "cnames"):
            rep = "c" if op["how"] in ("cartesian", "cnames") else "k"
            vs = blocks(model, rep, range(first, first + k), op["vals"])
            a = np.array(vs, dtype=float).T if k else np.full(6, 0.7)
            if op["how"] in ("kepler", "cartesian"):
                kw[op["how"]] = a if op["num"] > 1 or op.get("two") else a[:, 0]
            else:
                for q, name in enumerate(KN if rep == "k" else CN):
                    kw[name] = a[q]
            for j, v in enumerate(vs):
                model.set(rep, first + j, dict(enumerate(v)))
        if k != 1 or op.get("two"):
            kw["num"] = k
        return lambda: orb.add(**kw)
    if o == "delete":
        idx = set(sel_idx(op["sel"], n))
        for name in ("kep", "cart", "m", "last", "wrap"):
            setattr(model, name, [x for j, x in enumerate(getattr(model, name)) if j not in idx])
        return lambda: orb.delete(sel_obj(op["sel"]))
    if o == "allocate":
        fresh = Model(op["num"], model.G, model.M0, model.degrees, model.type)
        model.__dict__.update(fresh.__dict__)
        return lambda: orb.allocate(op["num"])
    raise KeyError(o)


def gen_base(rng, n=None, modes=("direct", "lazy")):
    n = n if n is not None else rng.choice([1, 1, 2, 3]) if rng.random() < 0.92 else rng.choice([5, 8, 13, 0, 0] + SIZES)
    deg = rng.random() < 0.5
    return {"late": int(rng.random() < 0.15), "mode": rng.choice(modes), "type": rng.choice(TYPES), "degrees": deg, "G": round(rng.uniform(0.5, 2), 2), "M0": round(rng.uniform(0.5, 2), 2),
            "m": [round(rng.uniform(0, 1), 2) for _ in range(n)], "kep": [new_kep(rng, deg) for _ in range(n)], "ops": []}


def build(case, **kw):
    n = len(case["m"])
    model = Model(n, case["G"], case["M0"], case["degrees"], case["type"])
    model.m = list(case["m"])
    for j in range(n):
        model.set("k", j, dict(enumerate(case["kep"][j])))
    late = bool(n and case.get("late"))      # the central mass and G are set after construction
    kep = np.array(case["kep"], dtype=float).T
    kw = dict(kw) if late else dict(kw, kepler=kep)
    orb = pyorb.Orbit(case["M0"] * (2 if late else 1), G=case["G"] * (3 if late else 1), num=n, m=np.array(case["m"], dtype=float), type=case["type"],
                      degrees=case["degrees"], direct_update=case["mode"] in ("direct", "direct-noauto"), auto_update=case["mode"] in ("direct", "lazy"), **kw)
    if late:
        orb.M0, orb.G = case["M0"], case["G"]
        orb.kepler = kep
    return orb, model


class History(Oracle):
    def check(self, case):
        try:
            self.go(case)
        except Stop:
            return None
        except Bad as e:
            return str(e)

    def smaller(self, case):
        ops = case.get("ops", [])
        for j in range(len(ops)):
            c = dict(case)
            c["ops"] = ops[:j] + ops[j + 1:]
            yield c

    def key(self, case, msg):
        return "-".join([case["mode"]] + [o["op"] for o in case.get("ops", [])])


def size(op, n):
    if op["op"] == "add":
        return n + op["num"]
    if op["op"] == "delete":
        return n - len(set(sel_idx(op["sel"], n)))
    if op["op"] == "allocate":
        return op["num"]
    return n


def checkpoint(orb, model, case, j, total):
    """in lazy mode reading converts, so look only now and then"""
    if case["mode"] == "direct" or j == total - 1 or case.get("look", [])[j:j + 1] == [1]:
        if case.get("order", 0):
            orb.cartesian
        check_all(orb, model, f"after operation {j + 1} ({case['ops'][j]['op']}): ")


@register("C14")
class C14(History):
    """changes in direct mode keep both representations consistent"""
    modes = ("direct",)

    def gen(self, rng):
        c = gen_base(rng, modes=self.modes)
        c["ops"] = [gen_change(rng, len(c["m"]), c["degrees"]) for _ in range(rng.randint(1, 4))]
        c["look"] = [int(rng.random() < 0.3) for _ in c["ops"]]
        c["order"] = int(rng.random() < 0.5)
        return c

    def go(self, case):
        orb, model = build(case)
        if case["mode"] == "direct":
            check_all(orb, model, "after construction: ")
        for j, op in enumerate(case["ops"]):
            if op["op"] in ("anomaly", "period", "velocity", "equinoctial", "propagate"):
                bound(model)
            run = apply(orb, model, op)
            run()
            checkpoint(orb, model, case, j, len(case["ops"]))
        if not case["ops"]:
            check_all(orb, model)


@register("C15")
class C15(C14):
    """lazily converted orbits show the latest change"""
    modes = ("lazy", "lazy", "lazy", "manual")

    def go(self, case):
        if case["mode"] != "manual":
            return super().go(case)
        orb, model = build(case)
        if not np.all(np.isnan(orb.cartesian)):
            raise Bad("converted without being told")
        for op in case["ops"]:
            if op["op"] != "attr" or op["name"] not in KN:
                continue
            before = orb.cartesian
            apply(orb, model, op)()
            if not np.array_equal(before, orb.cartesian, equal_nan=True):
                raise Bad("converted without being told")
        orb.calculate_cartesian()
        check_all(orb, model, "after calculate_cartesian: ")


def snapshot(orb):
    o = orb
    d = vars(o)
    return {k: (v.copy() if isinstance(v, np.ndarray) else copy.deepcopy(v)) for k, v in d.items()}


@register("C16")
class C16(History):
    """read-only and rejected changes have no effect"""

    def gen(self, rng):
        c = gen_base(rng)
        n = len(c["m"])
        c["ro"] = rng.choice(["kepler", "cartesian", "both", "none"])
        c["bad"] = rng.choice(["mix", "mix", "mass", "massro", "type", "addmix"])
        c["names"] = rng.sample(KN[:5], rng.randint(1, 3)) + rng.sample(CN, rng.randint(1, 3))
        rng.shuffle(c["names"])
        c["also"] = rng.random() < 0.5
        c["at"] = rng.choice([None, 0, n - 1])
        c["ops"] = [gen_change(rng, n, c["degrees"]) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.3:
            c["ops"].append({"op": "type", "name": rng.choice(TYPES), "spelling": None})
            c["ops"][-1]["spelling"] = c["ops"][-1]["name"]
        if rng.random() < 0.3:
            k = rng.randint(1, 2)
            c["ops"].append({"op": "add", "num": k, "how": rng.choice(["kepler", "cartesian", "names", "cnames"]), "two": True, "m": [0.5] if rng.random() < .5 else None,
                             "vals": [new_kep(rng, c["degrees"]) for _ in range(k)]})
        return c

    def go(self, case):
        orb, model = build(case)
        for op in case["ops"]:
            n = model.n
            if op["op"] not in ("add", "update", "updblock", "attr", "block", "rv"):
                bound(model)
            after = model.copy()
            if op["op"] in ("type",) and op["name"] == model.type:
                continue
            rep = {"attr": lambda: "k" if op["name"] in KN else "c", "update": lambda: "k" if op["names"][0] in KN else "c",
                   "rv": lambda: "c", "velocity": lambda: "c", "add": lambda: "c" if op["how"] in ("cartesian", "cnames") else "k"}.get(
                op["op"], lambda: op.get("rep", "k"))()
            if op["op"] in ("block", "updblock") and len(op["vals"]) != (1 if op.get("one") or op.get("sel", [""])[0] == "int" else len(sel_idx(op.get("sel", ["all", None]), n))):
                continue
            refused = case["ro"] in ("both", "kepler" if rep == "k" else "cartesian")
            try:
                run = apply(orb, after, op)
            except (IndexError, ValueError):
                continue
            orb.kepler_read_only = case["ro"] in ("both", "kepler")
            orb.cartesian_read_only = case["ro"] in ("both", "cartesian")
            raised = None
            try:
                run()
            except AttributeError as e:
                raised = e
            if refused and raised is None:
                raise Bad(f"{op['op']} of a read-only representation was accepted")
            if not refused and raised is not None:
                raise Bad(f"{op['op']} of the representation that is not read-only was refused")
            if (orb.kepler_read_only, orb.cartesian_read_only) != (case["ro"] in ("both", "kepler"), case["ro"] in ("both", "cartesian")):
                raise Bad("read-only flags changed")
            orb.kepler_read_only = orb.cartesian_read_only = False
            if not refused:
                model = after
            check_all(orb, model, f"after {'refused' if refused else 'accepted'} {op['op']}: ")
        bad = case["bad"]
        exc = None
        try:
            if bad in ("mix", "massro"):
                kw = {q: 1.7 for q in case["names"] if bad == "mix" or q in KN}
                if case["also"] or bad == "massro":
                    kw["m"] = 0.3
                if case["at"] is not None:
                    kw["inds"] = case["at"]
                orb.kepler_read_only = bad == "massro"
                try:
                    orb.update(**kw)
                finally:
                    orb.kepler_read_only = False
            elif bad == "mass" and case["mode"] == "direct":
                orb.update(m=0.3, a=2.0)
            elif bad == "type":
                orb.type = "trueish"
            elif bad == "addmix":
                orb.add(num=2, x=1.0, a=2.0)
            else:
                return
        except (ValueError, AttributeError) as e:
            exc = e
        if exc is None:
            raise Bad(f"{bad} was accepted")
        check_all(orb, model, f"after rejected {bad}: ")


FIELDS = ["G", "M0", "type", "degrees", "epoch", "auto_update", "direct_update", "kepler_read_only", "cartesian_read_only", "solver_options", "dtype"]


@register("C17")
class C17(History):
    """copies, slices and iterations are equal and independent"""

    def gen(self, rng):
        c = gen_base(rng, n=rng.choice([1, 2, 3, 4]))
        n = len(c["m"])
        c["ops"] = [gen_change(rng, n, c["degrees"]) for _ in range(rng.randint(0, 2))]
        c["how"] = rng.choice(["copy", "copy.copy", "index", "index", "iter", "nested", "accessor"])
        c["sel"] = sel(rng, n)
        c["mutate"] = rng.choice(KN + CN + ["m", "solver_options", "type", "propagate", "calc"])
        c["side"] = rng.choice(["copy", "original"])
        c["ro"] = [rng.random() < 0.3, rng.random() < 0.3]
        if rng.random() < 0.15:
            c = dict(c, dtype="float32", ops=[], how=rng.choice(["copy", "copy.copy", "index", "iter"]))
        return c

    def single(self, case):
        """an orbit in single precision"""
        orb, model = build(case, epoch="E", dtype=np.float32)
        for o in {"copy": lambda: [orb.copy()], "copy.copy": lambda: [copy.copy(orb)], "index": lambda: [orb[sel_obj(case["sel"])]], "iter": lambda: list(orb)}[case["how"]]():
            for (name, x), y in zip(vars(orb).items(), vars(o).values()):
                if type(x) is not type(y) or isinstance(x, np.ndarray) and x.dtype != y.dtype or name == "dtype" and x != y:
                    raise Bad(f"{name}: {getattr(y, 'dtype', y)} instead of {getattr(x, 'dtype', x)} after {case['how']}")

    def go(self, case):
        if "dtype" in case:
            return self.single(case)
        orb, model = build(case, solver_options={"tol": 1e-10, "max_iter": 77}, epoch="E")
        for op in case["ops"]:
            bound(model)
            apply(orb, model, op)()
        n = model.n
        how = case["how"]
        if how == "accessor":
            names = KN + CN + ["kepler", "cartesian", "r", "v", "true_anomaly", "eccentric_anomaly", "mean_anomaly", "period", "velocity", "equinoctial"]
            bound(model)
            for name in names:
                a = np.asarray(getattr(orb, name))
                if a.size and a.flags.writeable:
                    a[...] = 77.0
            return check_all(orb, model, "after writing to arrays returned by accessors: ")
        orb.kepler_read_only, orb.cartesian_read_only = case["ro"]
        before = snapshot(orb)
        if how in ("iter", "nested"):
            got = []
            for o in orb:
                got.append(o)
                if how == "nested":
                    inner = [q for q in orb]
                    if len(inner) != n:
                        raise Bad(f"nested iteration gave {len(inner)} orbits")
                    self.same(inner, orb, model, case)
            if len(got) != n:
                raise Bad(f"iteration gave {len(got)} of {n} orbits")
            self.same(got, orb, model, case)
            if not got:
                return
            parts, idx = [got[0]], [[0]]
        else:
            o = {"copy": lambda: orb.copy(), "copy.copy": lambda: copy.copy(orb), "index": lambda: orb[sel_obj(case["sel"])]}[how]()
            ix = sel_idx(case["sel"], n) if how == "index" else list(range(n))
            parts, idx = [o], [ix]
        for a, b in zip(before.items(), snapshot(orb).items()):
            if not same(a[1], b[1]):
                raise Bad(f"{how} changed the original ({a[0]})")
        for o, ix in zip(parts, idx):
            self.equal(o, orb, model, ix)
        o, ix = parts[0], idx[0]
        if not ix:
            return
        left, right = (o, orb) if case["side"] == "copy" else (orb, o)
        right_before = snapshot(right)
        self.change(left, case["mutate"])
        for a, b in zip(right_before.items(), snapshot(right).items()):
            if not same(a[1], b[1]):
                raise Bad(f"changing {case['mutate']} of the {case['side']} changed the other one ({a[0]})")

    def same(self, got, orb, model, case):
        for j, o in enumerate(got):
            self.equal(o, orb, model, [j])

    def equal(self, o, orb, model, ix):
        for f in FIELDS:
            if getattr(o, f) != getattr(orb, f):
                raise Bad(f"{f}: {getattr(o, f)!r} instead of {getattr(orb, f)!r}")
        if o.num != len(ix):
            raise Bad(f"{o.num} orbits instead of {len(ix)}")
        ro = o.kepler_read_only, o.cartesian_read_only
        part = Model(len(ix), model.G, model.M0, model.degrees, model.type)
        for name in ("kep", "cart", "m", "last", "wrap"):
            setattr(part, name, [getattr(model, name)[j] for j in ix])
        kept = snapshot(o)
        check_all(o, part, "of the copy: ")
        for k, v in kept.items():
            vars(o)[k] = v
        # pending updates are those of the original
        for f in ("_Orbit__kep_calculated", "_Orbit__cart_calculated"):
            if f in vars(o) and not np.array_equal(vars(o)[f], vars(orb)[f][ix]):
                raise Bad(f"pending updates {f}")

    def change(self, o, what):
        o.kepler_read_only = o.cartesian_read_only = False
        if what == "m":
            o.m[:] = 5.0
        elif what == "solver_options":
            o.solver_options["tol"] = 0.5
        elif what == "type":
            bad = [t for t in TYPES if t != o.type]
            if np.any(o.e > 1):
                raise Stop
            o.type = bad[0]
        elif what == "propagate":
            o.propagate(1.0)
        elif what == "calc":
            o.mean_anomaly, o.true_anomaly, o.eccentric_anomaly
            o.calculate_cartesian()
        else:
            setattr(o, what, 0.5)


def same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    return a == b or (a != a and b != b)


@register("C18")
class C18(History):
    """adding and deleting"""

    def gen(self, rng):
        c = gen_base(rng, n=rng.choice([0, 1, 2, 3]))
        n = len(c["m"])
        for _ in range(rng.randint(1, 4)):
            x = rng.random()
            if x < 0.4:
                k = rng.choice([0, 1, 1, 2, 3])
                how = rng.choice(["kepler", "cartesian", "names", "cnames", "none"]) if k else rng.choice(["names", "none"])
                op = {"op": "add", "num": k, "how": how, "two": rng.random() < 0.5, "m": rng.choice([None, [0.5], [round(rng.uniform(0, 1), 2) for _ in range(k)]]) if k else None,
                      "vals": [new_kep(rng, c["degrees"]) for _ in range(k)]}
            elif x < 0.75 and n:
                op = {"op": "delete", "sel": sel(rng, n)}
            elif x < 0.8:
                op = {"op": "allocate", "num": rng.choice([0, 1, 2, 4])}
            elif n:
                op = gen_change(rng, n, c["degrees"])
            else:
                continue
            c["ops"].append(op)
            n = size(op, n)
        c["look"] = [int(rng.random() < 0.3) for _ in c["ops"]]
        return c

    def go(self, case):
        orb, model = build(case)
        for j, op in enumerate(case["ops"]):
            n = model.n
            if op["op"] not in ("add", "delete", "allocate"):
                bound(model)
            try:
                run = apply(orb, model, op)
            except IndexError:
                return
            run()
            if orb.num != model.n:
                raise Bad(f"{orb.num} orbits instead of {model.n} after {op['op']}")
            for name in ("m", "_true_anomaly", "_mean_anomaly", "_eccentric_anomaly", "_Orbit__kep_calculated", "_Orbit__cart_calculated"):
                if name in vars(orb) and len(vars(orb)[name]) != model.n:
                    raise Bad(f"{name} has length {len(vars(orb)[name])} for {model.n} orbits after {op['op']}")
            if op["op"] == "add" and op["how"] == "none":
                pass
            checkpoint(orb, model, case, j, len(case["ops"]))


@register("C19")
class C19(History):
    """the anomaly type is a choice of representation"""

    def gen(self, rng):
        c = gen_base(rng)
        n = len(c["m"])
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.6:
                t = rng.choice(TYPES)
                sp = rng.choice([t, t.upper(), " " + t + " ", t.capitalize(), "\t" + t.upper() + "\n"])
                c["ops"].append({"op": "type", "name": t, "spelling": sp})
            elif rng.random() < 0.5:
                sc = rng.random() < 0.4
                c["ops"].append({"op": "anomaly", "name": rng.choice(TYPES), "scalar": sc, "vals": [round(rng.uniform(0, 1), 3) for _ in range(1 if sc else n)]})
            else:
                c["ops"].append(gen_change(rng, n, c["degrees"]))
        c["look"] = [int(rng.random() < 0.3) for _ in c["ops"]]
        c["read"] = [rng.choice(TYPES) for _ in c["ops"]]
        if rng.random() < 0.3:
            c["options"] = {k: v for k, v in (("tol", rng.choice([0.3, 0.05, 1e-12])), ("max_iter", rng.choice([1, 1, 2, 100])), ("degree", rng.choice([3, 5]))) if rng.random() < 0.8}
            c["mode"] = "direct"
            c["to"] = rng.choice(TYPES)
            c["via"] = rng.choice(["read", "assign", "type", "state", "fromstate"])
            c["val"] = round(rng.uniform(0, 1), 3)
            for k in c["kep"]:
                k[1] = round(rng.uniform(0.3, 0.95), 3)
        return c

    def options(self, case):
        """a loose solver gives other numbers: they must be those of the orbit's own options"""
        opts = case["options"]
        orb, model = build(case, solver_options=dict(opts))
        n, typ, to = model.n, case["type"], case["to"]
        e, anom = np.array([k[1] for k in model.kep]), np.array([k[5] for k in model.kep])

        def there(x, src, dst):
            if src == dst:
                return x
            kw = {"solver_options": opts} if src == "mean" else {}
            return getattr(K, f"{src}_to_{dst}")(x, e, degrees=case["degrees"], **kw)

        def same(got, want, what):
            d = (np.asarray(got, dtype=float) - want) % model.circ()
            if np.any(~(np.minimum(d, model.circ() - d) < 1e-9 * model.circ())):
                raise Bad(f"{what} is {np.asarray(got).tolist()}, with the solver options {opts} of the orbit it is {np.asarray(want).tolist()} (type {typ})")
        if case["via"] == "read":
            same(getattr(orb, to + "_anomaly"), there(anom, typ, to), f"{to} anomaly")
        elif case["via"] == "assign":
            v = np.full(n, case["val"] * model.circ())
            setattr(orb, to + "_anomaly", v)
            same(orb.anom, there(v, to, typ), f"anomaly element after assigning the {to} anomaly")
        elif case["via"] == "type":
            orb.type = to
            same(orb.anom, there(anom, typ, to), f"anomaly element after changing to type {to}")
        elif case["via"] == "state":
            kep = np.array(orb.kepler)
            kep[5] = there(anom, typ, "true")
            want = K.kep_to_cart(kep, mu=np.array([model.mu(j) for j in range(n)]), degrees=case["degrees"])
            if not np.allclose(orb.cartesian, want, rtol=1e-9, atol=1e-9 * np.max(np.abs(want))):
                raise Bad(f"state {orb.cartesian.tolist()}, with the solver options {opts} of the orbit it is {want.tolist()} (type {typ})")

    def go(self, case):
        if "options" in case:
            return self.options(case)
        orb, model = build(case)
        for j, op in enumerate(case["ops"]):
            bound(model)
            apply(orb, model, op)()
            t = case["read"][j] if j < len(case["read"]) else "mean"
            if case["mode"] == "direct" or j % 2:
                got = getattr(orb, t + "_anomaly")
                for q in range(model.n):
                    w = model.anomaly(q, t)
                    d = (float(got[q]) - w) % model.circ()
                    if not min(d, model.circ() - d) < model.tol * model.circ():
                        raise Bad(f"{t} anomaly {got[q]!r} instead of {w!r} after operation {j + 1} ({op['op']})")
            checkpoint(orb, model, case, j, len(case["ops"]))
        # whatever the type, the representation can be read back
        check_all(orb, model, "at the end: ", exact=False)


@register("C20")
class C20(History):
    """propagation"""

    def gen(self, rng):
        c = gen_base(rng)
        n = len(c["m"])
        if rng.random() < 0.3:
            # hyperbolic orbits
            for k in c["kep"]:
                k[1] = round(rng.uniform(1.1, 3), 3)
                k[5] = round(rng.uniform(0, 0.15), 3) * (360 if c["degrees"] else TP)
        sc = rng.random() < 0.5
        c["law"] = rng.choice(["sum", "back", "period", "step", "step"])
        c["t"] = [[round(rng.uniform(-15, 15), 3) for _ in range(1 if sc else n)] for _ in range(2)]
        if rng.random() < 0.2:
            # some that stand still, some that go equally far
            for t in c["t"]:
                for j in range(len(t)):
                    t[j] = rng.choice([0.0, 0.0, t[0], t[j]])
        c["scalar"] = sc
        c["first"] = rng.choice([None, "x", "a"])
        return c

    def go(self, case):
        orb, model = build(case)
        n, sc = model.n, case["scalar"]
        if case["first"] == "a":
            apply(orb, model, {"op": "attr", "name": "a", "scalar": True, "vals": [1.3]})()
        elif case["first"] == "x":
            apply(orb, model, {"op": "attr", "name": "x", "scalar": False, "vals": [0.05] * n})()
        law = case["law"]
        start = model.copy()
        t1, t2 = case["t"]
        if law == "step":
            apply(orb, model, {"op": "propagate", "scalar": sc, "vals": t1})()
        elif law == "sum":
            orb.propagate(arr(t1, sc))
            orb.propagate(arr(t2, sc))
            apply(orb, model, {"op": "propagate", "scalar": sc, "vals": [a + b for a, b in zip(t1, t2)], "parts": t1 + t2})
        elif law == "back":
            apply(orb, model, {"op": "propagate", "scalar": sc, "vals": t1})()
            orb.propagate(-arr(t1, sc))
            model = start
        else:
            bound(model)
            orb.propagate(orb.period)
            model = start
        model.wrap = [[True] * 6 for _ in range(n)]
        check_all(orb, model, f"{law}: ")


@register("C21")
class C21(History):
    """derived quantities"""

    def gen(self, rng):
        c = gen_base(rng)
        n = len(c["m"])
        c["unbound"] = rng.random() < 0.2
        if c["unbound"]:
            for k in c["kep"]:
                k[1] = round(rng.uniform(1.1, 3), 3)
                k[5] = round(rng.uniform(0, 0.15), 3) * (360 if c["degrees"] else TP)
        else:
            c["ops"] = [gen_change(rng, n, c["degrees"]) for _ in range(rng.randint(0, 2))]
        c["set"] = rng.choice(["period", "mean_motion", "velocity", "equinoctial"])
        c["weigh"] = rng.choice([None, "m", "m in place", "M0", "G"])
        c["v"] = [round(rng.uniform(0.9, 1.05), 3) for _ in range(n)]
        c["k"] = [new_kep(rng, c["degrees"]) for _ in range(n)]
        return c

    def go(self, case):
        orb, model = build(case)
        n = model.n
        for op in case["ops"]:
            bound(model)
            apply(orb, model, op)()
        self.quantities(orb, model)
        if case["unbound"]:
            return
        bound(model)
        s = case["set"]
        if s in ("period", "mean_motion"):
            op = {"op": "period", "name": s, "scalar": False, "vals": [v * 6 for v in case["v"]]}
        elif s == "velocity":
            op = {"op": "velocity", "vals": case["v"], "scalar": case.get("late")}
        else:
            op = {"op": "equinoctial", "vals": case["k"]}
        apply(orb, model, op)()
        self.quantities(orb, model, f"after assigning {s}: ")
        check_all(orb, model, f"after assigning {s}: ")
        # other masses: the period follows
        w = case.get("weigh")
        if w:
            a = np.array(orb.a, dtype=float)
            if w == "m":
                orb.m = (orb.m + 1) * 1.5
            elif w == "m in place":
                orb.m[:] = orb.m + 2
            else:
                setattr(orb, w, getattr(orb, w) * 2.25)
            P = TP * np.sqrt(a ** 3 / (orb.G * (orb.M0 + np.asarray(orb.m, dtype=float))))
            for q, want in (("period", P), ("mean_motion", model.circ() / P)):
                got = np.asarray(getattr(orb, q), dtype=float)
                if got.shape != want.shape or not all(close(float(g), float(x), model.tol, float(x)) for g, x in zip(got, want)):
                    raise Bad(f"after a change of {w}: {q} is {got!r} instead of {want!r}")

    def quantities(self, orb, model, what=""):
        n = model.n
        names = ["period", "mean_motion", "velocity", "speed", "periapsis", "mean_longitude", "equinoctial", "apoapsis"]
        got = {q: np.asarray(getattr(orb, q), dtype=float) for q in names}
        for j in range(n):
            a, e, i, om, Om, x = model.kep[j]
            if any(map(math.isnan, model.kep[j])):
                return
            i, om, Om = model.rad(i), model.rad(om), model.rad(Om)
            mu = model.mu(j)
            P = TP * math.sqrt(a ** 3 / mu)
            c = model.cart[j]
            v = math.sqrt(sum(t * t for t in c[3:]))
            M = conv(model.rad(x), e, model.type, "mean")
            t = math.tan(i / 2)
            lon = model.deg(M + om + Om)
            want = {"period": P, "mean_motion": model.circ() / P, "velocity": v, "speed": v, "periapsis": a * abs(1 - e)}
            if e < 1:
                want["apoapsis"] = a * (1 + e)
            for q, w in want.items():
                g = float(got[q].reshape(-1)[j])
                if not close(g, w, model.tol, w):
                    raise Bad(f"{what}{q} of orbit {j} is {g!r} instead of {w!r}")
            g = float(got["mean_longitude"][j])
            d = (g - lon) % model.circ()
            if min(d, model.circ() - d) > 10 * model.tol * model.circ():
                raise Bad(f"{what}mean longitude of orbit {j} is {g!r} instead of {lon!r}")
            if e < 1:
                eq = got["equinoctial"].reshape(6, -1)[:, j]
                w = [a, e * math.sin(om + Om), e * math.cos(om + Om), t * math.sin(Om), t * math.cos(Om)]
                for q in range(5):
                    if not close(float(eq[q]), w[q], model.tol, max(abs(w[q]), 0.1)):
                        raise Bad(f"{what}equinoctial element {q} of orbit {j} is {eq[q]!r} instead of {w[q]!r}")
                d = (float(eq[5]) - lon) % model.circ()
                if min(d, model.circ() - d) > 10 * model.tol * model.circ():
                    raise Bad(f"{what}equinoctial longitude of orbit {j} is {eq[5]!r} instead of {lon!r}")

"""oracles for units, constants, element equivalence, rounding and input checks"""
import copy
import importlib.util
import itertools
import math
import os
import sys

import numpy as np

from run import Oracle
from lits import beside, numbers, texts
from kep import PI, TP, angle, close, elements, inclination, pick, ref_state

import pyorb
from pyorb import kepler as K, unit as U

ORACLES = {}
ROOT = os.path.join(os.environ.get("PYORB_REPO", "/repo"), "pyorb")


def register(pid):
    def f(cls):
        ORACLES[pid] = cls()
        return cls
    return f


def drop_each(case, field):
    for j in range(len(case[field])):
        yield dict(case, **{field: case[field][:j] + case[field][j + 1:]})


# ------------------------------------------------------------------ C22
UNITS = {
    "length": {"m": 1.0, "cm": 0.01, "km": 1000.0, "au": 149597870700.0, "pc": 3.08567758149137e16},
    "mass": {"kg": 1.0, "g": 0.001, "msun": 1.98847e30, "msol": 1.98847e30},
    "time": {"s": 1.0, "h": 3600.0, "d": 86400.0, "y": 31557600.0},
}
BAD = {"int": 1, "bool": True, "None": None, "bytes": b"kg", "list": ["kg"], "tuple": ("m",), "array": np.array([1.0, 2.0]), "0-d": np.array(3.0), "np.int64": np.int64(2),
       "float32": np.float32(2.0), "complex": 1j, "dict": {}}


@register("C22")
class Gravity(Oracle):
    """get_G of named units in any spelling, numeric units, and arguments that are neither"""

    def gen(self, rng):
        out = {}
        for n, table in UNITS.items():
            x = rng.random()
            if x < 0.5:
                w = "".join(c.upper() if rng.random() < 0.4 else c for c in rng.choice(list(table)))
                if n == "mass":
                    for _ in range(rng.randrange(3)):
                        j = rng.randrange(len(w) + 1)
                        w = w[:j] + rng.choice("_- ") + w[j:]
                out[n] = ["str", w]
            elif x < 0.8:
                out[n] = [pick(rng, "float", "np.float64"), rng.choice([10 ** rng.uniform(-3, 3), beside(rng, rng.choice(numbers("unit.py", lo=1e-9, hi=1e40)))])]
            elif x < 0.9:
                near = rng.choice(list(table))
                near = pick(rng, near + near, near + "s", near + rng.choice("abcdxyz1_ "), rng.choice("abcdxyz1") + near, near[:-1], near[1:], near + near[-1])
                words = [near] * 20 + [w for w in texts("unit.py", "const.py", "orbit.py") if self.value(n, ["str", w]) is None]
                w = rng.choice(words + [o for t in UNITS.values() for o in t if o not in table] + ["", "lightyear", "kgg", " m", "m ", "k m", "s.", "hour"])
                out[n] = ["str", w] if self.value(n, ["str", w]) is None else ["str", "x" + w]
            else:
                out[n] = ["bad", rng.choice(list(BAD))]
        return out

    def value(self, n, a):
        kind, v = a
        if kind == "str":
            w = v.lower()
            if n == "mass":
                w = w.replace("_", "").replace(" ", "").replace("-", "")
            return UNITS[n].get(w)
        return float(v) if kind != "bad" else None

    def build(self, a):
        return {"str": lambda v: v, "float": float, "np.float64": np.float64, "bad": BAD.get}[a[0]](a[1])

    def check(self, case):
        vals = {n: self.value(n, case[n]) for n in UNITS}
        bad = any(v is None for v in vals.values())
        args = {n: self.build(case[n]) for n in UNITS}
        try:
            g = U.get_G(**args)
        except Exception as e:
            if bad and isinstance(e, TypeError):
                return None
            return f"get_G raised {type(e).__name__}: {e}"
        if bad:
            return f"accepted, result {g!r}"
        want = 6.6743e-11 * vals["mass"] * vals["time"] ** 2 / vals["length"] ** 3
        if not close(g, want, 1e-9):
            return f"get_G is {g!r}, expected {want!r}"
        return None

    def smaller(self, case):
        for n, w in (("length", "m"), ("mass", "kg"), ("time", "s")):
            if case[n] != ["str", w]:
                yield dict(case, **{n: ["str", w]})


# ------------------------------------------------------------------ C23
def value_of(spec):
    kind, x = spec
    return {"float": lambda: float(x), "int": lambda: int(x), "np.float64": lambda: np.float64(x), "array": lambda: np.array(x, dtype=float),
            "list": lambda: list(x), "text": lambda: x, "None": lambda: None}[kind]()


def same_value(a, b):
    return type(a) is type(b) and np.array_equal(np.asarray(a, dtype=object), np.asarray(b, dtype=object))


@register("C23")
class Angles(Oracle):
    """functions wrapped by angle_units with random declarations, called with and without degrees"""
    KINDS = ("float", "int", "np.float64", "array", "array")

    def number(self, rng):
        k = rng.choice(self.KINDS)
        big = lambda: rng.choice([rng.uniform(-720, 720), 0.0, 360.0, 180.0, rng.uniform(-5, 5), beside(rng, rng.choice(numbers("unit.py", hi=1e6)))])
        if k == "array":
            return [k, [big() for _ in range(rng.randrange(4))]]
        return [k, int(big()) if k == "int" else big()]

    def gen(self, rng):
        npos, nret = rng.randrange(5), rng.randrange(1, 6)
        keys = ["th", "ph", "nu", "omega"]
        if rng.random() < 0.15:
            npos, nret, keys = rng.randrange(13), rng.randrange(1, 13), [f"k{j}" for j in range(rng.randrange(1, 13))] + ["th"]
        pos = None if rng.random() < 0.2 else [j if rng.random() < 0.8 else j - npos for j in range(npos) if rng.random() < 0.5]
        kd = None if rng.random() < 0.2 else [k for k in keys if rng.random() < 0.5]
        outs = rng.choice([None, True, [j if rng.random() < 0.8 else j - nret for j in range(nret) if rng.random() < 0.5]])
        given = [k for k in keys + ["other", "unit"] if rng.random() < 0.4]
        num = lambda d: self.number(rng) if d else rng.choice([self.number(rng), ["text", "a"], ["None", None]])
        isd = {j % npos for j in pos} if pos else set()
        return {"before": rng.choice([None, None, False, True]), "pos": pos, "keys": kd, "outs": outs, "default": rng.choice([None, False, True]), "passed": rng.choice([None, False, True]),
                "args": [num(j in isd) for j in range(npos)], "kw": {k: num(kd is not None and k in kd) for k in given},
                "ret": "none" if rng.random() < 0.1 else "single" if outs is True or rng.random() < 0.2 and outs is None else "tuple",
                "vals": [num(outs is True or bool(outs) and (j in outs or j - nret in outs)) for j in range(nret)]}

    def check(self, case):
        calls = []
        vals = [value_of(v) for v in case["vals"]]
        ret = {"none": None, "single": vals[0], "tuple": tuple(vals)}[case["ret"]]

        def f(*a, **k):
            calls.append((a, k))
            return ret
        args = [value_of(v) for v in case["args"]]
        kw = {k: value_of(v) for k, v in case["kw"].items()}
        olds = copy.deepcopy((args, kw, vals))
        deco = (case["pos"], case["keys"], case["outs"])
        given = copy.deepcopy(deco)
        g = U.angle_units(*given, **({} if case["default"] is None else {"degrees": case["default"]}))(f)
        on = bool(case["default"] if case["passed"] is None else case["passed"])
        if case.get("before") is not None:      # a call before this one makes no difference
            g(*args, **kw, degrees=case["before"])
            calls.clear()
        out = g(*args, **kw, **({} if case["passed"] is None else {"degrees": case["passed"]}))
        if given != deco or not all(same_value(a, b) for a, b in zip(olds[0] + list(olds[1].values()) + olds[2], args + list(kw.values()) + vals)):
            return "the caller's objects were changed"
        if len(calls) != 1:
            return f"{len(calls)} calls"
        ga, gk = calls[0]
        if len(ga) != len(args) or set(gk) != set(kw):
            return f"called with {ga} {gk}"
        n = len(args)
        isd = {j % n for j in case["pos"] or ()} if on and n else set()
        for j, a in enumerate(args):
            w = np.asarray(a) * PI / 180 if j in isd else a
            m = self.cmp(f"argument {j}", ga[j], w, a, j in isd)
            if m:
                return m
        for k, a in kw.items():
            d = on and case["keys"] is not None and k in case["keys"]
            m = self.cmp(f"keyword {k}", gk[k], np.asarray(a) * PI / 180 if d else a, a, d)
            if m:
                return m
        if not on or case["outs"] is None or ret is None:
            return None if out is ret else f"result {out!r} instead of {ret!r}"
        if case["outs"] is True:
            return self.cmp("result", out, np.asarray(ret) * 180 / PI, ret, True)
        if not isinstance(out, (tuple, list)) or len(out) != len(vals):
            return f"result {out!r}"
        for j, a in enumerate(vals):
            d = j in case["outs"] or j - len(vals) in case["outs"]
            m = self.cmp(f"result {j}", out[j], np.asarray(a) * 180 / PI if d else a, a, d)
            if m:
                return m
        return None

    def cmp(self, name, got, want, given, conv):
        if not conv:
            return None if got is given else f"{name}: {got!r} instead of {given!r}"
        if np.shape(got) != np.shape(given) or not np.allclose(got, want, rtol=1e-12, atol=1e-12):
            return f"{name}: {got!r} instead of {want!r}"
        return None

    def smaller(self, case):
        for k in case["kw"]:
            yield dict(case, kw={q: v for q, v in case["kw"].items() if q != k})


# ------------------------------------------------------------------ C24
DOC = {"pi": math.pi, "e": math.e, "_2pi": TP, "_4pi": 2 * TP, "c": 299792458.0, "G": 6.6743e-11, "wgs84_a": 6378137.0, "wgs84_invf": 298.257223563,
       "wgs84_f": 1 / 298.257223563, "wgs84_omega": 7.292115e-5, "wgs84_GM": 3.986004418e14, "wgs84_M_earth": 3.986004418e14 / 6.6743e-11,
       "AU": 149597870700.0, "M_sol": 1.98847e30, "GM_sol": 1.32712440018e20,
       "K_a": 0, "K_e": 1, "K_i": 2, "K_om": 3, "K_OM": 4, "K_nu": 5, "E_a": 0, "E_h": 1, "E_k": 2, "E_p": 3, "E_q": 4, "E_lam": 5}
EXPORTS = {"G": "G", "AU": "AU", "M_sol": "M_sol", "GM_sol": "GM_sol", "GM_earth": "wgs84_GM", "M_earth": "wgs84_M_earth"}


def fresh_const():
    """the constants module, under another name"""
    name = "pyorb_const_copy"
    spec = importlib.util.spec_from_file_location(name, os.path.join(ROOT, "const.py"))
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    try:
        spec.loader.exec_module(mod)
        return sys.modules[name]
    finally:
        del sys.modules[name]


@register("C24")
class Constants(Oracle):
    """random attribute operations on the constants, seen through every view"""
    NEWNAMES = ["zz", "GG", "__doc__", "_shared_state", "ConstError", "__class__", "__dict__", "__setattr__", "__delattr__", "__init__"]

    def gen(self, rng):
        ops = []
        for _ in range(rng.randrange(8)):
            n = rng.choice(list(DOC) if rng.random() < 0.7 else self.NEWNAMES)
            v = rng.choice([["float", rng.uniform(-5, 5)], ["rel", 1 + 10 ** rng.uniform(-15, 0)], ["rel", 1.0], ["rel", -1.0], ["rel", 0.0], ["none", 0], ["str", 0], ["list", 0], ["nan", 0],
                            ["bool", rng.random() < 0.5], ["int", rng.randrange(6)], ["array", 0], ["dict", 0], ["func", 0], ["const", rng.choice(list(DOC))]])
            ops.append([rng.choice(["set", "set", "del"]), rng.choice(["module", "new", "copy"]), n, v])
        return {"ops": ops}

    def value(self, n, v):
        kind, x = v
        return {"float": lambda: float(x), "rel": lambda: DOC.get(n, 1.0) * x, "none": lambda: None, "str": lambda: "1.0", "list": lambda: [1.0], "nan": lambda: float("nan"),
                "bool": lambda: bool(x), "int": lambda: int(x), "array": lambda: np.array([DOC.get(n, 1.0)] * 2), "dict": lambda: {}, "func": lambda: (lambda *a: None), "const": lambda: DOC[x]}[kind]()

    def wrong(self, views):
        for vn, v in views.items():
            for n, want in DOC.items():
                try:
                    got = getattr(v, n)
                except Exception as e:
                    return f"{vn}: {n} raises {type(e).__name__}"
                if isinstance(got, bool) or not isinstance(got, (int, float)) or not (got == want if isinstance(want, int) else close(got, want, 1e-14)):
                    return f"{vn}: {n} is {got!r} instead of {want!r}"
                if isinstance(want, int) and not isinstance(got, int):
                    return f"{vn}: {n} is not an integer: {got!r}"
        return None

    def check(self, case):
        for n, of in EXPORTS.items():
            if not close(getattr(pyorb, n), DOC[of], 1e-14):
                return f"pyorb.{n} is {getattr(pyorb, n)!r}"
        m = self.wrong({"pyorb.const": pyorb.const})
        if m:
            return m
        c = fresh_const()
        makers = {"module": lambda: c, "new": lambda: type(c)(), "copy": lambda: copy.copy(c)}
        seen = {"module": c}
        for op, view, n, v in case["ops"]:
            try:
                o = seen.setdefault(view, None) or makers[view]()
            except Exception as e:
                return f"no other view: {type(e).__name__}: {e}"
            seen[view] = o
            x = self.value(n, v)
            exc = None
            try:
                setattr(o, n, x) if op == "set" else delattr(o, n)
            except Exception as e:
                exc = e
            if n in DOC and exc is None:
                eq = False
                try:
                    eq = op == "set" and bool(np.all(x == DOC[n]))
                except Exception:
                    pass
                if not eq:
                    return f"{op} {n} to {x!r} on {view} raised nothing"
            m = self.wrong({k: o for k, o in seen.items() if o is not None})
            if m:
                return f"after {op} {n} ({v}) on {view}: {m}"
        try:
            return self.wrong({"new": type(c)()})
        except Exception as e:
            return f"no new instance: {type(e).__name__}: {e}"

    def smaller(self, case):
        return drop_each(case, "ops")


# ------------------------------------------------------------------ C25
def tol(x, y, scale=1.0):
    return scale * (1e-8 + 1e-5 * max(abs(x), abs(y)))


@register("C25")
class Equivalent(Oracle):
    """pairs of element vectors that are the same, describe the same state, or differ"""

    def gen(self, rng):
        k1 = elements(rng, ("circ", "ell", "ell", "hyp"), planar=0.4)
        if k1[2] == PI:
            k1[2] = 3.0
        if rng.random() < 0.2:
            k1[rng.choice([1, 2])] = beside(rng, rng.choice(numbers("kepler.py", lo=1e-12, hi=0.5)))
        kind = rng.choice(["same", "split", "split", "change", "change", "change2", "split+change", "arrays", "tiny"])
        k2 = list(k1)
        if "split" in kind:
            d = rng.choice([rng.uniform(-3, 3), 10 ** rng.uniform(-6, 0), PI, TP])
            which = rng.choice([(3, 5), (4, 3)])
            k2[which[0]] += d
            k2[which[1]] -= d
        if "change" in kind:
            for j in rng.sample(range(6), 2 if "2" in kind else 1):
                k2[j] += rng.choice([-1, 1]) * rng.choice([10 ** rng.uniform(-4, 0), 1.0, 2.0, TP, beside(rng, rng.choice(numbers("kepler.py", lo=1e-3, hi=10)))])
        if kind == "tiny":
            j = rng.randrange(6)
            k2[j] += rng.choice([-1, 1]) * 10 ** rng.uniform(-13, -10)
        k2[1], k2[2] = abs(k2[1]), min(abs(k2[2]), 3.0)
        return {"kind": kind, "k1": k1, "k2": k2, "shape": rng.choice(["(6,1)", "(6,2)", "first", "second"])}

    def check(self, case):
        k1, k2 = np.array(case["k1"]), np.array(case["k2"])
        if case["kind"] == "arrays":
            w = 2 if case["shape"] == "(6,2)" else 1
            a, b = (np.repeat(k[:, None], w, axis=1) for k in (k1, k2))
            if case["shape"] == "first":
                b = k2
            if case["shape"] == "second":
                a = k1
            try:
                r = K.kep_equivalent(a, b)
            except ValueError:
                return None
            return f"arrays were accepted: {r!r}"
        o1, o2 = k1.copy(), k2.copy()
        r, s, t = bool(K.kep_equivalent(k1, k2)), bool(K.kep_equivalent(k2, k1)), bool(K.kep_equivalent(k1, k1.copy()))
        if not (np.array_equal(k1, o1) and np.array_equal(k2, o2)):
            return "an input was changed"
        if not t:
            return "identical elements are refused"
        a, b = case["k1"], case["k2"]
        d = [abs(x - y) for x, y in zip(a, b)]
        groups = [[4], [3], [5]]
        circ, plan = a[1] == b[1] == 0, a[2] == b[2] == 0
        nearc, nearp = max(a[1], b[1]) < 1e-9, max(a[2], b[2]) <= 1e-9 * PI
        if nearc and nearp:
            groups = [[3, 4, 5]]
        elif nearc:
            groups = [[4], [3, 5]]
        elif nearp:
            groups = [[3, 4], [5]]
        sums = [abs(sum(a[j] - b[j] for j in g)) for g in groups]
        room = [sum(tol(a[j], b[j]) for j in g) for g in groups]
        equal = d[0] == d[1] == d[2] == 0 and all(x <= 1e-13 for x in sums)
        far = d[0] > tol(a[0], b[0], 1.01) or d[1] > tol(a[1], b[1], 1.01) or d[2] > tol(a[2], b[2], 1.01) or any(x > 1.01 * y for x, y in zip(sums, room))
        if equal and (circ or not nearc) and (plan or not nearp):
            if not (r and s):
                return f"the same state is refused ({r}, {s})"
        if far and (r or s):
            return f"different elements are accepted ({r}, {s}): differences {d}"
        border = [abs(x - f) for x, y in zip(a, b) for f in ()]
        if r != s:
            # only where one order is within the tolerance and the other is not
            cands = [(x, y) for x, y in zip(a, b)] + [(sum(a[j] for j in g), sum(b[j] for j in g)) for g in ([3, 4], [3, 5], [3, 4, 5])]
            if not any(1e-8 + 1e-5 * min(abs(x), abs(y)) * 0.999 <= abs(x - y) <= 1e-8 * 1.001 + 1e-5 * max(abs(x), abs(y)) * 1.001 for x, y in cands):
                return f"the verdict depends on the order: {r}, {s}"
        return None

    def smaller(self, case):
        for j, w in enumerate([1.0, 0.5, 0.5, 1.0, 1.0, 1.0]):
            if case["k1"][j] != w and case["k1"][j] == case["k2"][j]:
                yield dict(case, k1=case["k1"][:j] + [w] + case["k1"][j + 1:], k2=case["k2"][:j] + [w] + case["k2"][j + 1:])


# ------------------------------------------------------------------ C26
@register("C26")
class NotNan(Oracle):
    """states at and near every degeneracy (planar, circular, vertical, on an axis) at random scales"""

    def gen(self, rng):
        n = rng.choice([1, 1, 3])
        cols, mu = [], 10 ** rng.uniform(-3, 3)
        for _ in range(n):
            kind = rng.choice(["elements", "axis", "small", "node"])
            if kind == "elements":
                k = elements(rng, ("circ", "ell", "hyp"), planar=0.3)
                if rng.random() < 0.5:
                    k[1] = rng.choice([0.0, 10 ** rng.uniform(-17, -6), beside(rng, 1e-9)]) if k[1] < 1 else k[1]
                if rng.random() < 0.5:
                    k[2] = rng.choice([10 ** rng.uniform(-17, -6), PI - 10 ** rng.uniform(-15, -6), PI / 2, beside(rng, 1e-9)])
                s = ref_state(k, mu)
            elif kind == "axis":
                s = [0.0] * 6
                i, j = rng.sample(range(3), 2)
                s[i] = rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 2)
                s[3 + j] = rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 2)
            elif kind == "node":
                r = [rng.uniform(-1, 1), rng.uniform(-1, 1), 0.0]
                s = r + [rng.uniform(-1, 1) for _ in range(3)]
            else:
                s = [float(rng.randrange(-3, 4)) for _ in range(6)]
            if rng.random() < 0.3:
                s = [x * (1 + rng.choice([-1, 1, 0]) * 2.0 ** -52) for x in s]
            cols.append([float(x) for x in s])
        return {"cart": cols, "mu": mu, "vec": n == 1 and rng.random() < 0.5, "degrees": rng.random() < 0.3, "muarr": rng.random() < 0.4}

    def check(self, case):
        c = np.array(case["cart"]).T
        h = np.cross(c[:3], c[3:], axis=0)
        r = np.linalg.norm(c[:3], axis=0)
        mu = case["mu"]
        hn = np.linalg.norm(h, axis=0)
        with np.errstate(all="ignore"):
            en = np.sum(c[3:] ** 2, axis=0) / 2 - mu / r
            ok = (r > 1e-6) & (hn > 1e-9 * r * np.linalg.norm(c[3:], axis=0)) & (hn > 1e-9) & (np.abs(en) * r > 1e-9 * mu)
        if not ok.all():
            return None
        x = c[:, 0] if case["vec"] else c
        o = K.cart_to_kep(x, mu=np.full(c.shape[1], mu) if case["muarr"] and not case["vec"] else mu, degrees=case["degrees"])
        if np.isnan(o).any():
            return f"NaN in {o.tolist()}"
        return None

    def smaller(self, case):
        if len(case["cart"]) > 1:
            yield from drop_each(case, "cart")
        if case["degrees"]:
            yield dict(case, degrees=False)


# ------------------------------------------------------------------ C27
class Duck:
    shape, ndim, dtype, size = (6,), 1, np.dtype(float), 6

    def __getitem__(self, k):
        return 1.0

    def __len__(self):
        return 6


SIX = [7000.0, 0.1, 0.5, 1.0, 2.0, 3.0]
NOTARR = {"list": lambda: list(SIX), "tuple": lambda: tuple(SIX), "columns": lambda: [[x, x] for x in SIX], "arrays": lambda: [np.array([x]) for x in SIX],
          "arraytuple": lambda: tuple(np.array([x]) for x in SIX), "float": lambda: 1.0, "np.float64": lambda: np.float64(1.0), "int": lambda: 6, "None": lambda: None, "str": lambda: "kepler",
          "bytes": lambda: b"123456", "dict": lambda: dict(zip("abcdef", SIX)), "range": lambda: range(1, 7), "bool": lambda: True, "duck": Duck, "memoryview": lambda: memoryview(np.array(SIX)),
          "set": lambda: set(SIX)}
ANOM = ["true_to_eccentric", "eccentric_to_true", "eccentric_to_mean", "mean_to_eccentric", "true_to_mean", "mean_to_true"]
TYPES = ["true", "eccentric", "mean"]


@register("C27")
class Refused(Oracle):
    """malformed arguments of the conversions and of the anomaly type"""

    def gen(self, rng):
        kind = rng.choice(["notarray", "firstaxis", "firstaxis", "shapes", "shapes", "newtype", "settype"])
        c = {"kind": kind, "degrees": rng.random() < 0.5}
        if kind == "notarray":
            c.update(func=rng.choice(["cart_to_kep", "kep_to_cart"]), what=rng.choice(list(NOTARR)), mu=rng.choice(["float", "array", "default"]))
        elif kind == "firstaxis":
            first = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 12, 36])
            c.update(func=rng.choice(["cart_to_kep", "kep_to_cart"]), shape=[first] + rng.choice([[], [1], [3], [6], [0], [6, 6]]), mu=rng.choice(["float", "array", "default"]),
                     dtype=rng.choice(["float64", "int64", "float32"]))
        elif kind == "shapes":
            a = [rng.randrange(4) for _ in range(rng.randrange(1, 3))]
            b = rng.choice([a[::-1], [int(np.prod(a))], a + [1], [1] + a, [rng.randrange(4) for _ in range(rng.randrange(1, 3))], a[:1]])
            if b == a:
                b = a + [2]
            c.update(func=rng.choice(ANOM), a=a, b=b, e=rng.choice([0.0, 0.3, 1.0, 1.5]))
        else:
            w = rng.choice([x for x in texts("orbit.py", "kepler.py") if x.strip().lower() not in TYPES] + ["", "nu", "tru", "truee", "mean ecc", "meananomaly", "E", "M", "eccentricity", "Kepler", "True anomaly", "ture"])
            if rng.random() < 0.3:
                w = w.upper()
            if rng.random() < 0.3:
                w = w + " "
            if w.strip().lower() in TYPES:
                w = "x" + w
            c.update(word=w, start=rng.choice(TYPES), n=rng.randrange(3), mode=[rng.random() < 0.5, rng.random() < 0.5], seed=rng.randrange(1000), give=rng.choice(["none", "kep"]))
        return c

    def args(self, case, n):
        return {} if case["mu"] == "default" else {"mu": 2.0 if case["mu"] == "float" else np.full(n, 2.0)}

    def expect(self, exc, f):
        try:
            r = f()
        except exc:
            return None
        except Exception as e:
            return f"raises {type(e).__name__}: {e} instead of {exc.__name__}"
        return f"accepted: {r!r}"

    def check(self, case):
        k = case["kind"]
        if k == "notarray":
            x = NOTARR[case["what"]]()
            old = copy.copy(x) if case["what"] not in ("duck", "memoryview") else None
            m = self.expect(TypeError, lambda: getattr(K, case["func"])(x, degrees=case["degrees"], **self.args(case, 1)))
            if m is None and isinstance(x, list) and any(a is not b for a, b in zip(x, old)):
                return "the input was changed"
            return m
        if k == "firstaxis":
            x = (np.arange(int(np.prod(case["shape"]))).reshape(case["shape"]) % 7 + 1).astype(case["dtype"])
            old = x.copy()
            m = self.expect(ValueError, lambda: getattr(K, case["func"])(x, degrees=case["degrees"], **self.args(case, case["shape"][1] if len(case["shape"]) > 1 else 1)))
            return m or (None if x.shape == old.shape and np.array_equal(x, old) else "the input was changed")
        if k == "shapes":
            a, b = np.full(case["a"], 0.7), np.full(case["b"], case["e"])
            oa, ob = a.copy(), b.copy()
            m = self.expect(TypeError, lambda: getattr(K, case["func"])(a, b, degrees=case["degrees"]))
            return m or (None if a.shape == oa.shape and b.shape == ob.shape and np.array_equal(a, oa) and np.array_equal(b, ob) else "the input was changed")
        kep = dict(a=1.0, e=0.3, i=0.4, omega=0.5, Omega=0.6, anom=0.7)
        opts = dict(auto_update=case["mode"][0], direct_update=case["mode"][1], degrees=case["degrees"], num=case["n"])
        if k == "newtype":
            extra = {q: np.full(case["n"], v) for q, v in kep.items()} if case["give"] == "kep" else {}
            return self.expect(ValueError, lambda: pyorb.Orbit(1.0, G=1.0, type=case["word"], **opts, **extra))
        orb = pyorb.Orbit(1.0, G=1.0, type=case["start"], **opts)
        if case["n"]:
            orb.update(**{q: np.full(case["n"], v) for q, v in kep.items()})
        old = (orb._kep.copy(), orb._cart.copy(), orb.type)

        def f():
            orb.type = case["word"]
            return orb.type
        m = self.expect(ValueError, f)
        return m or (None if np.array_equal(orb._kep, old[0], equal_nan=True) and np.array_equal(orb._cart, old[1], equal_nan=True) and orb.type == old[2] else "the orbit was changed")

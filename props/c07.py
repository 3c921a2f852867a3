import inspect
import time

from dv import nf, smt
from .common import *
from .c05 import MA
from .c04 import NU, EC, EA
from .stubs import kepler_stubs, columnwise

DEG = {"kep": (2, 3, 4, 5), "equi": (5,), "cart": ()}
ROWS = {"kep": KEP, "cart": CART, "equi": Vs("a h k p q lam")}
SIX = {"kep_to_cart": ("kep", "cart", True), "cart_to_kep": ("cart", "kep", True), "kep_to_equi": ("kep", "equi", False),
       "equi_to_kep": ("equi", "kep", False), "cart_to_equi": ("cart", "equi", True), "equi_to_cart": ("equi", "cart", True)}
ANOM = {"true_to_eccentric": NU, "eccentric_to_true": EA, "eccentric_to_mean": EA, "true_to_mean": NU,
        "mean_to_eccentric": MA, "mean_to_true": MA}


def equal(chk, name, x, y, facts):
    """x == y; syntactically, by congruence (z3), or algebraically"""
    x, y = tm(x), tm(y)
    if x is y:
        return chk.record(name, True, "syntactic")
    if len(chk.failures_seen) > 60:
        return chk.prove(name, T.eq(x, y), facts)
    facts = [tm(f) for f in facts]
    if nf.equal(x, y, facts):
        return chk.record(name, True, "normal form")
    r, _ = smt.check(facts + [T.not_(T.eq(x, y))], 3000, True)
    if r == "unsat":
        return chk.record(name, True, "z3")
    if chk.again > 0 and time.time() < (chk.t0 + chk.deadline) / 2:
        # once more with more time: a busy machine must not decide
        chk.again -= 1
        smt.SCALE[0] = 6
        try:
            if nf.equal(x, y, facts):
                return chk.record(name, True, "normal form")
        finally:
            smt.SCALE[0] = 1
    return chk.prove(name, T.eq(x, y), facts)


def radians_of(cols, which):
    return [rad(c) if j in which else c for j, c in enumerate(cols)]


def solver_ufs(real):
    """solver and start value as deterministic functions of their arguments"""
    sig = inspect.signature(real.laguerre_solve_kepler)

    def laguerre_solve_kepler(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        ts = []
        for n in sig.parameters:
            v = b.arguments[n]
            ts.append(T.to_real(S.to_term(v.item() if isinstance(v, S.SymArray) and not v.dims else v)))
        return S.SymReal(T.uf("LAGUERRE", ts), S.F64), S.SymInt(T.uf("LAGUERRE_N", ts, "I"))

    def guess(name):
        def f(M, e):
            ts = [T.to_real(S.to_term(v.item() if isinstance(v, S.SymArray) and not v.dims else v)) for v in (M, e)]
            return S.SymReal(T.uf(name, ts), S.F64)
        return f
    out = {"laguerre_solve_kepler": laguerre_solve_kepler}
    for n in ("_get_kepler_guess", "_get_hyperbolic_kepler_guess"):
        if hasattr(real, n):
            out[n] = guess(n)
    return out


def both(chk, nm, call):
    """paths of (result with degrees, result in radians)"""
    ps = [p for p in chk.paths(nm, call) if not p.ended]
    out = []
    for n, p in enumerate(ps):
        if p.exc is not None:
            chk.record(f"{nm}/path{n}/no-exception", False, "symbolic execution", 0, repr(p.exc))
            continue
        out.append((f"{nm}/path{n}", p))
    if ps and out:
        chk.record(f"{nm}/no-exception", True, "symbolic execution")
    return out


def clean(p):
    """the facts of a path without those on positions and lengths only"""
    def place(s):
        return s.sort == "I" and str(s.args[0]).startswith(("len_", "J_", "iter_", "count_"))
    return [f for f in p.pc if not (T.syms_of(f) and all(place(s) for s in T.syms_of(f))) and not any(t.op == "count" for t in T.subterms([f]))]


def run(chk):
    real = chk.load()
    names = [n for n, f in vars(real).items() if inspect.isfunction(f) and "degrees" in inspect.signature(f).parameters
             and not n.startswith("_dv")]
    chk.under_contract(real, *[n for n in names if n in set(SIX) | set(ANOM) | set(RADII)])
    for n in list(SIX) + list(ANOM) + list(RADII) + ["euler_rotation_matrix", "true_of_the_asymptote"]:
        chk.expect(f"{n}/has-degrees-argument", n in names, "no degrees argument")
    for n in names:
        d = inspect.signature(getattr(real, n)).parameters["degrees"].default
        chk.expect(f"{n}/default-is-radians", d is False, f"default {d!r}")
    stub2 = chk.load(stubs={"pyorb.kepler": kepler_stubs(real)})
    solver = chk.load(stubs={"pyorb.kepler": solver_ufs(real)})
    chk.assumptions.append("cart_to_equi and equi_to_cart are checked over the contracts of the conversions they call; "
                           "mean anomaly inversions over a deterministic solver (degrees never reach it)")

    for fname, (src, dst, mu) in SIX.items():
        mod = stub2 if fname in ("cart_to_equi", "equi_to_cart") else real
        fn = getattr(mod, fname)
        for kind in ("arr", "vec"):
            cols = ROWS[src]

            def thunk():
                kw = {"mu": num(MU)} if mu else {}
                ax = CTX.new_axis("N")
                d = fn(six(cols, kind, axis=ax), degrees=True, **kw)
                r = fn(six(radians_of(cols, DEG[src]), kind, axis=ax), degrees=False, **kw)
                r0 = fn(six(radians_of(cols, DEG[src]), kind, axis=ax), **kw)
                return d, r, r0
            for nm, p in both(chk, f"{fname}[{kind}]", thunk):
                d, r, r0 = [cells6(x) for x in p.result]
                fs = clean(p)
                for j in range(6):
                    want = deg(r[j]) if j in DEG[dst] else r[j]
                    equal(chk, f"{nm}/{ROWS[dst][j].t.args[0]}", d[j], want, fs)
                    equal(chk, f"{nm}/{ROWS[dst][j].t.args[0]}/default", r0[j], r[j], fs)
    for fname, x in ANOM.items():
        mod = solver if fname.startswith("mean_to") else real
        fn = getattr(mod, fname)
        for kinds in (("array", "array"), ("float", "float"), ("array", "float")):
            def thunk():
                ax = CTX.new_axis("N")
                ad = anomaly_args(kinds, x, EC, axis=ax)
                ar = anomaly_args(kinds, rad(x), EC, axis=ax)
                return fn(*ad, degrees=True), fn(*ar, degrees=False), fn(*ar)
            for nm, p in both(chk, f"{fname}[{kinds[0]},{kinds[1]}]", thunk):
                d, r, r0 = [cell(v) for v in p.result]
                fs = clean(p) + [EC >= 0]
                equal(chk, f"{nm}/post", d, deg(r), fs)
                equal(chk, f"{nm}/default", r0, r, fs)
    for fname, (args, angle_args, out_angle) in RADII.items():
        fn = getattr(real, fname)
        for arr in (False, True):
            def thunk():
                def mk(f):
                    out = []
                    ax = CTX.new_axis("N")
                    for a in args:
                        t = f(V(a)) if a in angle_args else V(a)
                        out.append(vec(t, ax) if arr else num(t))
                    return out
                return fn(*mk(lambda t: t), degrees=True), fn(*mk(rad), degrees=False), fn(*mk(rad))
            for nm, p in both(chk, f"{fname}[{'array' if arr else 'float'}]", thunk):
                d, r, r0 = [cell(v) for v in p.result]
                fs = clean(p)
                equal(chk, f"{nm}/post", d, deg(r) if out_angle else r, fs)
                equal(chk, f"{nm}/default", r0, r, fs)
    for kind in ("float", "array"):
        for fname in ("euler_rotation_matrix",):
            fn = getattr(real, fname)
            angs = Vs("inc om Om")

            def thunk():
                ax = CTX.new_axis("N")
                w = (lambda t: vec(t, ax)) if kind == "array" else num
                return (fn(*[w(x) for x in angs], degrees=True), fn(*[w(rad(x)) for x in angs], degrees=False),
                        fn(*[w(rad(x)) for x in angs]))
            for nm, p in both(chk, f"{fname}[{kind}]", thunk):
                ds = [S.asarray(x).cells for x in p.result]
                chk.expect(f"{nm}/shape", ds[0].shape == ds[1].shape == ds[2].shape, "shapes differ")
                for i in S.rnp.ndindex(*ds[0].shape):
                    equal(chk, f"{nm}/{i[0]}{i[1]}", ds[0][i], ds[1][i], clean(p))
                    equal(chk, f"{nm}/{i[0]}{i[1]}/default", ds[2][i], ds[1][i], clean(p))


RADII = {"orbital_distance": (("h", "mu", "e", "nu"), ("nu",), False), "elliptic_radius": (("E", "a", "e"), ("E",), False),
         "parabolic_radius": (("nu", "q"), ("nu",), False), "hyperbolic_radius": (("nu", "a", "e"), ("nu",), False),
         "true_of_the_asymptote": (("e",), (), True)}

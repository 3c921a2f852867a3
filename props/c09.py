"""frame conditions: arguments are not written, results are fresh floating point arrays"""
from dv import nf
from .common import *
from .c05 import MA
from .c07 import SIX, ANOM, ROWS, both, clean, equal
from .c08 import solver_contract
from .c04 import NU, EC
from .stubs import kepler_stubs

DTYPES = ("float64", "float32", "int64", "int32")


def typed(terms, dtype):
    """symbols of this data type"""
    if dtype.startswith("int"):
        return [E(T.sym(tm(t).args[0] + "_int", "I")) for t in terms]
    return list(terms)


class Frame:
    """what an argument was before the call"""

    def __init__(self, *arrays):
        self.arrays = [a for a in arrays if isinstance(a, S.SymArray)]
        self.before = [(list(a.cells.flat), a.dims, a.dtype, a.cells) for a in self.arrays]

    def check(self, chk, nm, facts):
        for n, (a, (cells, dims, dt, obj)) in enumerate(zip(self.arrays, self.before)):
            chk.expect(f"{nm}/arg{n}/shape-and-type-unchanged", same_dims(a.dims, dims) and a.dtype == dt,
                       f"{a.dims} {a.dtype} after the call, {dims} {dt} before")
            now = list(a.cells.flat)
            ok = len(now) == len(cells) and all(x is y or nf.equal(x, y, facts) for x, y in zip(now, cells))
            chk.expect(f"{nm}/arg{n}/values-unchanged", ok,
                       "; ".join(f"{T.pretty(y, 3)} became {T.pretty(x, 5)}" for x, y in zip(now, cells) if x is not y)[:400])

    def fresh(self, chk, nm, res):
        for n, (a, b) in enumerate(zip(self.arrays, self.before)):
            shared = isinstance(res, S.SymArray) and (S.rnp.shares_memory(res.cells, a.cells) or S.rnp.shares_memory(res.cells, b[3]))
            chk.expect(f"{nm}/arg{n}/no-shared-memory", not shared, "the result is a view of the argument")


def check_dtype(chk, nm, res, dtype, array=True):
    dt = res.dtype if hasattr(res, "dtype") and res.dtype is not None else S.F64
    chk.expect(f"{nm}/floating-point", dt.kind == "f", f"{dt}")
    if dtype == "float32" and array:
        chk.expect(f"{nm}/single-precision", dt == S.rnp.dtype("float32"), f"{dt}")


def run(chk):
    real = chk.load()
    stub2 = chk.load(stubs={"pyorb.kepler": kepler_stubs(real)})
    solver = chk.load(stubs={"pyorb.kepler": solver_contract(real)})
    chk.under_contract(real, *SIX, *ANOM, "kepler_guess")
    chk.assumptions.append("cart_to_equi and equi_to_cart are checked over stand-ins of the conversions they call, whose "
                           "frame conditions are obligations of this same check")
    for fname, (src, dst, mu) in SIX.items():
        fn = getattr(stub2 if fname in ("cart_to_equi", "equi_to_cart") else real, fname)
        for dtype in DTYPES:
            cols = typed(ROWS[src], dtype)
            fcols = [E(T.to_real(tm(c))) for c in cols]
            for kind, muk in (CALLS if mu else [("arr", None), ("vec", None)]):
                if muk == "np64" and dtype != "float64" or dtype == "int32" and muk == "array":
                    continue
                for dg in (False, True):
                    def thunk():
                        ax = CTX.new_axis("N")
                        x = six(cols, kind, dtype, axis=ax)
                        kw = {"degrees": dg}
                        kf = {"degrees": dg}
                        if mu:
                            kf["mu"] = vec(MU, ax) if muk == "array" else num(MU, muk == "np64")
                            kw["mu"] = vec(MU, ax, "float32") if muk == "array" and dtype == "float32" else \
                                vec(MU, ax) if muk == "array" else num(MU, muk == "np64")
                        fr = Frame(x, kw.get("mu"))
                        r = fn(x, **kw)
                        f = fn(six(fcols, kind, axis=ax), **kf) if dtype.startswith("int") else None
                        return fr, r, f
                    for nm, p in both(chk, f"{fname}[{dtype},{kind},{muk},{'deg' if dg else 'rad'}]", thunk):
                        fr, r, f = p.result
                        fs = clean(p)
                        fr.check(chk, nm, fs)
                        fr.fresh(chk, nm, r)
                        check_dtype(chk, nm, r, dtype)
                        if f is not None:
                            over = [ev for ev in p.events if ev[0] == "integer product"]
                            chk.expect(f"{nm}/no-integer-products", src == "equi" or not over, "fixed width integers can overflow: "
                                       + "; ".join(str(ev[1]) for ev in over))
                            a, b = cells6(r), cells6(f)
                            for j in range(6):
                                equal(chk, f"{nm}/not-truncated/{ROWS[dst][j].t.args[0]}", a[j], b[j], fs)
    for fname, x in list(ANOM.items()) + [("kepler_guess", MA)]:
        fn = getattr(solver if fname in ("mean_to_eccentric", "mean_to_true", "kepler_guess") else real, fname)
        for dtype in DTYPES:
            xs = typed([x, EC], dtype)
            fxs = [E(T.to_real(tm(c))) for c in xs]
            for kinds in (("array", "array"), ("array", "float"), ("float", "array"), ("grid", "grid"), ("grid", "float"), ("float", "grid")):
                if dtype == "int32" and "float" in kinds:
                    continue
                for dg in (False, True) if fname != "kepler_guess" else (False,):
                    def thunk():
                        ax = CTX.new_axis("N")
                        kw = {} if fname == "kepler_guess" else {"degrees": dg}
                        axes = (ax, CTX.new_axis("K"))
                        a = [vec(t, ax, dtype) if k == "array" else grid(t, axes, dtype) if k == "grid" else num(ft)
                             for k, t, ft in zip(kinds, xs, fxs)]
                        fr = Frame(*a)
                        r = fn(*a, **kw)
                        f = fn(*anomaly_args(kinds, *fxs, axis=ax), **kw) if dtype.startswith("int") else None
                        return fr, r, f
                    for nm, p in both(chk, f"{fname}[{dtype},{kinds[0]},{kinds[1]},{'deg' if dg else 'rad'}]", thunk):
                        fr, r, f = p.result
                        fs = clean(p)
                        fr.check(chk, nm, fs)
                        fr.fresh(chk, nm, r)
                        check_dtype(chk, nm, r, dtype, "float" not in kinds)
                        if f is not None:
                            equal(chk, f"{nm}/not-truncated", cell(r), cell(f), fs + [fxs[1] >= 0])

"""symbolic arguments of the real functions"""
from dv import symnp as S, terms as T
from dv.ctx import CTX
from dv.spec import *

KEP = Vs("a e i om Om nu")
CART = Vs("x y z vx vy vz")
MU = V("mu")
E_LIM = C("1e-9")
I_LIM = PI * C("1e-9")
FLOATS = ("float32", "float64")

# a point satisfying each regime, for the vacuity guards
POINT = {
    "ell": dict(a=2.0, e=0.3, i=0.7, om=1.1, Om=2.2, nu=0.9, mu=1.5),
    "hyp": dict(a=2.0, e=1.7, i=0.7, om=1.1, Om=2.2, nu=0.9, mu=1.5),
    "par": dict(a=2.0, e=1.0, i=0.7, om=1.1, Om=2.2, nu=0.9, mu=1.5),
}


def env(**kw):
    return {V(k): v for k, v in kw.items()}


def of_caller(a):
    """an array given by the caller: any memory layout"""
    a.korder = True
    return a


def six(cols, kind, dtype="float64", axis=None):
    """(6, N) array with these generic column entries, or a (6,) vector"""
    ts = [tm(c) for c in cols]
    if kind == "arr":
        ax = axis or CTX.new_axis("N")
        return of_caller(S.from_terms(ts, (6, ax), S.rnp.dtype(dtype)))
    return of_caller(S.from_terms(ts, (6,), S.rnp.dtype(dtype)))


def vec(term, axis=None, dtype="float64", name="N"):
    ax = axis or CTX.new_axis(name)
    return of_caller(S.from_terms([tm(term)], (ax,), S.rnp.dtype(dtype)))


def grid(term, axes, dtype="float64"):
    """array over two axes of any lengths"""
    return of_caller(S.from_terms([[tm(term)]], axes, S.rnp.dtype(dtype)))


def num(term, np64=False):
    """python float, or numpy float64 scalar"""
    return S.SymReal(tm(term), S.F64) if np64 else S.SymReal(tm(term))


def cells6(res):
    if not isinstance(res, S.SymArray) or res.cells.shape[0] != 6:
        raise TypeError(f"not a six row array: {res!r}")
    return [E(res.cells[j, 0] if res.cells.ndim == 2 else res.cells[j]) for j in range(6)]


def cell(res):
    """generic element of an array, a 0-d array or a scalar"""
    if isinstance(res, S.SymArray):
        return E(res.cells.reshape(-1)[0])
    return E(S.to_term(res))


# the ways a conversion of six elements can be called
CALLS = [("arr", "float"), ("arr", "array"), ("arr", "np64"), ("vec", "float"), ("vec", "np64")]


def six_call(chk, fn, name, cols, call, degrees=None, mu=True, dtype="float64", extra=None):
    """execute fn on one kind of input; returns (cells, result, input, input before)"""
    kind, muk = call
    box = {}

    def thunk():
        x = six(cols, kind, dtype)
        box["x"] = x
        box["before"] = list(x.cells.flat)
        kw = dict(extra or {})
        if mu:
            if muk == "array":
                kw["mu"] = vec(MU, x.dims[1])
            else:
                kw["mu"] = num(MU, muk == "np64")
        if degrees is not None:
            kw["degrees"] = degrees
        return fn(x, **kw)
    p = chk.single(name, thunk)
    if p is None:
        return None
    return p.result, box["x"], box["before"]


def same_dims(a, b):
    return len(a) == len(b) and all((x is y) or (x == y if isinstance(x, int) or isinstance(y, int) else x.length is y.length) for x, y in zip(a, b))


def subst(e, mapping, memo=None):
    return E(T.subst(tm(e), {tm(k): tm(v) for k, v in mapping.items()}, memo))


# the ways an anomaly function can be called: (first, second argument)
PAIRS = [("array", "array"), ("array", "float"), ("float", "array"), ("float", "float"), ("np64", "np64"),
         ("array", "np64"), ("np64", "array"), ("grid", "grid"), ("grid", "float"), ("float", "grid")]


def anomaly_args(kinds, x, e, dtype="float64", axis=None):
    ax = axis or CTX.new_axis("N")
    ax2 = CTX.new_axis("K") if "grid" in kinds else None
    out = []
    for k, t in zip(kinds, (x, e)):
        if k == "array":
            out.append(vec(t, ax, dtype))
        elif k == "grid":
            out.append(grid(t, (ax, ax2), dtype))
        else:
            out.append(num(t, k == "np64"))
    return out


def anomaly_call(chk, fn, nm, x, e, kinds, degrees=None, extra=None, paths=False):
    box = {}

    def thunk():
        args = anomaly_args(kinds, x, e)
        box["args"] = args
        kw = dict(extra or {})
        if degrees is not None:
            kw["degrees"] = degrees
        return fn(*args, **kw)
    if paths:
        return [p for p in chk.paths(nm, thunk) if not p.ended], box
    ps = [p for p in chk.paths(nm, thunk) if not p.ended]
    bad = [p for p in ps if p.exc is not None]
    if bad:
        chk.record(f"{nm}/no-exception", False, "symbolic execution", 0, repr(bad[0].exc) + f" on {bad[0].pc[-3:]}")
        return None, box
    if ps:
        chk.record(f"{nm}/no-exception", True, "symbolic execution")
    return ps, box


def check_anomaly_shape(chk, nm, res, args):
    arrays = [a for a in args if isinstance(a, S.SymArray)]
    if arrays:
        chk.expect(f"{nm}/shape", isinstance(res, S.SymArray) and same_dims(res.dims, arrays[0].dims),
                   f"result {res!r}")
    else:
        chk.expect(f"{nm}/shape", isinstance(res, S.Scalar) or (isinstance(res, S.SymArray) and not res.dims),
                   f"result {res!r}")

"""contracts of pyorb.kepler functions used in place of their bodies by callers

Each stub is a deterministic function of one column (uninterpreted), angles in
radians; the degrees flag and the column independence it uses are proved for the
real functions in C07 and C08, the meaning of the functions in C01-C05."""
import inspect

from dv import symnp as S, terms as T
from dv.ctx import CTX, Unsupported
from dv.spec import E, PI, tm

F64 = S.F64


def columnwise(fn, *xs, dtype=None):
    arrs = [S.asarray(x) for x in xs]
    if dtype is None:
        dtype = S.rnp.result_type(*[a.dtype for a, x in zip(arrs, xs) if getattr(x, "dtype", None) is not None] or [F64], S.rnp.float32)
    dims = S.join_dims([a.dims for a in arrs])
    shape = [S.clen(d) for d in dims]
    bc = [S.rnp.broadcast_to(a.cells, shape) for a in arrs]
    res = S.rnp.empty(shape, dtype=object)
    for i in S.rnp.ndindex(*shape):
        res[i] = fn(*[T.to_real(b[i]) for b in bc])
    r = S.SymArray(res, dims, dtype)
    return S.scalar(res[()], dtype) if not dims else r


def rad_t(t):
    return (E(t) * PI / 180).t


def deg_t(t):
    return (E(t) * 180 / PI).t


def nan_strict(name, args):
    """a NaN argument gives a NaN result"""
    return T.uf(name, args)


def six_stub(name, in_angles, out_angles, real=None, with_opts=False):
    """conversion of six rows; `name`_j(columns, mu) are the result rows"""
    def stub(x, mu=None, solver_options=None, degrees=False, **kw):
        if kw:
            raise TypeError(f"unexpected keyword arguments {sorted(kw)}")
        if mu is None and real is not None:
            mu = inspect.signature(real).parameters["mu"].default
        if not isinstance(x, S.SymArray):
            raise TypeError("Input type not supported")
        if isinstance(x.dims[0], int) and x.dims[0] != 6 or not isinstance(x.dims[0], int):
            raise ValueError("six rows expected")
        CTX.events.append(("call", name, tuple(x.cells.flat), degrees))
        dg = bool(degrees)
        rows = [x[j] for j in range(6)]
        args = rows + ([mu] if mu is not None else [])
        out = []
        for j in range(6):
            def f(*ts, j=j):
                ts = list(ts)
                if dg:
                    for a in in_angles:
                        ts[a] = rad_t(ts[a])
                r = T.uf(f"{name}{j}", tuple(ts) + tuple(opt_terms(solver_options) if with_opts else ()))
                return deg_t(r) if dg and j in out_angles else r
            out.append(columnwise(f, *args))
        return S.stack([S.asarray(o) for o in out], axis=0)
    return stub


def opt_terms(o):
    """solver options as terms (absent options: the defaults of the solver)"""
    o = dict(o or {})
    out = [S.to_term(o.pop("tol", 1e-12)), S.to_term(o.pop("max_iter", 5000)), S.to_term(o.pop("degree", 5))]
    if o:
        raise TypeError(f"unexpected solver options {sorted(o)}")
    return [T.to_real(t) for t in out]


def anomaly_stub(name, solver=False):
    def stub(x, e, *rest, **kw):
        degrees = kw.pop("degrees", False)
        opts = kw.pop("solver_options", None)
        rest = list(rest)
        if solver and rest:
            opts = rest.pop(0)
        if rest:
            degrees = rest.pop(0)
        if rest or kw or (opts is not None and not solver):
            raise TypeError("unexpected arguments")
        dg = bool(degrees)
        extra = tuple(opt_terms(opts)) if solver else ()
        if isinstance(x, S.SymArray) and isinstance(e, S.SymArray) and not S_same(x.dims, e.dims):
            raise TypeError("Input dimensions does not agree")

        def f(a, b):
            r = T.uf(name, (rad_t(a) if dg else a, b) + extra)
            return deg_t(r) if dg else r
        return columnwise(f, x, e)
    return stub


def S_same(a, b):
    return len(a) == len(b) and all((x is y) or (isinstance(x, int) and x == y) or S.axes_equal(x, y) for x, y in zip(a, b))


ANOMALY = {"true_to_eccentric": ("T2E", False), "eccentric_to_true": ("E2T", False), "eccentric_to_mean": ("E2M", False),
           "mean_to_eccentric": ("M2E", True)}


def kepler_stubs(real, names=None, equi=False):
    """stub table for the functions present in the real module"""
    out = {}
    if hasattr(real, "kep_to_cart"):
        out["kep_to_cart"] = six_stub("K2C", (2, 3, 4, 5), (), real.kep_to_cart)
    if hasattr(real, "cart_to_kep"):
        out["cart_to_kep"] = six_stub("C2K", (), (2, 3, 4, 5), real.cart_to_kep)
    if equi and hasattr(real, "equi_to_kep"):
        out["equi_to_kep"] = six_stub("Q2K", (5,), (2, 3, 4, 5))
    if equi and hasattr(real, "kep_to_equi"):
        out["kep_to_equi"] = six_stub("K2Q", (2, 3, 4, 5), (5,))
    for n, (u, sol) in ANOMALY.items():
        if hasattr(real, n):
            out[n] = anomaly_stub(u, sol)
    return {n: bound(f, getattr(real, n)) for n, f in out.items() if names is None or n in names}


def bound(stub, real):
    """a call by any mixture of positions and names, as the function itself takes it"""
    sig = inspect.signature(real)
    two = "e" in list(sig.parameters)[:2]

    def call(*args, **kw):
        a = dict(sig.bind(*args, **kw).arguments)
        first = [a.pop(n) for n in list(sig.parameters)[:2 if two else 1]]
        return stub(*first, **a)
    return call

"""each column (element) of an array result is the result for that column alone"""
import inspect

from .common import *
from .c05 import MA
from .c07 import SIX, ANOM, ROWS, both, clean, equal
from .c04 import NU, EC, EA
from .stubs import kepler_stubs


def solver_contract(real):
    """deterministic solver and start value; contracts proved in C06: a start value that solves the equation is
    returned as it is, and (proved below) the start value of a circular orbit is the mean anomaly"""
    sig = inspect.signature(real.laguerre_solve_kepler)

    def real_term(v):
        return T.to_real(S.to_term(v.item() if isinstance(v, S.SymArray) and not v.dims else v))

    def laguerre_solve_kepler(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        ar = {n: real_term(v) for n, v in b.arguments.items()}
        ts = [ar[n] for n in sig.parameters]
        R = T.uf("LAGUERRE", ts)
        E0, M, e, tol = [E(ar[n]) for n in ("E0", "M", "e", "tol")]
        f = M - E0 + e * sin(E0)
        CTX.pc.append(T.implies(tm(and_(e <= 1, absv(f) < tol)), T.eq(R, E0.t)))
        CTX.pc.append(T.implies(tm(and_(e.eq(0), absv(M - E0) < tol)), T.eq(R, E0.t)))      # the same for e = 0
        return S.SymReal(R, S.F64), S.SymInt(T.uf("LAGUERRE_N", ts, "I"))

    def guess(name):
        def f(M, e):
            m, ec = real_term(M), real_term(e)
            G = T.uf(name, [m, ec])
            if name == "_get_kepler_guess":
                CTX.pc.append(T.implies(T.eq(ec, T.ZERO), T.eq(G, m)))
            return S.SymReal(G, S.F64)
        return f
    out = {"laguerre_solve_kepler": laguerre_solve_kepler}
    for n in ("_get_kepler_guess", "_get_hyperbolic_kepler_guess"):
        if hasattr(real, n):
            out[n] = guess(n)
    return out


def only_inputs(chk, name, ts, allowed):
    """the terms mention nothing but the column's own entries"""
    allowed = {tm(a) for a in allowed}
    other = sorted({s.args[0] for t in ts for s in T.syms_of(tm(t)) if s not in allowed})
    chk.expect(name, not other, f"depends on {other}")


def run(chk):
    real = chk.load()
    stub2 = chk.load(stubs={"pyorb.kepler": kepler_stubs(real)})
    solver = chk.load(stubs={"pyorb.kepler": solver_contract(real)})
    chk.under_contract(real, *SIX, *ANOM, "kepler_guess")
    chk.assumptions.append("cart_to_equi and equi_to_cart are checked over the contracts (columnwise functions) of the "
                           "conversions they call, mean anomaly inversions over a deterministic solver returning a start "
                           "value that already solves the equation (C06)")
    for fname, (src, dst, mu) in SIX.items():
        fn = getattr(stub2 if fname in ("cart_to_equi", "equi_to_cart") else real, fname)
        cols = ROWS[src]
        for dg in (False, True):
            def thunk():
                ax = CTX.new_axis("N")
                out = []
                for kind, muk in (CALLS if mu else [("arr", None), ("vec", None)]):
                    x = six(cols, kind, axis=ax)
                    kw = {"degrees": dg}
                    if mu:
                        kw["mu"] = vec(MU, ax) if muk == "array" else num(MU, muk == "np64")
                    r = fn(x, **kw)
                    out.append((f"{kind},{muk}", r, x))
                return out
            for nm, p in both(chk, f"{fname}[{'deg' if dg else 'rad'}]", thunk):
                fs = clean(p)
                ref = cells6(p.result[0][1])
                only_inputs(chk, f"{nm}/depends-only-on-its-column", ref, list(cols) + [MU] * mu)
                for kind, r, x in p.result:
                    chk.expect(f"{nm}/{kind}/shape", isinstance(r, S.SymArray) and same_dims(r.dims, x.dims), f"{r!r} for {x!r}")
                    c = cells6(r)
                    for j in range(6):
                        equal(chk, f"{nm}/{kind}/{ROWS[dst][j].t.args[0]}", c[j], ref[j], fs)
    # start value of a circular orbit
    for kinds in (("float", "float"), ("np64", "np64")):
        if hasattr(real, "_get_kepler_guess"):
            def g():
                return real._get_kepler_guess(*anomaly_args(kinds, MA, EC))
            for n, p in enumerate(q for q in chk.paths(f"_get_kepler_guess[{kinds[0]}]", g) if not q.ended):
                if p.exc is not None:
                    chk.record(f"_get_kepler_guess[{kinds[0]}]/path{n}/no-exception", False, "symbolic execution", 0, repr(p.exc))
                    continue
                chk.prove(f"_get_kepler_guess[{kinds[0]}]/path{n}/post.circular", or_(EC.ne(0), cell(p.result).eq(MA)),
                          [f for f in p.pc] + [EC.eq(0)])
    for fname, x in list(ANOM.items()) + [("kepler_guess", MA)]:
        fn = getattr(solver if fname in ("mean_to_eccentric", "mean_to_true", "kepler_guess") else real, fname)
        for dg in (False, True) if fname != "kepler_guess" else (False,):
            for kinds in PAIRS:
                def thunk():
                    ax = CTX.new_axis("N")
                    kw = {} if fname == "kepler_guess" else {"degrees": dg}
                    a = anomaly_args(kinds, x, EC, axis=ax)
                    return fn(*a, **kw), fn(*anomaly_args(("float", "float"), x, EC), **kw), a
                for nm, p in both(chk, f"{fname}[{kinds[0]},{kinds[1]},{'deg' if dg else 'rad'}]", thunk):
                    r, s, a = p.result
                    check_anomaly_shape(chk, nm, r, a)
                    only_inputs(chk, f"{nm}/depends-only-on-its-element", [cell(r)], [x, EC])
                    equal(chk, f"{nm}/post", cell(r), cell(s), clean(p) + [EC >= 0])
    empty(chk, real)


def empty(chk, real):
    """arrays without any orbit"""
    def array(*dims, like=()):
        return S.from_terms([], dims, S.rnp.dtype("float64"))
    for fname, (src, dst, mu) in SIX.items():
        for dg in (False, True):
            for muk in ("float", "array") if mu else (None,):
                def thunk():
                    kw = {"degrees": dg}
                    if mu:
                        kw["mu"] = array(0) if muk == "array" else num(MU)
                    return getattr(real, fname)(array(6, 0), **kw)
                nm = f"{fname}[empty,{muk},{'deg' if dg else 'rad'}]"
                for p in both_(chk, nm, thunk):
                    r = p.result
                    chk.expect(f"{nm}/shape", isinstance(r, S.SymArray) and r.dims == (6, 0), repr(r))
    for fname, x in list(ANOM.items()) + [("kepler_guess", MA)]:
        for dims in ((0,), (0, 2)):
            for kinds in (("array", "array"), ("array", "float"), ("float", "array")):
                nm = f"{fname}[empty,{dims},{kinds[0]},{kinds[1]}]"

                def thunk():
                    return getattr(real, fname)(*[array(*dims) if k == "array" else num(t) for k, t in zip(kinds, (x, EC))])
                for p in both_(chk, nm, thunk):
                    r = p.result
                    chk.expect(f"{nm}/shape", isinstance(r, S.SymArray) and r.dims == dims, repr(r))


def both_(chk, nm, thunk):
    for n, p in enumerate(q for q in chk.paths(nm, thunk) if not q.ended):
        if p.exc is not None:
            chk.record(f"{nm}/path{n}/no-exception", False, "symbolic execution", 0, repr(p.exc))
        else:
            yield p

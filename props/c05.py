import inspect

from dv import smt
from .common import *
from .c04 import NU, EC, EA, REG, e2t_post, t2e_facts

MA = V("M")
TOL, MAXIT = V("tol"), E(T.sym("max_iter", "I"))
REG5 = {"ell": [EC > 0, EC < 1], "circ": [EC.eq(0)], "hyp": [EC > 1], "par": [EC.eq(1)]}
PT5 = {"ell": dict(M=0.9, e=0.3), "circ": dict(M=0.9, e=0.0), "hyp": dict(M=0.9, e=1.7), "par": dict(M=0.9, e=1.0)}


def residual(reg, M, e, x):
    if reg in ("ell", "circ"):
        return M - x + e * sin(x)
    return M + x - e * sinh(x)


def conv(reg, M, e, x, tol, it, mx):
    """solved to tolerance, or the iteration limit was reached"""
    return or_(absv(residual(reg, M, e, x)) < tol, it.eq(mx))


def solver_stub(real):
    """contract of laguerre_solve_kepler (proved in C06): the result solves Kepler's
    equation of the regime to tol, or the iteration limit was reached"""
    sig = inspect.signature(real) if callable(real) else None

    def laguerre_solve_kepler(*args, **kw):
        from dv.ctx import Unsupported
        b = sig.bind(*args, **kw)
        b.apply_defaults()
        ar = b.arguments
        vals = [S.to_term(v.item() if isinstance(v, S.SymArray) and not v.dims else v) for v in
                (ar["M"], ar["e"], ar["tol"], ar["max_iter"])]
        M, e, tol, mx = [E(T.to_real(v)) if n < 3 else E(v) for n, v in enumerate(vals)]
        R = E(CTX.fresh("solution"))
        it = E(CTX.fresh("iterations", "I"))
        for reg, cond in (("ell", e <= 1), ("hyp", e > 1)):
            CTX.pc.append(T.implies(cond, conv(reg, M, e, R, tol, it, mx)))
        CTX.events.append(("solve", R, it, M, e, tol, mx))
        return S.SymReal(R.t, S.F64), S.SymInt(it.t)
    return laguerre_solve_kepler


def guess_stub(name):
    def guess(M, e):
        return S.SymReal(CTX.fresh("start"), S.F64)
    return guess


def load_stubbed(chk):
    real = chk.load()
    guesses = [n for n in ("_get_hyperbolic_kepler_guess", "_get_kepler_guess") if hasattr(real, n)]
    stubs = {"laguerre_solve_kepler": solver_stub(getattr(real, "laguerre_solve_kepler", None))}
    stubs.update({n: guess_stub(n) for n in guesses})
    return real, chk.load(stubs={"pyorb.kepler": stubs})


def options(given):
    if not given:
        return {}
    return {"solver_options": {"tol": S.SymReal(TOL.t), "max_iter": S.SymInt(MAXIT.t)}}


def col_facts(p):
    return [f for f in p.pc if not (T.syms_of(f) and all(s.sort == "I" and s.args[0][:2] in ("J_", "le") for s in T.syms_of(f)))]


def feasible(fs):
    return smt.SOLVER.feasible([tm(f) for f in fs])


def solved_calls(p):
    """solver calls made on this path"""
    return [ev[1:] for ev in p.events if ev[0] == "solve"]


def parabolic_root(M):
    """real root of x + x^3/3 = M"""
    A = M * 3 / 2
    B = cbrt(A + sqrt(A * A + 1))
    return B - 1 / B


def run(chk):
    real, k = load_stubbed(chk)
    chk.under_contract(real, "eccentric_to_mean", "mean_to_eccentric", "true_to_mean", "mean_to_true", "true_to_eccentric",
                       "eccentric_to_true")
    chk.assumptions.append("laguerre_solve_kepler is represented by its contract (proved in C06)")
    sig = inspect.signature(real.laguerre_solve_kepler)
    dtol, dmax = [S.to_term(sig.parameters[n].default) for n in ("tol", "max_iter")]

    # Kepler's equation
    for kinds in PAIRS:
        nm = f"eccentric_to_mean[{kinds[0]},{kinds[1]}]"
        ps, box = anomaly_call(chk, real.eccentric_to_mean, nm, EA, EC, kinds)
        for n, p in enumerate(ps or []):
            check_anomaly_shape(chk, f"{nm}/path{n}", p.result, box["args"])
            for reg in ("ell", "hyp", "par"):
                fs = REG[reg] + col_facts(p)
                if not feasible(fs):
                    continue
                x = cell(p.result)
                want = {"ell": EA - EC * sin(EA), "hyp": EC * sinh(EA) - EA, "par": EA + EA * EA * EA / 3}[reg]
                chk.prove(f"{nm}/{reg}/path{n}/post", x.eq(want), fs)

    for fname in ("mean_to_eccentric", "mean_to_true"):
        for kinds in PAIRS:
            for given in (True, False):
                nm = f"{fname}[{kinds[0]},{kinds[1]}{',options' if given else ''}]"
                opts = options(given)
                ps, box = anomaly_call(chk, getattr(k, fname), nm, MA, EC, kinds, extra=opts)
                tol, mx = (TOL.t, MAXIT.t) if given else (dtol, dmax)
                if ps and given:
                    d = opts["solver_options"]
                    chk.expect(f"{nm}/options-unchanged", set(d) == {"tol", "max_iter"} and d["tol"].term is TOL.t
                               and d["max_iter"].term is MAXIT.t, str(d))
                for n, p in enumerate(ps or []):
                    if n == 0:
                        check_anomaly_shape(chk, nm, p.result, box["args"])
                for reg in ("ell", "circ", "hyp", "par"):
                    hit = 0
                    for n, p in enumerate(ps or []):
                        fs = REG5[reg] + col_facts(p)
                        if not feasible(fs):
                            continue
                        hit += 1
                        x = cell(p.result)
                        base = f"{nm}/{reg}/path{n}"
                        if fname == "mean_to_eccentric":
                            ecc_post(chk, base, reg, x, fs, p, E(tol), E(mx), exact=kinds_scalar(kinds))
                        else:
                            true_post(chk, base, reg, x, fs, p, E(tol), E(mx), exact=kinds_scalar(kinds))
                    if ps:
                        chk.expect(f"{nm}/{reg}/some-path", hit > 0, "no feasible path")
    # true_to_mean = Kepler's equation of the eccentric anomaly
    for kinds in PAIRS:
        nm = f"true_to_mean[{kinds[0]},{kinds[1]}]"
        ps, box = anomaly_call(chk, real.true_to_mean, nm, NU, EC, kinds)
        qs, _ = anomaly_call(chk, real.true_to_eccentric, "true_to_eccentric" + nm[12:], NU, EC, kinds)
        for n, p in enumerate(ps or []):
            check_anomaly_shape(chk, f"{nm}/path{n}", p.result, box["args"])
            for m, q in enumerate(qs or []):
                for reg in ("ell", "hyp", "par"):
                    fs = t2e_facts(reg) + col_facts(p) + col_facts(q)
                    if not feasible(fs):
                        continue
                    x, ea = cell(p.result), cell(q.result)
                    want = {"ell": ea - EC * sin(ea), "hyp": EC * sinh(ea) - ea, "par": ea + ea * ea * ea / 3}[reg]
                    chk.prove(f"{nm}/{reg}/path{n}.{m}/post", x.eq(want), fs)


def kinds_scalar(kinds):
    return "array" not in kinds and "grid" not in kinds


def ecc_post(chk, base, reg, x, fs, p, tol, mx, exact):
    if reg == "par":
        chk.prove(f"{base}/post.exact", (x + x * x * x / 3).eq(MA), fs)
        return
    if reg == "circ" and exact:
        chk.prove(f"{base}/post.exact", x.eq(MA), fs)
        return
    goals = [absv(residual(reg, MA, EC, x)) < tol]
    for c in solved_calls(p):
        goals.append(and_(x.eq(c[0]), c[1].eq(mx)))
    chk.prove(f"{base}/post.residual-or-limit", or_(*goals), fs, backend="z3")


def true_post(chk, base, reg, x, fs, p, tol, mx, exact):
    if reg == "par":
        ea = parabolic_root(MA)
    elif reg == "circ" and exact:
        ea = MA
    else:
        cs = solved_calls(p)
        if len(cs) != 1:
            chk.expect(f"{base}/solver-called-once", False, f"{len(cs)} solver calls")
            return
        ea = cs[0][0]
        chk.prove(f"{base}/post.residual-or-limit", or_(absv(residual(reg, MA, EC, ea)) < tol, cs[0][1].eq(mx)), fs, backend="z3")
    extra = [cos(ea / 2).ne(0)] if reg in ("ell", "circ") else []
    fs = [f for f in fs if not (T.syms_of(tm(f)) & {tol.t, mx.t}) and T.TRUE is not f and tm(f).op not in ("or",)]
    for g, goal in e2t_post("ell" if reg == "circ" else reg, ea, x):
        chk.prove(f"{base}/post.{g}", goal, fs + extra)

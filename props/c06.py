from dv import loader, smt
from .common import *
from .c04 import EC
from .c05 import MA, feasible

E0, TOL, DEG = V("E0"), V("tol"), V("degree")
MAXIT = E(T.sym("max_iter", "I"))
TREG = {"ell": [EC >= 0, EC < 1], "hyp": [EC > 1]}


def kepler_residual(reg, M, e, x):
    return absv(M - x + e * sin(x)) if reg == "ell" else absv(M + x - e * sinh(x))


def run(chk):
    k = chk.load()
    chk.under_contract(k, "laguerre_solve_kepler", "kepler_guess", "_get_kepler_guess", "_get_hyperbolic_kepler_guess")
    chk.assumptions.append("laguerre_solve_kepler: e >= 0, e != 1 (parabolas are solved in closed form by the callers), max_iter >= 1, degree >= 1")
    solver(chk, k)
    guess(chk, k)


def solver(chk, k):
    loader.Invariants.clear()
    for kinds in ("float", "np64", "0d"):
        for reg in ("ell", "hyp"):
            pre = [tm(f) for f in TREG[reg] + [MAXIT >= E(T.iconst(1)), DEG >= 1, TOL > 0]]

            def arg(x):
                if kinds == "0d":
                    c = S.rnp.empty((), dtype=object)
                    c[()] = x.t
                    return S.SymArray(c, (), S.F64)
                return num(x, kinds == "np64")

            def thunk():
                CTX.assume.extend(pre)
                return k.laguerre_solve_kepler(arg(E0), arg(MA), arg(EC), tol=S.SymReal(TOL.t), max_iter=S.SymInt(MAXIT.t),
                                               degree=S.SymReal(DEG.t))
            nm = f"laguerre_solve_kepler[{kinds}]/{reg}"
            loader.Invariants.clear()
            chk.pending_termination = []
            ps = chk.paths(nm, thunk)
            chk.witness(nm, pre, {**env(e=0.3 if reg == "ell" else 1.7, tol=1e-12, degree=5.0), MAXIT: 5000})
            for n, (oname, goal, facts) in enumerate(chk.pending_termination):
                chk.prove(f"{nm}/terminates.{n}", goal, facts, backend="z3")
            chk.expect(f"{nm}/returns", any(not p.ended for p in ps), "no returning path")
            divs = {}
            for p in ps:
                for ev in p.events:
                    if ev[0] == "div" and not T.is_const(ev[1]):
                        divs[(ev[1], tuple(ev[2]))] = ev
            for n, ((den, pc), ev) in enumerate(divs.items()):
                fs = pre + list(pc)
                if not smt.SOLVER.feasible(fs):
                    continue
                chk.prove(f"{nm}/division-defined.{n}", T.not_(T.eq(den, T.ZERO)), fs, backend="z3", timeout=20)
            for n, p in enumerate(ps):
                if p.ended:
                    continue
                if p.exc is not None:
                    if feasible(p.facts):
                        chk.expect(f"{nm}/path{n}/no-exception", False, repr(p.exc))
                    continue
                if not (isinstance(p.result, tuple) and len(p.result) == 2):
                    chk.expect(f"{nm}/path{n}/result", False, f"{p.result!r}")
                    continue
                x, it = cell(p.result[0]), E(S.to_term(p.result[1]))
                res = kepler_residual(reg, MA, EC, x)
                chk.prove(f"{nm}/path{n}/post.residual-or-limit", or_(res < TOL, it.eq(MAXIT)), p.facts, backend="z3")
                chk.prove(f"{nm}/path{n}/post.count", and_(it >= E(T.iconst(0)), it <= MAXIT), p.facts, backend="z3")
                chk.prove(f"{nm}/path{n}/post.no-iteration-when-solved",
                          T.implies(kepler_residual(reg, MA, EC, E0) < TOL, and_(it.eq(E(T.iconst(0))), x.eq(E0))),
                          p.facts, backend="z3")


def guess(chk, k):
    two = V("M2")
    for kinds in PAIRS:
        nm = f"kepler_guess[{kinds[0]},{kinds[1]}]"
        for reg in ("ell", "hyp"):
            rng = [MA >= 0, MA <= TWO_PI] if reg == "ell" else []
            pre = [tm(f) for f in TREG[reg] + rng]
            val = {}
            for which, m, extra in (("M", MA, []), ("mirror", (TWO_PI - MA) if reg == "ell" else -MA, [])):
                def thunk():
                    CTX.assume.extend(pre)
                    return k.kepler_guess(*anomaly_args(kinds, m, EC))
                ps = [p for p in chk.paths(f"{nm}/{reg}/{which}", thunk) if not p.ended]
                for n, p in enumerate(ps):
                    if p.exc is not None:
                        chk.expect(f"{nm}/{reg}/{which}/path{n}/no-exception", False, repr(p.exc))
                val[which] = [p for p in ps if p.exc is None]
            chk.witness(f"{nm}/{reg}", pre, env(M=0.9, e=0.3 if reg == "ell" else 1.7))
            for n, p in enumerate(val["M"]):
                x = cell(p.result)
                fs = clean(p.facts)
                # finite: the value is defined (no division by zero, no logarithm of a non-positive number)
                chk.prove(f"{nm}/{reg}/path{n}/post.defined", x.eq(x + 0 * x) if False else defined(x), fs)
                hit = 0
                for m, q in enumerate(val["mirror"]):
                    both = fs + clean(q.facts)
                    if not feasible(both):
                        continue
                    hit += 1
                    y = cell(q.result)
                    want = (TWO_PI - x) if reg == "ell" else -x
                    chk.prove(f"{nm}/{reg}/path{n}.{m}/post.symmetric", y.eq(want), both)
                chk.expect(f"{nm}/{reg}/path{n}/mirrored", hit > 0, "no mirrored path")
            chk.expect(f"{nm}/{reg}/some-path", bool(val["M"]), "no path")


def defined(x):
    """a goal that needs the value of x: x**2 >= 0"""
    return T.mk("le", (T.ZERO, T.powi(x.t, 2)), "B")


def clean(facts):
    return [f for f in facts if not (T.syms_of(f) and all(s.sort == "I" for s in T.syms_of(f)))]

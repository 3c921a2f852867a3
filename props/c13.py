"""Stumpff functions"""
from .common import *
from .c07 import clean, equal

X = V("x")
XI = E(T.sym("x_int", "I"))
NAMES = ("stumpff0", "stumpff1", "stumpff2", "stumpff3")


def closed(n, x, sign):
    if sign == 0:
        return [C(1), C(1), C(1) / 2, C(1) / 6][n]
    s = sqrt(x if sign > 0 else -x)
    c, q = (cos(s), sin(s)) if sign > 0 else (cosh(s), sinh(s))
    return [c, q / s, (1 - c) / x, (s - q) / (s * x)][n]


def run(chk):
    k = chk.load()
    chk.under_contract(k, "stumpff", *NAMES)
    chk.notes.append("that the closed forms are the sums of the Stumpff series is classical and not re-proved; the identities "
                     "between them and the value at zero are")
    regs = {1: [X > 0], -1: [X < 0], 0: [X.eq(0)]}
    val = {}
    forms = [("array", "float64"), ("array", "float32"), ("array", "int64"), ("float", None), ("np64", None), ("int", None),
             ("grid", "float64"), ("grid", "int64")]
    for kind, dt in forms:
        for fname in NAMES + ("stumpff",):
            nm = f"{fname}[{kind}{',' + dt if dt else ''}]"
            it = kind == "int" or dt == "int64"
            x = E(T.to_real(XI.t)) if it else X

            def thunk():
                arg = vec(XI if it else X, None, dt) if kind == "array" else \
                    grid(XI if it else X, (CTX.new_axis("N"), CTX.new_axis("K")), dt) if kind == "grid" else S.SymInt(XI.t) if kind == "int" else num(X, kind == "np64")
                return arg, getattr(k, fname)(arg)
            ps = [p for p in chk.paths(nm, thunk) if not p.ended]
            hit = set()
            for m, p in enumerate(ps):
                if p.exc is not None:
                    chk.record(f"{nm}/no-exception", False, "symbolic execution", 0, repr(p.exc))
                    continue
                arg, res = p.result
                if fname == "stumpff":
                    ok = isinstance(res, tuple) and len(res) == 4
                    chk.expect(f"{nm}/four-values", ok, repr(res))
                    rs = list(enumerate(res)) if ok else []
                else:
                    rs = [(NAMES.index(fname), res)]
                for n, r in rs:
                    check_anomaly_shape(chk, f"{nm}/path{m}/c{n}", r, [arg])
                    chk.expect(f"{nm}/path{m}/c{n}/floating-point", not hasattr(r, "dtype") or r.dtype is None or r.dtype.kind == "f", repr(r))
                    for sg, fs in regs.items():
                        fs = [T.subst(f, {X.t: x.t}) for f in fs]
                        if len(ps) > 1:
                            from dv import smt
                            if not smt.SOLVER.feasible(fs + clean(p)):
                                continue
                        hit.add((n, sg))
                        if kind == "array" and dt == "float64" and fname != "stumpff":
                            val[n, sg] = cell(r), clean(p)
                        chk.prove(f"{nm}/path{m}/c{n}/post/{'negative' if sg < 0 else 'positive' if sg else 'zero'}",
                                  subst(cell(r), {}).eq(closed(n, x, sg)), fs + clean(p))
            want = 12 if fname == "stumpff" else 3
            chk.expect(f"{nm}/all-signs", len(hit) == want, f"{sorted(hit)}")
    if len(val) == 12:
        for sg, fs in regs.items():
            v = [val[n, sg][0] for n in range(4)]
            s = "negative" if sg < 0 else "positive" if sg else "zero"
            chk.witness(s, fs, env(x=float(sg)))
            fs = fs + [f for n in range(4) for f in val[n, sg][1]]
            chk.prove(f"identity/c0+x*c2/{s}", (v[0] + X * v[2]).eq(1), fs)
            chk.prove(f"identity/c1+x*c3/{s}", (v[1] + X * v[3]).eq(1), fs)
            chk.prove(f"identity/c0^2+x*c1^2/{s}", (v[0] ** 2 + X * v[1] ** 2).eq(1), fs)

"""scalar orbit formulas"""
import itertools

from .common import *
from .c07 import clean, equal

A, EC, NU, EA, MU_, H, R, P, Q = V("a"), V("e"), V("nu"), V("E"), MU, V("h"), V("r"), V("P"), V("q")

# function: (argument symbols, angle arguments)
FORM = {"orbital_period": ((A, MU), ()), "semi_major_axis": ((P, MU), ()), "orbital_speed": ((R, A, MU), ()),
        "elliptic_radius": ((EA, A, EC), (0,)), "hyperbolic_radius": ((NU, A, EC), (0,)), "parabolic_radius": ((NU, Q), (0,)),
        "orbital_distance": ((H, MU, EC, NU), (3,)), "orbit_total_angular_momentum": ((A, EC, MU), ()),
        "parabolic_total_angular_momentum": ((Q, MU), ()), "true_of_the_asymptote": ((EC,), ())}


def run(chk):
    k = chk.load()
    chk.under_contract(k, *FORM)
    value = {}
    for fname, (args, angles) in FORM.items():
        fn = getattr(k, fname)
        has_deg = "degrees" in __import__("inspect").signature(fn).parameters
        kinds = list(itertools.product(("array", "float"), repeat=len(args))) if len(args) < 4 else \
            [("array",) * 4, ("float",) * 4, ("float", "float", "float", "array"), ("array", "float", "array", "array")]
        kinds.append(("np64",) * len(args))
        kinds += [("grid",) * len(args), ("float",) * (len(args) - 1) + ("grid",), ("grid",) + ("np64",) * (len(args) - 1)]
        for kd in kinds:
            for dg in ([False, True] if has_deg else [None]):
                nm = f"{fname}[{','.join(kd)}{'' if dg is None else ',deg' if dg else ',rad'}]"

                def thunk():
                    ax = CTX.new_axis("N")
                    xs = [deg(t) if dg and j in angles else t for j, t in enumerate(args)]
                    axes = (ax, CTX.new_axis("K"))
                    xs = [vec(t, ax) if q == "array" else grid(t, axes) if q == "grid" else num(t, q == "np64") for t, q in zip(xs, kd)]
                    return xs, fn(*xs) if dg is None else fn(*xs, degrees=dg)
                ps = [p for p in chk.paths(nm, thunk) if not p.ended]
                for n, p in enumerate(ps):
                    if p.exc is not None:
                        chk.record(f"{nm}/no-exception", False, "symbolic execution", 0, repr(p.exc))
                        continue
                    xs, r = p.result
                    check_anomaly_shape(chk, nm, r, xs)
                    got = cell(r)
                    if dg and fname == "true_of_the_asymptote":
                        got = rad(got)
                    if fname not in value:
                        value[fname] = got
                    equal(chk, f"{nm}/path{n}/one-value", got, value[fname], clean(p))
        # an integer among the arguments
        for pos, form in itertools.product(range(len(args)), ("int", "intarray")):
            for dg in ([False, True] if has_deg else [None]):
                nm = f"{fname}[{args[pos].t.args[0]} {form}{'' if dg is None else ',deg' if dg else ',rad'}]"
                iv = E(T.sym(args[pos].t.args[0] + "_int", "I"))
                fv = E(T.to_real(iv.t))
                if dg and pos in angles:
                    fv = rad(fv)

                def thunk():
                    ax = CTX.new_axis("N")
                    xs = [num(deg(t) if dg and j in angles else t) for j, t in enumerate(args)]
                    xs[pos] = S.SymInt(tm(iv)) if form == "int" else vec(iv, ax, "int64")
                    return xs, fn(*xs) if dg is None else fn(*xs, degrees=dg)
                ps = [p for p in chk.paths(nm, thunk) if not p.ended]
                for n, p in enumerate(ps):
                    if p.exc is not None:
                        chk.record(f"{nm}/no-exception", False, "symbolic execution", 0, repr(p.exc))
                        continue
                    xs, r = p.result
                    check_anomaly_shape(chk, nm, r, xs)
                    got = cell(r)
                    if dg and fname == "true_of_the_asymptote":
                        got = rad(got)
                    equal(chk, f"{nm}/path{n}/value", got, subst(value[fname], {args[pos]: fv}), clean(p))
                    over = [ev for ev in p.events if ev[0] == "integer product"]
                    chk.expect(f"{nm}/path{n}/no-integer-products", form == "int" or args[pos] in (EC, H) or not over, "fixed width integers can overflow: "
                               + "; ".join(str(ev[1]) for ev in over))
    if len(value) < len(FORM):
        return

    def call(fname, *xs):
        return subst(value[fname], dict(zip(FORM[fname][0], xs)))
    a, e, i, om, Om, nu = KEP
    facts = [A > 0, MU > 0, P > 0]
    chk.witness("period", facts, env(a=1, mu=2, P=3))
    per = call("orbital_period", A, MU)
    chk.prove("orbital_period/post", (per * per * MU).eq(4 * PI * PI * A * A * A), facts)
    chk.prove("orbital_period/positive", per > 0, facts)
    chk.prove("semi_major_axis(orbital_period)", call("semi_major_axis", per, MU).eq(A), facts)
    sma = call("semi_major_axis", P, MU)
    chk.prove("semi_major_axis/positive", sma > 0, facts)
    chk.prove("orbital_period(semi_major_axis)", call("orbital_period", sma, MU).eq(P), facts)
    for reg in ("ell", "hyp", "par"):
        fs = regime_facts(A, EC, NU, MU, reg)
        chk.witness(f"{reg}", fs, env(a=2, e={"ell": 0.3, "hyp": 1.7, "par": 1}[reg], nu=0.9, mu=1.5))
        st = two_body(A, EC, i, om, Om, NU, MU, reg)
        p = semi_latus(A, EC, reg)
        r = p / (1 + EC * cos(NU))
        # distance, speed and angular momentum of the state
        chk.prove(f"{reg}/distance-of-the-state", dot(st[:3], st[:3]).eq(r * r), fs)
        chk.prove(f"{reg}/distance-positive", r > 0, fs)
        h2 = dot(cross(st[:3], st[3:]), cross(st[:3], st[3:]))
        v2 = dot(st[3:], st[3:])
        sa = -A if reg == "hyp" else A
        h = call("parabolic_total_angular_momentum", A, MU) if reg == "par" else call("orbit_total_angular_momentum", sa, EC, MU)
        chk.prove(f"{reg}/angular-momentum", (h * h).eq(h2), fs)
        chk.prove(f"{reg}/angular-momentum/positive", h > 0, fs)
        if reg != "par":
            v = call("orbital_speed", r, sa, MU)
            chk.prove(f"{reg}/orbital_speed", (v * v).eq(v2), fs)
            chk.prove(f"{reg}/orbital_speed/nonnegative", v >= 0, fs)
        chk.prove(f"{reg}/orbital_distance", call("orbital_distance", sqrt(MU * p), MU, EC, NU).eq(r), fs)
        if reg == "ell":
            # any eccentric anomaly of the same point
            ef = fs + [((1 + EC * cos(NU)) * cos(EA)).eq(EC + cos(NU))]
            c = (EC + cos(NU)) / (1 + EC * cos(NU))
            rad_ = call("elliptic_radius", EA, A, EC)
            chk.prove(f"{reg}/elliptic_radius/form", rad_.eq(A * (1 - EC * cos(EA))), [])
            chk.prove(f"{reg}/elliptic_radius", (A * (1 - EC * c)).eq(r), fs)
        if reg == "hyp":
            chk.prove(f"{reg}/hyperbolic_radius", call("hyperbolic_radius", NU, A, EC).eq(r), fs)
        if reg == "par":
            chk.prove(f"{reg}/parabolic_radius", call("parabolic_radius", NU, A).eq(r), fs)
    th = call("true_of_the_asymptote", EC)
    fs = [EC > 1]
    chk.prove("true_of_the_asymptote/denominator-vanishes", (1 + EC * cos(th)).eq(0), fs)
    chk.prove("true_of_the_asymptote/above-quarter", th > PI / 2, fs)
    chk.prove("true_of_the_asymptote/below-half", th < PI, fs)

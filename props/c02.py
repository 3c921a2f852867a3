from .common import *

NAMES = ("a", "e", "i", "om", "Om", "nu")


def ang(x):
    return [x >= 0, x < TWO_PI]


def behaviours():
    """(name, regime, elements of the state, facts, canonical result, witness)"""
    a, e, i, om, Om, nu = KEP
    u, w = V("u"), V("w")
    tilt = [i > I_LIM, i < PI - I_LIM]
    out = []
    for reg in ("ell", "hyp"):
        ef = [e > E_LIM] if reg == "ell" else []
        pt = POINT[reg]
        out.append((f"{reg}/inclined", reg, dict(e=e, i=i, om=om, Om=Om, nu=nu),
                    ef + ang(om) + ang(Om) + ang(nu) + tilt, [a, e, i, om, Om, nu], pt))
        out.append((f"{reg}/planar", reg, dict(e=e, i=C(0), om=w - Om, Om=Om, nu=nu),
                    ef + ang(w) + ang(nu), [a, e, C(0), w, C(0), nu], dict(pt, w=1.0)))
        out.append((f"{reg}/retrograde-planar", reg, dict(e=e, i=PI, om=w + Om, Om=Om, nu=nu),
                    ef + ang(w) + ang(nu), [a, e, PI, w, C(0), nu], dict(pt, w=1.0)))
    pt = dict(POINT["ell"], e=0.5e-9, u=1.0)
    for ename, ee, ef in (("circular", C(0), []), ("nearly-circular", e, [e <= E_LIM])):
        out.append((f"{ename}/inclined", "ell", dict(e=ee, i=i, om=u - nu, Om=Om, nu=nu),
                    ef + ang(u) + ang(Om) + tilt, [a, ee, i, C(0), Om, u], pt))
        out.append((f"{ename}/planar", "ell", dict(e=ee, i=C(0), om=u - Om - nu, Om=Om, nu=nu),
                    ef + ang(u), [a, ee, C(0), C(0), C(0), u], pt))
        out.append((f"{ename}/retrograde-planar", "ell", dict(e=ee, i=PI, om=u + Om - nu, Om=Om, nu=nu),
                    ef + ang(u), [a, ee, PI, C(0), C(0), u], pt))
    return out


def execute(chk, k, call, degrees=None):
    nm = f"cart_to_kep[{call[0]},mu={call[1]}]"
    r = six_call(chk, k.cart_to_kep, nm, CART, call, degrees)
    if r is None:
        return nm, None
    chk.expect(f"{nm}/shape", same_dims(r[0].dims, r[1].dims), f"{r[0].dims}")
    return nm, cells6(r[0])


def on_state(out, state):
    m = {c.t: s.t for c, s in zip(CART, state)}
    memo = {}
    return [E(T.subst(o.t, m, memo)) for o in out]


def run(chk):
    k = chk.load()
    chk.under_contract(k, "cart_to_kep")
    chk.assumptions.append("every non-rectilinear state with e != 1 is the two-body state of some elements "
                           "(classical; the states are quantified as images of elements)")
    a, e, i, om, Om, nu = KEP
    seen = None
    for call in CALLS:
        nm, out = execute(chk, k, call)
        if out is None:
            continue
        if seen is not None and all(x.t is y.t for x, y in zip(seen, out)):
            chk.expect(f"{nm}/same-terms-as-array-call", True)
            continue
        if seen is None:
            seen = out
        for bname, reg, el, facts, want, pt in behaviours():
            fs = regime_facts(a, el["e"], el["nu"], MU, reg) + facts
            chk.witness(f"{nm}/{bname}", fs, env(**pt))
            o = on_state(out, two_body(a, el["e"], el["i"], el["om"], el["Om"], el["nu"], MU, reg))
            for j in range(6):
                chk.prove(f"{nm}/{bname}/post.{NAMES[j]}", o[j].eq(want[j]), fs)
        # inside the planar band: node 0 (the in-plane angles are exact only in the planar limit)
        for side, tf in (("prograde", [i > 0, i <= I_LIM]), ("retrograde", [i >= PI - I_LIM, i < PI])):
            pi_ = 1e-9 if side == "prograde" else 3.141592653589793 - 1e-9
            for reg in ("ell", "hyp", "nearly-circular"):
                rg = "hyp" if reg == "hyp" else "ell"
                fs = regime_facts(a, e, nu, MU, rg) + tf
                pt = dict(POINT[rg], i=pi_)
                if reg == "ell":
                    fs += [e > E_LIM]
                elif reg != "hyp":
                    fs += [e <= E_LIM]
                    pt["e"] = 0.5e-9
                o = on_state(out, two_body(a, e, i, om, Om, nu, MU, rg))
                b = f"{nm}/{reg}/band-{side}"
                chk.witness(b, fs, env(**pt))
                for j, w in ((0, a), (1, e), (2, i), (4, C(0))):
                    chk.prove(f"{b}/post.{NAMES[j]}", o[j].eq(w), fs)
                if reg == "nearly-circular":
                    chk.prove(f"{b}/post.om", o[3].eq(0), fs)
                else:
                    chk.prove(f"{b}/post.nu", o[5].eq(nu), fs + ang(nu))

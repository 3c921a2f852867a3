from .common import *


def run(chk):
    k = chk.load()
    chk.under_contract(k, "kep_to_cart", "orbit_total_angular_momentum", "parabolic_total_angular_momentum",
                       "orbital_distance", "euler_rotation_matrix")
    chk.assumptions.append("hyperbolic and parabolic elements: true anomaly inside the asymptotes (1 + e cos nu > 0)")
    a, e, i, om, Om, nu = KEP
    for call in CALLS:
        nm = f"kep_to_cart[{call[0]},mu={call[1]}]"
        r = six_call(chk, k.kep_to_cart, nm, KEP, call)
        if r is None:
            continue
        res = r[0]
        out = cells6(res)
        chk.expect(f"{nm}/shape", same_dims(res.dims, r[1].dims), f"{res.dims}")
        for regime in ("ell", "hyp", "par"):
            fs = regime_facts(a, e, nu, MU, regime)
            chk.witness(f"{nm}/{regime}", fs, env(**POINT[regime]))
            want = two_body(a, e, i, om, Om, nu, MU, regime)
            for j, c in enumerate(("x", "y", "z", "vx", "vy", "vz")):
                chk.prove(f"{nm}/{regime}/post.{c}", out[j].eq(want[j]), fs)
    # lemmas over the contract: the invariants of the state are those of the elements
    for regime in ("ell", "hyp", "par"):
        fs = regime_facts(a, e, nu, MU, regime)
        st = two_body(a, e, i, om, Om, nu, MU, regime)
        r, v = st[:3], st[3:]
        p = semi_latus(a, e, regime)
        rn = p / (1 + e * cos(nu))
        h = cross(r, v)
        P, Q = perifocal(i, om, Om)
        chk.prove(f"lemma/{regime}/distance", dot(r, r).eq(rn * rn), fs)
        energy = dot(v, v) / 2 - MU / rn
        want = {"ell": -MU / (2 * a), "hyp": MU / (2 * a), "par": C(0)}[regime]
        chk.prove(f"lemma/{regime}/energy", energy.eq(want), fs)
        W = cross(P, Q)
        for j in range(3):
            chk.prove(f"lemma/{regime}/angular-momentum.{j}", h[j].eq(sqrt(MU * p) * W[j]), fs)
            ev = cross(v, h)[j] / MU - r[j] / rn
            chk.prove(f"lemma/{regime}/eccentricity-vector.{j}", ev.eq(e * P[j]), fs)

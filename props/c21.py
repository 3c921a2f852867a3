"""derived quantities of an Orbit"""
from .orbops import *
from . import zero
from .c19 import number

SHARDS = 7
METHODS = ["Orbit.period", "Orbit.mean_motion", "Orbit.velocity", "Orbit.speed", "Orbit.periapsis", "Orbit.apoapsis",
           "Orbit.mean_longitude", "Orbit.equinoctial", "Orbit.mean_anomaly", "Orbit.true_anomaly"]
FORMULAS = ["orbital_period", "semi_major_axis", "orbital_speed", "orbital_distance", "orbit_total_angular_momentum"]


def equinoctial_rule(t):
    """kep_to_equi undoes equi_to_kep, up to whole revolutions of the longitude (C10)"""
    if t.args[0][:3] == "K2Q":
        xs = t.args[1:7]
        if all(x.op == "uf" and x.args[0] == f"Q2K{j}" and x.args[1:] == xs[0].args[1:] for j, x in enumerate(xs)):
            return xs[0].args[1 + int(t.args[0][3])]


def run(chk):
    mod = setup(chk)
    use_contracts(chk, inverse_rule, round_trip_rule, equinoctial_rule, nan_rule)
    chk.assumptions.append("kep_to_equi undoes equi_to_kep up to whole revolutions (C10), used as a rewriting rule")
    chk.under_contract(mod, *METHODS)
    chk.under_contract(chk.real_kepler, *FORMULAS)
    for job in chk.mine(list(jobs(mod)) + list(zero.jobs(mod, "C21"))):
        chk.guard(job[1], job[0], chk, *job[1:])


def circ(dg):
    return C(360) if dg else TWO_PI


def period(k, st):
    return TWO_PI * sqrt(k[0] ** 3 / st.mu)


def speed2(k, st):
    """square of the speed of the two-body orbit"""
    a, e = k[0], k[1]
    nu = anomaly(k, st, "true")
    nu = rad(nu) if st.degrees else nu
    a = ite(e > 1, -a, a)
    r = a * (1 - e * e) / (1 + e * cos(nu))
    return st.mu * (2 / r - 1 / a), [1 + e * cos(nu)]


QUANTITIES = {
    "period": lambda k, c, st: period(k, st),
    "mean_motion": lambda k, c, st: circ(st.degrees) / period(k, st),
    "velocity": lambda k, c, st: norm(c[3:]),
    "periapsis": lambda k, c, st: ite(k[1].eq(1), k[0], absv(1 - k[1]) * k[0]),
    "apoapsis": lambda k, c, st: (1 + k[1]) * k[0],
    "mean_longitude": lambda k, c, st: anomaly(k, st, "mean") + k[3] + k[4],
}


def units(facts):
    """the literals that hold"""
    lits = {}
    stack = list(facts)
    while stack:
        g = stack.pop()
        if g.op == "and":
            stack.extend(g.args)
        elif g.op == "not" and g.args[0].op == "or":
            stack.extend(T.not_(h) for h in g.args[0].args)
        elif g.op == "not":
            lits[g.args[0]] = T.FALSE
        elif g.args:
            lits[g] = T.TRUE
    return lits


def resolve(facts, *xs):
    """facts and terms with the literals among the facts decided (three rounds)"""
    for _ in range(3):
        lits = units(facts)
        xs = [E(T.subst(tm(x), lits)) for x in xs]
        new = []
        for f in facts:
            own = units([f])
            new.append(T.subst(f, {k: v for k, v in lits.items() if k not in own}))
            new.extend(k if v is T.TRUE else T.not_(k) for k, v in own.items())
        facts = list(dict.fromkeys(f for f in new if f is not T.TRUE))
    return facts, xs


def equal_resolved(chk, name, x, y, facts):
    facts, (x, y) = resolve(facts, x, y)
    try:
        x, y = E(nf.nterm(tm(x))), E(nf.nterm(tm(y)))
        facts = facts + [nf.nterm(f) for f in facts]
    except nf.Bad:
        pass
    equal(chk, name, x, y, facts)


CASES = {"kepler": lambda st: st.kc, "cartesian": lambda st: T.and_(st.cc, T.not_(st.kc), complete(st.cart)),
         "cartesian-current": lambda st: st.cc, "kepler-latest": lambda st: T.and_(st.kc, T.not_(st.cc), complete(st.kep))}


def quantity(chk, name, mod, mode, typ, dg, which, case=None):
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg)
        CTX.pc.append(number(G, M0))
        before = State(orb)
        if case:
            CTX.pc.append(CASES[case](before))
        k = before.view()[0]
        if which in ("speed", "period", "mean_motion"):
            CTX.pc.extend([tm(before.mu > 0), tm(k[0] > 0), complete(k)])
        if which == "speed":
            s, pos = speed2(k, before)
            CTX.pc.extend([tm(k[1] >= 0), T.not_(tm(k[1].eq(1)))] + [tm(x > 0) for x in pos])
        got = getattr(orb, which)
        return before, got, State(orb)
    for pn, p in run_op(chk, name, thunk):
        before, got, after = p.result
        fs = facts_of(p)
        k, c = before.view()
        if which == "equinoctial":
            M = anomaly(k, before, "mean")
            args = tuple(tm(rad(x)) if dg and j >= 2 else tm(x) for j, x in enumerate(k[:5] + [M]))
            for j in range(6):
                w = E(T.uf(f"K2Q{j}", args))
                equal(chk, f"{pn}/formula.{j}", E(got.cells.reshape(6, -1)[j, 0]), deg(w) if dg and j == 5 else w, fs)
        else:
            v = E(got.cells.reshape(-1)[0])
            chk.expect(f"{pn}/one-per-orbit", same_dims(got.dims, after.dims[2]), f"{got.dims}")
            if which == "speed":
                equal_resolved(chk, f"{pn}/formula", v, sqrt(speed2(k, before)[0]), fs)
            else:
                equal(chk, f"{pn}/formula", v, QUANTITIES[which](k, c, before), fs)
        equal(chk, f"{pn}/m", after.m, before.m, fs)
        chk.expect(f"{pn}/type", after.type == typ, after.type)
        k2, c2 = after.view()
        compare(chk, f"{pn}/unchanged", k2 + c2, k + c, fs, names=KN + CN)


def speed_lemma(chk):
    """the speed of the elements is the norm of the velocity of the two-body state (C01) with these elements"""
    a, e, i, om, Om, nu = KEP
    for regime in ("ell", "hyp"):
        fs = regime_facts(a, e, nu, MU, regime)
        st = two_body(a, e, i, om, Om, nu, MU, regime)
        s = -a if regime == "hyp" else a
        r = s * (1 - e * e) / (1 + e * cos(nu))
        chk.prove(f"lemma/speed-is-velocity[{regime}]", (MU * (2 / r - 1 / s)).eq(dot(st[3:], st[3:])), fs)
        chk.witness(f"lemma/speed[{regime}]", fs, env(**POINT[regime]))
        chk.prove(f"lemma/speed-defined[{regime}]", MU * (2 / r - 1 / s) >= 0, fs)


def read_back(chk, name, mod, mode, typ, dg, which, vk):
    """period and mean motion"""
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg)
        CTX.pc.append(number(G, M0))
        before = State(orb)
        k = before.view()[0]
        v, ts = value("val", vk, ax)
        CTX.pc.extend([tm(before.mu > 0), tm(ts[0] > 0), number(ts[0])])
        setattr(orb, which, v)
        after = State(orb)
        return before, ts[0], after, E(getattr(orb, which).cells[0])
    for pn, p in run_op(chk, name, thunk):
        before, v, after, back = p.result
        fs = facts_of(p)
        k, c = before.view()
        k2, c2 = after.view()
        equal(chk, f"{pn}/reads-back", back, v, fs + [complete(k)])
        equal(chk, f"{pn}/m", after.m, before.m, fs)
        compare(chk, f"{pn}/kept", k2[1:], k[1:], fs, names=KN[1:])
        compare(chk, f"{pn}/state", c2, to_cart(k2, after), fs, T.and_(complete(k), complete(k2)), names=CN)


def read_back_velocity(chk, name, mod, mode, typ, dg, vk, case=None):
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg)
        CTX.pc.append(number(G, M0))
        before = State(orb)
        if case:
            CTX.pc.append(CASES[case](before))
        c = before.view()[1]
        v, ts = value("val", vk, ax)
        CTX.pc.extend([tm(ts[0] > 0), number(ts[0]), complete(c), tm(dot(c[3:], c[3:]) > 0)])
        orb.velocity = v
        after = State(orb)
        return before, ts[0], after, E(orb.velocity.cells[0])
    for pn, p in run_op(chk, name, thunk):
        before, v, after, back = p.result
        fs = facts_of(p)
        c = before.view()[1]
        k2, c2 = after.view()
        equal(chk, f"{pn}/m", after.m, before.m, fs)
        compare(chk, f"{pn}/position", c2[:3], c[:3], fs, names=CN)
        n = norm(c[3:])
        compare(chk, f"{pn}/direction", c2[3:], [x * (v / n) for x in c[3:]], fs, names=CN[3:])
        equal_resolved(chk, f"{pn}/reads-back", back, v, fs)
        compare(chk, f"{pn}/elements", k2, to_kep(c2, after), fs, complete(c2), names=KN)


def read_back_equinoctial(chk, name, mod, mode, typ, dg, vk):
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg)
        CTX.pc.append(number(G, M0))
        before = State(orb)
        v, ts = value("val", vk, ax, 6)
        CTX.pc.append(number(*ts))
        orb.equinoctial = v
        after = State(orb)
        return before, ts, after, [E(x) for x in orb.equinoctial.cells.reshape(6, -1)[:, 0]]
    for pn, p in run_op(chk, name, thunk):
        before, ts, after, back = p.result
        fs = facts_of(p)
        equal(chk, f"{pn}/m", after.m, before.m, fs)
        k2, c2 = after.view()
        compare(chk, f"{pn}/reads-back", back, ts, fs, names="ahkpql")
        compare(chk, f"{pn}/state", c2, to_cart(k2, after), fs, complete(k2), names=CN)


def jobs(mod):
    yield (lambda chk, name: speed_lemma(chk), "lemma")
    for mode in ("direct", "lazy"):
        for typ in TYPES:
            for dg in (False, True):
                tag = f"{mode}[{typ},{'deg' if dg else 'rad'}]"
                for which in list(QUANTITIES) + ["equinoctial"]:
                    yield (quantity, f"{tag}/{which}", mod, mode, typ, dg, which)
                for case in (("kepler", "cartesian") if mode == "lazy" else (None,)):
                    yield (quantity, f"{tag}/speed" + (f"[{case} latest]" if case else ""), mod, mode, typ, dg, "speed", case)
                for vk in ("scalar", "array"):
                    for which in ("period", "mean_motion"):
                        yield (read_back, f"{tag}/{which}={vk}", mod, mode, typ, dg, which, vk)
                    for case in (("kepler-latest", "cartesian-current") if mode == "lazy" else (None,)):
                        yield (read_back_velocity, f"{tag}/velocity={vk}" + (f"[{case}]" if case else ""), mod, mode, typ, dg, vk, case)
                    yield (read_back_equinoctial, f"{tag}/equinoctial={vk}", mod, mode, typ, dg, vk)

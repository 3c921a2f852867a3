"""propagation"""
from .orbops import *
from .c19 import number

SHARDS = 7
METHODS = ["Orbit.propagate", "Orbit.mean_motion", "Orbit.period", "Orbit.mean_anomaly", "Orbit.calc_mean_anomaly", "Orbit.anom",
           "Orbit.calculate_cartesian", "Orbit.type"]


def run(chk):
    mod = setup(chk)
    chk.assumptions.append("the state at mean anomaly x of a bound orbit is that at x modulo a revolution (Kepler's equation, C05), "
                           "used as a rewriting rule for orbits with e < 1")
    use_contracts(chk, inverse_rule, round_trip_rule, nan_rule)
    chk.under_contract(mod, *METHODS)
    for job in chk.mine(list(jobs(mod))):
        chk.guard(job[1], job[0], chk, *job[1:])


def advance(chk, name, mod, mode, typ, dg, vk):
    """the mean anomaly advances by mean motion times dt, everything else stays"""
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg)
        CTX.pc.append(number(G, M0))
        before = State(orb)
        v, ts = value("dt", vk, ax)
        CTX.pc.append(number(ts[0]))
        orb.propagate(v)
        return before, ts[0], State(orb), orb
    for pn, p in run_op(chk, name, thunk):
        before, dt, after, orb = p.result
        fs = facts_of(p)
        invariant(chk, pn, after, fs)
        (k0, c0), (k1, c1) = before.view(), after.view()
        ok = complete(k0)
        equal(chk, f"{pn}/m", after.m, before.m, fs)
        chk.expect(f"{pn}/type", after.type == typ and bool(orb.degrees) == dg, f"{after.type}")
        compare(chk, f"{pn}/kept", k1[:5], k0[:5], fs, names=KN)
        circ = C(360) if dg else TWO_PI
        M0_, M1 = anomaly(k0, before, "mean"), anomaly(k1, after, "mean")
        new = M0_ + circ * dt / (TWO_PI * sqrt(k0[0] ** 3 / before.mu))
        equal(chk, f"{pn}/mean-anomaly-bound", M1, mod_(new, circ), fs + [tm(k0[1] < 1), ok])
        equal(chk, f"{pn}/mean-anomaly-unbound", M1, new, fs + [tm(k0[1] >= 1), ok])
        if mode != "manual":
            compare(chk, f"{pn}/state", c1, to_cart(k1, after), fs, T.and_(ok, complete(k1)), names=CN)


def mod_(x, y):
    return E(T.fn("mod", tm(x), tm(y)))


def periodic(e0):
    """Kepler's equation of a bound orbit is periodic"""
    def rule(t):
        if t.args[0] == "M2E" and t.args[2] is e0:
            x = nf.poly(t.args[1])
            y = nf.flatten(x)
            if y != x:
                return T.uf("M2E", (nf.term_of(y),) + t.args[2:])
    return rule


LAWS = {
    "t1+t2": (lambda o, t: (o.propagate(t[0]), o.propagate(t[1])), lambda o, t: o.propagate(t[0] + t[1])),
    "back": (lambda o, t: (o.propagate(t[0]), o.propagate(-t[0])), lambda o, t: None),
    "period": (lambda o, t: o.propagate(o.period), lambda o, t: None),
    "zero": (lambda o, t: o.propagate(0.0), lambda o, t: None),
}


def law(chk, name, mod, mode, typ, dg, vk, which, bound, cart_latest):
    left, right = LAWS[which]

    def thunk():
        ax = CTX.new_axis("N")
        one = make(mod, ax, mode, typ, dg)
        two = make(mod, ax, mode, typ, dg)
        CTX.pc.append(number(G, M0))
        if not cart_latest:
            for o in (one, two):
                consistent(o)
        before = State(two)
        if mode == "lazy":
            CTX.pc.append(T.and_(before.cc, T.not_(before.kc), complete(before.cart)) if cart_latest else before.kc)
        k0 = before.view()[0]
        CTX.pc.append(complete(k0))
        e0 = to_kep(before.cart, before)[1] if cart_latest else before.kep[1]
        a0 = to_kep(before.cart, before)[0] if cart_latest else before.kep[0]
        CTX.pc.extend([tm(e0 < 1) if bound else tm(e0 >= 1), tm(a0 > 0), tm(before.mu > 0)])
        t = [value(f"dt{j}", vk, ax) for j in range(2)]
        CTX.pc.append(number(*[x[1][0] for x in t]))
        left(one, [x[0] for x in t])
        right(two, [x[0] for x in t])
        return before, e0, a0, State(one), State(two)
    for pn, p in run_op(chk, name, thunk):
        before, e0, a0, one, two = p.result
        fs = facts_of(p)
        rule = periodic(tm(nf.nterm(tm(e0))))
        nf.reset(set())
        if bound:
            nf.RULES.append(rule)
        try:
            (k1, c1), (k2, c2) = one.view(), two.view()
            compare(chk, f"{pn}/elements", k1[:5], k2[:5], fs, names=KN)
            M1, M2 = anomaly(k1, one, "mean"), anomaly(k2, two, "mean")
            circ = C(360) if dg else TWO_PI
            if bound:
                M1, M2 = mod_(M1, circ), mod_(M2, circ)
            equal(chk, f"{pn}/mean-anomaly", M1, M2, fs)
            compare(chk, f"{pn}/state", c1, c2, fs, names=CN)
            for n, a in enumerate(sorted(nf.NONZERO, key=lambda t: T.pretty(t, 6))):
                # whatever was cancelled is not zero
                nz = nf.NONZERO
                nf.NONZERO = None
                chk.prove(f"{pn}/nonzero{n}", T.not_(T.eq(a, T.ZERO)), fs)
                nf.NONZERO = nz
        finally:
            if bound:
                nf.RULES.remove(rule)
            nf.reset()


def jobs(mod):
    for mode in ("direct", "lazy", "manual"):
        for typ in TYPES:
            for dg in (False, True):
                tag = f"{mode}[{typ},{'deg' if dg else 'rad'}]"
                for vk in ("scalar", "array"):
                    yield (advance, f"{tag}/propagate({vk})", mod, mode, typ, dg, vk)
                    if mode == "manual":
                        continue
                    for which in LAWS:
                        for bound in (True, False):
                            if which == "period" and not bound:
                                continue
                            for cl in ((False, True) if mode == "lazy" else (False,)):
                                yield (law, f"{tag}/{which}[{vk},{'bound' if bound else 'unbound'}{',cartesian latest' if cl else ''}]",
                                       mod, mode, typ, dg, vk, which, bound, cl)

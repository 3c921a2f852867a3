"""the anomaly type"""
from .orbops import *
from dv.symstr import LOWER, Canonical, SymStr
from . import zero

SHARDS = 7


def run(chk):
    mod = setup(chk)
    use_contracts(chk, inverse_rule, round_trip_rule, nan_rule)
    chk.under_contract(mod, *METHODS)
    for job in chk.mine(list(jobs(mod, chk.tier != "quick")) + list(zero.jobs(mod, "C19"))):
        chk.guard(job[1], job[0], chk, *job[1:])


SPELL = Canonical(LOWER, strip=True)


def number(*xs):
    return T.not_(T.or_(*[T.isnan(tm(x)) for x in xs]))


def with_type(orb):
    """state after a change of type: which of the three it is now"""
    for w in TYPES:
        if orb.type == w:
            st = State(orb)
            st.type = w
            return st
    raise AssertionError("the anomaly type is none of the three")


def set_type(chk, name, mod, mode, typ, dg, new):
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg)
        CTX.pc.append(number(G, M0))
        consistent(orb)
        before = State(orb)
        orb.type = SymStr(SPELL, new)
        return before, with_type(orb), orb
    for pn, p in run_op(chk, name, thunk):
        before, after, orb = p.result
        fs = facts_of(p)
        chk.expect(f"{pn}/type", after.type == new, after.type)
        equal(chk, f"{pn}/m", after.m, before.m, fs)
        if mode != "manual":
            invariant(chk, pn, after, fs)
        kep, cart = before.view() if mode == "lazy" else (before.kep, before.cart)
        k2, c2 = after.view() if mode == "lazy" else (after.kep, after.cart)
        compare(chk, f"{pn}/elements", k2[:5], kep[:5], fs, names=KN)
        equal(chk, f"{pn}/anomaly", k2[5], anomaly(kep, before, new), fs)
        if mode != "manual":
            whole = T.implies(T.and_(before.cc, T.not_(before.kc)), complete(before.cart)) if mode == "lazy" else T.TRUE
            compare(chk, f"{pn}/state-kept", c2, cart, fs, whole, names=CN)
        elif new != typ:
            compare(chk, f"{pn}/not-converted", after.cart, before.cart, fs, names=CN)
        for t in TYPES:
            equal(chk, f"{pn}/same-{t}-anomaly", anomaly(k2, after, t), anomaly(kep, before, t), fs)


def accessors(chk, name, mod, mode, typ, dg, order):
    """the three anomalies describe one point, whatever was asked for before"""
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg)
        before = State(orb)
        got = [(t, E(getattr(orb, t + "_anomaly").cells[0])) for t in order]
        return before, got, State(orb)
    for pn, p in run_op(chk, name, thunk):
        before, got, after = p.result
        fs = facts_of(p)
        kep, cart = before.view() if mode == "lazy" else (before.kep, before.cart)
        for t, v in got:
            equal(chk, f"{pn}/{t}", v, anomaly(kep, before, t), fs)
        d = dict(got)
        e = kep[1]
        f = (lambda x: rad(x)) if dg else (lambda x: x)
        equal(chk, f"{pn}/true-of-eccentric", conv(f(d["eccentric"]), e, "eccentric", "true", before), f(d["true"]), fs)
        equal(chk, f"{pn}/mean-of-eccentric", conv(f(d["eccentric"]), e, "eccentric", "mean", before), f(d["mean"]), fs)
        if mode == "lazy":
            k2, c2 = after.view()
            compare(chk, f"{pn}/unchanged", k2 + c2, kep + cart, fs, names=KN + CN)
        else:
            compare(chk, f"{pn}/unchanged", after.kep + after.cart, before.kep + before.cart, fs, names=KN + CN)


def place(chk, name, mod, mode, typ, dg, which, vk):
    """assigning an anomaly puts the orbit there: it reads back, the point is that of the assigned anomaly"""
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg)
        CTX.pc.append(number(G, M0))
        before = State(orb)
        v, ts = value("val", vk, ax)
        CTX.pc.append(number(ts[0]))
        setattr(orb, which + "_anomaly", v)
        after = State(orb)
        back = E(getattr(orb, which + "_anomaly").cells[0])
        return before, ts[0], after, back
    for pn, p in run_op(chk, name, thunk):
        before, v, after, back = p.result
        fs = facts_of(p)
        kep, cart = before.view() if mode == "lazy" else (before.kep, before.cart)
        k2, c2 = after.view() if mode == "lazy" else (after.kep, after.cart)
        equal(chk, f"{pn}/reads-back", back, v, fs)
        compare(chk, f"{pn}/elements-kept", k2[:5], kep[:5], fs, names=KN)
        want = kep[:5] + [v]
        compare(chk, f"{pn}/state", c2, to_cart(want, before, which), fs, T.and_(complete(want), complete(k2)), names=CN)
        for t in TYPES:
            equal(chk, f"{pn}/{t}-anomaly", anomaly(k2, after, t), anomaly(want, before, t, which), fs)


def jobs(mod, full=False):
    import itertools
    for mode in MODES:
        for typ in TYPES:
            for dg in (False, True):
                tag = f"{mode}[{typ},{'deg' if dg else 'rad'}]"
                for new in TYPES:
                    yield (set_type, f"{tag}/type={new}", mod, mode, typ, dg, new)
                for order in itertools.permutations(TYPES):
                    yield (accessors, f"{tag}/anomalies({','.join(o[0] for o in order)})", mod, mode, typ, dg, order)
                if mode != "manual":
                    for which in TYPES:
                        for vk in ("scalar", "array"):
                            yield (place, f"{tag}/{which}_anomaly={vk}", mod, mode, typ, dg, which, vk)


METHODS = ["Orbit.type", "Orbit.calc_true_anomaly", "Orbit.calc_mean_anomaly", "Orbit.calc_eccentric_anomaly", "Orbit.true_anomaly",
           "Orbit.eccentric_anomaly", "Orbit.mean_anomaly", "Orbit.anom"]

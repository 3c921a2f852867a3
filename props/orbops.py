"""ways of changing an orbit and what each of them means

An operation returns the representation it changes and the new elements as
functions of the elements the orbit stands for before it."""
from .orb import *


class Change:
    def __init__(self, rep, els, cond=T.TRUE, m=None, typ=None):
        self.rep, self.els, self.cond, self.m, self.typ = rep, els, cond, m, typ


def expected(before, ch):
    """(Kepler, Cartesian, fact under which the Cartesian resp. Kepler part is determined)"""
    kep, cart = before.view()
    ctx = before
    if ch.m is not None:
        ctx = With(before, ite(ch.cond, ch.m, before.m), ch.typ)
    elif ch.typ is not None:
        ctx = With(before, before.m, ch.typ)
    els = ch.els(kep, cart, ctx)
    old = kep if ch.rep == "kep" else cart
    new = [ite(ch.cond, els[j], old[j]) if j in els else old[j] for j in range(6)]
    fn = to_cart if ch.rep == "kep" else to_kep
    other = [ite(ch.cond, n, o) for n, o in zip(fn(new, ctx), cart if ch.rep == "kep" else kep)]
    known = T.implies(ch.cond, complete(new))
    return (new, other, known) if ch.rep == "kep" else (other, new, known)


class With:
    """state with another mass or anomaly type"""

    def __init__(self, st, m, typ=None):
        self.m, self.type, self.degrees, self.opts = m, typ or st.type, st.degrees, st.opts
        self.mu = G * (M0 + m)
        self.before = st


def set_attr(name, rep, j, vk):
    def op(orb, ax):
        v, ts = value("val", vk, ax)
        setattr(orb, name, v)
        return Change(rep, lambda kep, cart, st: {j: ts[0]})
    return op


def set_block(name, rep, rows, vk):
    def op(orb, ax):
        v, ts = value("val", vk, ax, len(rows))
        if vk == "scalar" and len(rows) == 3:
            v = S.from_terms([tm(t) for t in ts], (3, 1))
        setattr(orb, name, v)
        return Change(rep, lambda kep, cart, st: dict(zip(rows, ts)))
    return op


def set_list(name, rep):
    def op(orb, ax):
        ts = [V(f"val{j}") for j in range(6)]
        setattr(orb, name, [[num(t)] for t in ts])
        return Change(rep, lambda kep, cart, st: dict(enumerate(ts)))
    return op


def set_anomaly(typ, vk):
    def op(orb, ax):
        v, ts = value("val", vk, ax)
        setattr(orb, typ + "_anomaly", v)

        def els(kep, cart, st):
            k = list(kep)
            k[5] = ts[0]
            return {5: anomaly(k, st, st.type, typ)}
        return Change("kep", els)
    return op


def set_period(name, vk):
    def op(orb, ax):
        v, ts = value("val", vk, ax)
        setattr(orb, name, v)

        def els(kep, cart, st):
            P = ts[0] if name == "period" else (C(360) if st.degrees else TWO_PI) / ts[0]
            q = P / TWO_PI
            return {0: cbrt(q * q * st.mu)}
        return Change("kep", els)
    return op


def set_velocity(vk):
    def op(orb, ax):
        v, ts = value("val", vk, ax)
        orb.velocity = v

        def els(kep, cart, st):
            n = sqrt(cart[3] * cart[3] + cart[4] * cart[4] + cart[5] * cart[5])
            return {j: cart[j] * (ts[0] / n) for j in (3, 4, 5)}
        return Change("cart", els)
    return op


def set_equinoctial(vk):
    def op(orb, ax):
        v, ts = value("val", vk, ax, 6)
        orb.equinoctial = v

        def els(kep, cart, st):
            args = [tm(rad(t)) if st.degrees and j == 5 else tm(t) for j, t in enumerate(ts)]
            k = [E(T.uf(f"Q2K{j}", tuple(args))) for j in range(6)]
            k = [deg(x) if st.degrees and j >= 2 else x for j, x in enumerate(k)]
            out = dict(enumerate(k[:5]))
            out[5] = anomaly(k, st, st.type, "mean")
            return out
        return Change("kep", els)
    return op


def propagate(vk):
    def op(orb, ax):
        v, ts = value("dt", vk, ax)
        orb.propagate(v)

        def els(kep, cart, st):
            k = list(kep)
            k[5] = propagated(kep, st, ts[0])
            return {5: anomaly(k, st, st.type, "mean")}
        return Change("kep", els)
    return op


def mean_motion(kep, st):
    P = TWO_PI * sqrt(kep[0] ** 3 / st.mu)
    return (C(360) if st.degrees else TWO_PI) / P


def propagated(kep, st, dt):
    M = anomaly(kep, st, "mean") + mean_motion(kep, st) * dt
    return ite(kep[1] < 1, mod(M, C(360) if st.degrees else TWO_PI), M)


def update(keys, sel, vk, mass=False):
    rep = "kep" if keys and keys[0] in KN else "cart"
    names = KN if rep == "kep" else CN

    def op(orb, ax):
        s, cond, sax = selection(sel, ax)
        kw, els = {}, {}
        for k in keys:
            v, ts = value("val_" + k, vk, sax)
            kw[k] = v
            els[names.index(k)] = ts[0]
        m = None
        if mass:
            v, ts = value("val_m", vk, sax)
            kw["m"], m = v, ts[0]
        if sel != "all":
            kw["inds"] = s
        orb.update(**kw)
        return Change(rep, lambda kep, cart, st: els, cond, m)
    return op


def update_all(rep, sel, vk):
    def op(orb, ax):
        s, cond, sax = selection(sel, ax)
        v, ts = value("val", vk, sax, 6)
        kw = {"kepler" if rep == "kep" else "cartesian": v}
        if sel != "all":
            kw["inds"] = s
        orb.update(**kw)
        return Change(rep, lambda kep, cart, st: dict(enumerate(ts)), cond)
    return op


def basic():
    """changes of single elements and blocks of them"""
    out = {}
    for rep, names in (("kep", KN), ("cart", CN)):
        for j, n in enumerate(names):
            for vk in ("scalar", "array"):
                out[f"{n}={vk}"] = set_attr(n, rep, j, vk)
    for vk in ("scalar", "array"):
        out[f"r={vk}"] = set_block("r", "cart", (0, 1, 2), vk)
        out[f"v={vk}"] = set_block("v", "cart", (3, 4, 5), vk)
        out[f"cartesian={vk}"] = set_block("cartesian", "cart", range(6), vk)
        out[f"kepler={vk}"] = set_block("kepler", "kep", range(6), vk)
    out["cartesian=list"] = set_list("cartesian", "cart")
    out["kepler=list"] = set_list("kepler", "kep")
    return out


def derived():
    out = {}
    for vk in ("scalar", "array"):
        for t in TYPES:
            out[f"{t}_anomaly={vk}"] = set_anomaly(t, vk)
        out[f"period={vk}"] = set_period("period", vk)
        out[f"mean_motion={vk}"] = set_period("mean_motion", vk)
        out[f"velocity={vk}"] = set_velocity(vk)
        out[f"equinoctial={vk}"] = set_equinoctial(vk)
        out[f"propagate({vk})"] = propagate(vk)
    return out


def updates():
    out = {}
    for sel in SELECTIONS:
        for vk in ("scalar", "array"):
            if sel == "int" and vk == "array":
                continue
            for names in (KN, CN):
                for n in names:
                    out[f"update({n}={vk},{sel})"] = update((n,), sel, vk)
                out[f"update(all six of {names[0]}..,{vk},{sel})"] = update(names, sel, vk)
                out[f"update({names[1]},{names[4]}={vk},{sel})"] = update((names[1], names[4]), sel, vk)
            for rep in ("kep", "cart"):
                out[f"update({rep} block={vk},{sel})"] = update_all(rep, sel, vk)
    return out


def mass_updates():
    out = {}
    for sel in SELECTIONS:
        for n in ("a", "vx"):
            out[f"update(m,{n},{sel})"] = update((n,), sel, "scalar" if sel == "int" else "array", mass=True)
    return out


def check_change(chk, name, mod, op, mode, typ, dg, kro=False, cro=False):
    """an operation on an arbitrary orbit gives what its meaning says"""
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg, kro, cro)
        before = State(orb)
        ch = op(orb, ax)
        return before, ch, State(orb), orb
    for pn, p in run_op(chk, name, thunk):
        before, ch, after, orb = p.result
        fs = facts_of(p)
        kep, cart, known = expected(before, ch)
        m = ite(ch.cond, ch.m, before.m) if ch.m is not None else before.m
        invariant(chk, pn, after, fs)
        equal(chk, f"{pn}/m", after.m, m, fs)
        chk.expect(f"{pn}/type", after.type == (ch.typ or typ), f"{after.type}")
        chk.expect(f"{pn}/same-orbits", same_dims(after.dims[0], before.dims[0]), f"{after.dims[0]}")
        if mode == "manual":
            new, old = (kep, before.cart) if ch.rep == "kep" else (cart, before.kep)
            got, rest = (after.kep, after.cart) if ch.rep == "kep" else (after.cart, after.kep)
            compare(chk, f"{pn}/changed", got, new, fs, names=KN if ch.rep == "kep" else CN)
            compare(chk, f"{pn}/not-converted", rest, old, fs, names=CN if ch.rep == "kep" else KN)
            want = (T.or_(ch.cond, before.kc), T.and_(T.not_(ch.cond), before.cc))
            if ch.rep == "cart":
                want = (T.and_(T.not_(ch.cond), before.kc), T.or_(ch.cond, before.cc))
            chk.prove(f"{pn}/latest-representation", T.and_(T.iff(after.kc, want[0]), T.iff(after.cc, want[1])), fs, backend="z3")
            continue
        gk, gc = after.view()
        compare(chk, f"{pn}/post", gk, kep, fs, known if ch.rep == "cart" else T.TRUE, names=KN)
        compare(chk, f"{pn}/post", gc, cart, fs, known if ch.rep == "kep" else T.TRUE, names=CN)


# ------------------------------------------------------------------ construction and addition
def element_args(how, ax, vk):
    """(keyword arguments, representation, elements)"""
    if how in ("kepler", "cartesian"):
        v, ts = value("val", vk, ax, 6)
        return {how: v}, "kep" if how == "kepler" else "cart", dict(enumerate(ts))
    if how == "none":
        return {}, "kep", {}
    names = KN if how == "kep" else CN
    kw, els = {}, {}
    for j, n in enumerate(names):
        v, ts = value("val_" + n, vk, ax)
        kw[n], els[j] = v, ts[0]
    return kw, "kep" if how == "kep" else "cart", els


def mass_arg(mk, ax):
    if mk == "none":
        return {}, C(0)
    v, ts = value("val_m", mk, ax)
    return {"m": v}, ts[0]


def check_new(chk, name, st, rep, els, m, fs, cond=T.TRUE, manual=False):
    """an orbit that was given these elements and nothing else"""
    equal(chk, f"{name}/m", st.m, m, fs + [cond])
    nan = E(T.NAN)
    kep, cart = (st.kep, st.cart) if manual else st.view()
    given, other = (kep, cart) if rep == "kep" else (cart, kep)
    gn, on = (KN, CN) if rep == "kep" else (CN, KN)
    for j in range(6):
        if j in els:
            equal(chk, f"{name}/given.{gn[j]}", given[j], els[j], fs + [cond])
        else:
            chk.prove(f"{name}/unset.{gn[j]}", T.implies(cond, T.isnan(tm(given[j]))), fs, backend="z3")
    if len(els) == 6 and not manual:
        ctx = With(st, m)
        want = (to_cart if rep == "kep" else to_kep)([els[j] for j in range(6)], ctx)
        known = complete([els[j] for j in range(6)])
        compare(chk, f"{name}/converted", other, want, fs, T.and_(cond, known), names=on)
    elif not els:
        for j in range(6):
            chk.prove(f"{name}/unset.{on[j]}", T.implies(cond, T.isnan(tm(other[j]))), fs, backend="z3")


def construct(chk, name, mod, mode, typ, dg, how, vk, mk, n="N"):
    def thunk():
        ax = CTX.new_axis("N", minlen=1)
        d, a = MODES[mode]
        kw, rep, els = element_args(how, ax, vk)
        mkw, m = mass_arg(mk, ax)
        orb = mod.Orbit(num(M0), G=num(G), num=S.SymInt(ax.length), type=typ, degrees=dg, direct_update=d, auto_update=a,
                        epoch="some epoch", solver_options={"tol": num(C("1e-9"))}, **kw, **mkw)
        return ax, orb, State(orb), rep, els, m
    for pn, p in run_op(chk, name, thunk):
        ax, orb, st, rep, els, m = p.result
        fs = facts_of(p)
        invariant(chk, pn, st, fs)
        chk.expect(f"{pn}/num", same_dims(st.dims[0], (6, ax)), f"{st.dims}")
        chk.expect(f"{pn}/settings", orb.type == typ and orb.degrees == dg and orb.epoch == "some epoch"
                   and (bool(orb.direct_update), bool(orb.auto_update)) == MODES[mode], "settings not kept")
        o = orb.solver_options
        chk.expect(f"{pn}/solver-options", S.to_term(o["tol"]) is tm(C("1e-9")) and S.to_term(o["max_iter"]) is T.iconst(5000)
                   and S.to_term(o["degree"]) is T.iconst(5), f"{o}")
        check_new(chk, pn, st, rep, els, m, fs, manual=mode == "manual")

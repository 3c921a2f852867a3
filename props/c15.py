"""lazy update, and no update at all"""
from .orbops import *
from . import zero


READS = {
    "a": ("kep", 0), "e": ("kep", 1), "i": ("kep", 2), "omega": ("kep", 3), "Omega": ("kep", 4), "anom": ("kep", 5),
    "x": ("cart", 0), "y": ("cart", 1), "z": ("cart", 2), "vx": ("cart", 3), "vy": ("cart", 4), "vz": ("cart", 5),
    "r": ("cart", slice(0, 3)), "v": ("cart", slice(3, 6)), "cartesian": ("cart", slice(0, 6)), "kepler": ("kep", slice(0, 6)),
}


def rows_of(a):
    """terms of the rows of an accessor's result, generic column"""
    return [E(t) for t in a.cells.ravel()]


def read(chk, name, mod, attr, mode, typ, dg):
    """reading gives the elements the orbit stands for and changes none of them"""
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg)
        before = State(orb)
        got = getattr(orb, attr)
        after = State(orb)
        again = getattr(orb, attr)
        return before, got, after, again
    rep, sel = READS[attr]
    for pn, p in run_op(chk, name, thunk):
        before, got, after, again = p.result
        fs = facts_of(p)
        kep, cart = before.view()
        want = (kep if rep == "kep" else cart)[sel]
        want = want if isinstance(want, list) else [want]
        names = (KN if rep == "kep" else CN)[sel]
        names = [names] if isinstance(names, str) else names
        n = before.dims[0][1]
        chk.expect(f"{pn}/shape", same_dims(got.dims, (n,) if isinstance(sel, int) else (len(want), n)), f"{got.dims}")
        compare(chk, f"{pn}/value", rows_of(got), want, fs, names=names)
        compare(chk, f"{pn}/again", rows_of(again), want, fs, names=names)
        invariant(chk, pn, after, fs)
        equal(chk, f"{pn}/m", after.m, before.m, fs)
        if mode == "manual":
            compare(chk, f"{pn}/same", after.kep + after.cart, before.kep + before.cart, fs, names=KN + CN)
            chk.prove(f"{pn}/flags", T.and_(T.iff(after.kc, before.kc), T.iff(after.cc, before.cc)), fs, backend="z3")
        else:
            k2, c2 = after.view()
            compare(chk, f"{pn}/same", k2 + c2, kep + cart, fs, names=KN + CN)


def calculate(chk, name, mod, which, sel, mode, typ, dg):
    """an explicit call converts the complete ones of the selected orbits"""
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg)
        before = State(orb)
        s, cond, _ = selection(sel, ax)
        fn = getattr(orb, "calculate_" + which)
        fn() if sel == "all" else fn(s)
        return before, State(orb), cond
    for pn, p in run_op(chk, name, thunk):
        before, after, cond = p.result
        fs = facts_of(p)
        invariant(chk, pn, after, fs)
        equal(chk, f"{pn}/m", after.m, before.m, fs)
        if which == "cartesian":
            do = T.and_(cond, complete(before.kep))
            src, src2, dst, dst2, new = before.kep, after.kep, before.cart, after.cart, to_cart(before.kep, before)
        else:
            do = T.and_(cond, complete(before.cart))
            src, src2, dst, dst2, new = before.cart, after.cart, before.kep, after.kep, to_kep(before.cart, before)
        compare(chk, f"{pn}/source-kept", src2, src, fs)
        compare(chk, f"{pn}/converted", dst2, [ite(do, n, o) for n, o in zip(new, dst)], fs)
        flags = {"cartesian": (before.kc, T.or_(before.cc, do)), "kepler": (T.or_(before.kc, do), before.cc)}[which]
        chk.prove(f"{pn}/flags", T.and_(T.iff(after.kc, flags[0]), T.iff(after.cc, flags[1])), fs, backend="z3")


def two_step(chk, name, mod, first, second, typ, dg):
    """a change after a change of the other representation that nobody looked at in between"""
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, "lazy", typ, dg)
        first(orb, ax)
        before = State(orb)
        ch = second(orb, ax)
        return before, ch, State(orb)
    for pn, p in run_op(chk, name, thunk):
        before, ch, after = p.result
        fs = facts_of(p)
        kep, cart, known = expected(before, ch)
        gk, gc = after.view()
        compare(chk, f"{pn}/post", gk, kep, fs, known if ch.rep == "cart" else T.TRUE, names=KN)
        compare(chk, f"{pn}/post", gc, cart, fs, known if ch.rep == "kep" else T.TRUE, names=CN)


SHARDS = 7


def run(chk):
    mod = setup(chk)
    chk.under_contract(mod, *METHODS)
    for job in chk.mine(list(jobs(mod)) + list(zero.jobs(mod, "C15"))):
        chk.guard(job[1], job[0], chk, *job[1:])


def jobs(mod):
    ops = {**basic(), **derived()}
    ups = {**updates(), **mass_updates()}
    for mode in ("lazy", "manual"):
        for typ in TYPES:
            for dg in (False, True):
                u = "deg" if dg else "rad"
                tag = f"{mode}[{typ},{u}]"
                main = (typ, dg) in (("true", False), ("mean", True))
                for attr in READS:
                    yield (read, f"{tag}/read.{attr}", mod, attr, mode, typ, dg)
                for name, op in ops.items():
                    if mode == "manual" and name not in basic():
                        continue
                    yield (check_change, f"{tag}/{name}", mod, op, mode, typ, dg)
                for name, op in ups.items():
                    if main or "block" in name:
                        yield (check_change, f"{tag}/{name}", mod, op, mode, typ, dg)
                for which in ("cartesian", "kepler"):
                    for sel in SELECTIONS:
                        if mode == "manual":
                            yield (calculate, f"{tag}/calculate_{which}({sel})", mod, which, sel, mode, typ, dg)
                for how in ("kep", "cart", "kepler", "cartesian", "none"):
                    for vk in ("scalar", "array"):
                        for mk in ("none", "scalar", "array"):
                            if mk != "array" and not main:
                                continue
                            yield (construct, f"{tag}/construct[{how},{vk},m={mk}]", mod, mode, typ, dg, how, vk, mk)


METHODS = ["Orbit.__init__", "Orbit.update", "Orbit._cart_check", "Orbit._kep_check", "Orbit.calculate_cartesian",
           "Orbit.calculate_kepler", "Orbit.calc_true_anomaly"]

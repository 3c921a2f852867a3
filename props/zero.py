"""orbits without any orbit (num = 0): the generic column does not stand for them"""
from .orb import *

ROWS = {"r": 3, "v": 3, "kepler": 6, "cartesian": 6, "equinoctial": 6}
ANOMALIES = tuple(t + "_anomaly" for t in TYPES)
DERIVED = ("period", "mean_motion", "velocity", "speed", "periapsis", "apoapsis")
NONE = {
    "slice": lambda: slice(None), "empty slice": lambda: slice(0, 0), "list": lambda: [],
    "mask": lambda: S.from_terms([], (0,), S.rnp.bool_), "indices": lambda: S.from_terms([], (0,), S.rnp.dtype("int64")),
}


def empty_array(rows=None, dt=None):
    return S.from_terms([], (rows, 0) if rows else (0,), dt or S.F64)


def vector(n):
    return S.from_terms([tm(V(f"val_{j}")) for j in range(n)], (n,), S.F64)


def no_orbits(mod, mode, typ, dg, kro=False, cro=False, **kw):
    orb = mod.Orbit(num(M0), G=num(G), num=0, type=typ, degrees=dg, epoch="some epoch", direct_update=MODES[mode][0], auto_update=MODES[mode][1], **kw)
    orb.kepler_read_only, orb.cartesian_read_only = kro, cro
    return orb


def is_empty(chk, name, orb):
    d = vars(orb)
    want = {"_kep": (6, 0), "_cart": (6, 0), "m": (0,), KC: (0,), CC: (0,)}
    chk.expect(f"{name}/aligned", all(same_dims(d[n].dims, w) for n, w in want.items()), f"{ {n: d[n].dims for n in want} }")
    chk.expect(f"{name}/number", S.to_term(orb.num) is T.iconst(0), f"{orb.num}")


def empty(chk, name, mod, op, mode, typ, dg, shape=None):
    """no effect, no failure, a result without entries"""
    def thunk():
        orb = no_orbits(mod, mode, typ, dg)
        return orb, op(orb)
    for pn, p in run_op(chk, name, thunk):
        orb, r = p.result
        is_empty(chk, pn, orb)
        chk.expect(f"{pn}/settings", bool(orb.degrees) == dg and orb.epoch == "some epoch" and (bool(orb.direct_update), bool(orb.auto_update)) == MODES[mode], "settings changed")
        if shape is not None:
            chk.expect(f"{pn}/result", isinstance(r, S.SymArray) and same_dims(r.dims, shape), f"{r!r} instead of {shape}")


def refused(chk, name, mod, op, exc, mode, typ, dg, kro, cro):
    def thunk():
        orb = no_orbits(mod, mode, typ, dg, kro, cro)
        try:
            op(orb)
        except exc as e:
            return orb, e
        return orb, None
    for pn, p in run_op(chk, name, thunk):
        orb, e = p.result
        chk.expect(f"{pn}/refused", e is not None, f"no {exc.__name__}")
        is_empty(chk, pn, orb)


def grows(chk, name, mod, op, mode, typ, dg, how):
    """orbits added to an instance without any are the only ones"""
    from .orbops import check_new, element_args

    def thunk():
        orb = no_orbits(mod, mode, typ, dg)
        op(orb)
        k = CTX.new_axis("K", minlen=1)
        kw, rep, els = element_args(how, k, "array")
        ms = uf("val_m", k)
        orb.add(num=S.SymInt(k.length), m=S.from_terms([ms.t], (k,)), **kw)
        return orb, k, rep, els, ms
    for pn, p in run_op(chk, name, thunk):
        orb, k, rep, els, ms = p.result
        st = State(orb)
        dim = vars(orb)["m"].dims[0]
        ok = isinstance(dim, Axis) and CTX.solver.valid(p.pc, T.eq(dim.length, k.length))
        chk.expect(f"{pn}/number", ok, f"{dim} instead of {k}")
        if ok:
            at = {k.index: dim.index}
            mv = lambda t: E(T.subst(tm(t), at))
            fs = [T.subst(tm(f), at) for f in facts_of(p)]
            check_new(chk, f"{pn}/new", st, rep, {j: mv(v) for j, v in els.items()}, mv(ms), fs, T.TRUE, mode == "manual")


def setter(n, v):
    return lambda orb: setattr(orb, n, v())


def setters():
    """changes of the elements: (name, representation, operation)"""
    out = []
    for rep, names in (("kep", KN + ANOMALIES + ("period", "mean_motion")), ("cart", CN + ("velocity",))):
        for n in names:
            out.append((f"{n}=scalar", rep, setter(n, lambda n=n: num(V("val_" + n)))))
            out.append((f"{n}=empty", rep, setter(n, empty_array)))
    for n, k in ROWS.items():
        rep = "kep" if n in ("kepler", "equinoctial") else "cart"
        out.append((f"{n}=empty", rep, setter(n, lambda k=k: empty_array(k))))
        if n in ("kepler", "cartesian"):
            out.append((f"{n}=vector", rep, setter(n, lambda k=k: vector(k))))
    out.append(("propagate(scalar)", "kep", lambda orb: orb.propagate(num(V("dt")))))
    out.append(("propagate(empty)", "kep", lambda orb: orb.propagate(empty_array())))
    return out


def updates(mode):
    out = []
    for s, mk in NONE.items():
        for n in KN + CN:
            rep = "kep" if n in KN else "cart"
            out.append((f"update({n},{s})", rep, lambda orb, n=n, mk=mk: orb.update(inds=mk(), **{n: num(V("val_" + n))})))
        for n, rep in (("kepler", "kep"), ("cartesian", "cart")):
            out.append((f"update({n},{s})", rep, lambda orb, n=n, mk=mk: orb.update(inds=mk(), **{n: empty_array(6)})))
        if mode != "direct":      # refused there (C16)
            out.append((f"update(m,a,{s})", "kep", lambda orb, mk=mk: orb.update(inds=mk(), m=num(V("val_m")), a=num(V("val_a")))))
    return out


def reads():
    out = [(n, (0,)) for n in KN + CN + ANOMALIES + DERIVED]
    return out + [(n, (k, 0)) for n, k in ROWS.items()]


def jobs(mod, pid):
    for mode in ("direct", "lazy", "manual"):
        for typ in TYPES:
            for dg in (False, True):
                tag = f"no orbits/{mode}[{typ},{'deg' if dg else 'rad'}]"
                if pid == ("C14" if mode == "direct" else "C15"):
                    for n, _, op in setters() + updates(mode):
                        yield (empty, f"{tag}/{n}", mod, op, mode, typ, dg)
                    for n, sh in reads():
                        if n in READABLE:
                            yield (empty, f"{tag}/read.{n}", mod, lambda orb, n=n: getattr(orb, n), mode, typ, dg, sh)
                    for which in ("cartesian", "kepler"):
                        for s, mk in NONE.items():
                            yield (empty, f"{tag}/calculate_{which}({s})", mod,
                                   lambda orb, w=which, mk=mk: getattr(orb, "calculate_" + w)(mk()), mode, typ, dg)
                if pid == "C16":
                    for n, rep, op in setters() + updates(mode):
                        yield (refused, f"{tag}/read-only/{n}", mod, op, AttributeError, mode, typ, dg, rep == "kep", rep == "cart")
                if pid == "C18":
                    for s, mk in NONE.items():
                        yield (empty, f"{tag}/delete({s})", mod, lambda orb, mk=mk: orb.delete(mk()), mode, typ, dg)
                    yield (empty, f"{tag}/allocate(0)", mod, lambda orb: orb.allocate(0), mode, typ, dg)
                    yield (empty, f"{tag}/add(0)", mod, lambda orb: orb.add(num=0), mode, typ, dg)
                    for how in ("kep", "cart", "kepler", "cartesian", "none"):
                        yield (grows, f"{tag}/add(K,{how})", mod, lambda orb: None, mode, typ, dg, how)
                if pid == "C19":
                    for new in TYPES:
                        yield (empty, f"{tag}/type={new}", mod, setter("type", lambda new=new: new), mode, typ, dg)
                    for n in ANOMALIES:
                        yield (empty, f"{tag}/read.{n}", mod, lambda orb, n=n: getattr(orb, n), mode, typ, dg, (0,))
                if pid == "C21":
                    for n, sh in reads():
                        if n not in READABLE:
                            yield (empty, f"{tag}/read.{n}", mod, lambda orb, n=n: getattr(orb, n), mode, typ, dg, sh)


READABLE = KN + CN + ("r", "v", "kepler", "cartesian")

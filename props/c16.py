"""read-only orbits and rejected changes"""
from .orbops import *
from . import zero
from dv.symstr import Other, SymStr, words
from .c19 import SPELL

SHARDS = 7


def run(chk):
    mod = setup(chk)
    chk.under_contract(mod, *METHODS)
    for job in chk.mine(list(jobs(mod)) + list(zero.jobs(mod, "C16"))):
        chk.guard(job[1], job[0], chk, *job[1:])


def set_type(new):
    def op(orb, ax):
        orb.type = new
        return Change("kep", lambda kep, cart, st: {})
    return op


def unknown_type(word):
    def op(orb, ax):
        orb.type = word if isinstance(word, Other) else SymStr(SPELL, word)
    return op


def mixed(kn, cn, sel, m=False):
    def op(orb, ax):
        s, _, sax = selection(sel, ax)
        kw = {} if sel == "all" else {"inds": s}
        if m:
            kw["m"] = num(V("val_m"))
        orb.update(**{kn: num(V("val_k")), cn: num(V("val_c"))}, **kw)
    return op


def with_mass(names, sel):
    def op(orb, ax):
        s, _, sax = selection(sel, ax)
        kw = {} if sel == "all" else {"inds": s}
        orb.update(m=num(V("val_m")), **{n: num(V("val_" + n)) for n in names}, **kw)
    return op


def jobs(mod):
    ops = {**basic(), **derived()}
    ups = updates()
    unknown = words(SPELL, dict.fromkeys(TYPES), mod._dv_loader.sources["pyorb.orbit"][1])[1]
    kep_words = KN + ("kepler", "anomaly", "period", "mean_motion", "equinoctial", "propagate")

    def is_kep(name):
        head = name.split("=")[0].split("(")[0]
        if head == "update":
            arg = name.split("(", 1)[1]
            return arg.startswith("kep block") or arg.startswith("all six of a") or arg.split("=")[0].split(",")[0] in KN
        return head in KN or any(head.endswith(w) for w in kep_words[6:])
    for mode in ("direct", "lazy", "manual"):
        for typ, dg in (("true", False), ("mean", True), ("eccentric", False)):
            main = typ == "mean"
            tag = f"{mode}[{typ},{'deg' if dg else 'rad'}]"
            for name, op in {**ops, **ups}.items():
                if not main and name in ups and "block" not in name and "all six" not in name:
                    continue
                kep = is_kep(name)
                yield (check_rejected, f"{tag}/read-only/{name}", mod, op, AttributeError, mode, typ, dg, kep, not kep)
                if main:
                    yield (check_rejected, f"{tag}/both-read-only/{name}", mod, op, AttributeError, mode, typ, dg, True, True)
                # the other representation can still be changed
                if (mode != "manual" or name in basic()) and (name in ops or "block" in name or main):
                    yield (check_change, f"{tag}/other-read-only/{name}", mod, op, mode, typ, dg, not kep, kep)
            for new in TYPES:
                if new != typ:
                    yield (check_rejected, f"{tag}/read-only/type={new}", mod, set_type(new), AttributeError, mode, typ, dg, True, False)
            for j, w in enumerate(unknown):
                yield (check_rejected, f"{tag}/type=unknown-{j}", mod, unknown_type(w), ValueError, mode, typ, dg)
            for sel in SELECTIONS:
                pairs = [(k, c) for k in KN for c in CN] if main else [("a", "x"), ("anom", "vz"), ("e", "vy")]
                for kn, cn in pairs:
                    if sel in ("all", "mask") or (kn, cn) == ("e", "vy"):
                        yield (check_rejected, f"{tag}/update({kn},{cn},{sel})", mod, mixed(kn, cn, sel), ValueError, mode, typ, dg)
                yield (check_rejected, f"{tag}/update(a,x,m,{sel})", mod, mixed("a", "x", sel, True), ValueError, mode, typ, dg)
                if mode == "direct":
                    for names in ((), ("a",), ("x",), KN, CN):
                        yield (check_rejected, f"{tag}/update(m,{','.join(names)},{sel})", mod, with_mass(names, sel),
                               ValueError, mode, typ, dg)


METHODS = ["Orbit.update", "Orbit._cart_check", "Orbit._kep_check", "Orbit.calculate_cartesian", "Orbit.calculate_kepler",
           "Orbit.propagate"]

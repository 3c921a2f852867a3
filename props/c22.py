"""units of the gravitational constant"""
import numpy as rnp

from dv import loader, symnp as S
from dv.symstr import LOWER, Canonical, SymStr, words
from .common import *

PLAIN = Canonical(LOWER)
MASS = Canonical(LOWER, ("replace", "_", ""), ("replace", " ", ""), ("replace", "-", ""))
UNITS = {
    "length": (PLAIN, {"m": 1, "cm": C("0.01"), "km": 1000, "au": C("149597870700"), "pc": C("3.08567758149137e16")}),
    "mass": (MASS, {"kg": 1, "g": C("0.001"), "msun": C("1.98847e30"), "msol": C("1.98847e30")}),
    "time": (PLAIN, {"s": 1, "h": 3600, "d": 86400, "y": C("31557600")}),
}
G_SI = C("6.6743e-11")
SYM = {n: V(n) for n in UNITS}
ARGS = ("length", "mass", "time")


def invalid():
    ax = vec(V("q"))
    return [("int", 1), ("bool", True), ("None", None), ("bytes", b"kg"), ("list", ["kg"]), ("tuple", ("kg",)), ("array", ax), ("symbolic-int", S.SymInt(T.sym("n", "I"))),
            ("dict", {"kg": 1}), ("type", str)]


def run(chk):
    L = loader.Loader()
    m = L.load("pyorb.unit")
    m._dv_loader = L
    chk.under_contract(m, "get_G")
    src = L.sources["pyorb.unit"][1]
    chk.assumptions.append("unit names are any strings over Unicode; str.lower and str.replace act character by character (the context rule of "
                           "str.lower for the Greek final sigma cannot produce a unit name)")
    choices = {}
    for n, (canon, table) in UNITS.items():
        known, other = words(canon, table, src)
        choices[n] = ([(f"'{w}'", (lambda w=w, c=canon: SymStr(c, w)), table[w]) for w in known]
                      + [("float", lambda n=n: num(SYM[n]), SYM[n]), ("np.float64", lambda n=n: num(SYM[n], True), SYM[n])])
        choices[n + "?"] = [(f"other-string-{j}", (lambda w=w, c=canon: SymStr(c, w)), None) for j, w in enumerate(other)] + [
            (k, (lambda j=j: invalid()[j][1]), None) for j, (k, _) in enumerate(invalid())]
    facts = [SYM["length"].ne(0)]
    chk.witness("get_G", facts, env(length=2.0, mass=3.0, time=4.0))

    def go(combo):
        nm = "get_G(" + ",".join(c[0] for c in combo) + ")"
        vals = [c[2] for c in combo]
        box = {}

        def thunk():
            box["a"] = [c[1]() for c in combo]
            return m.get_G(*box["a"])
        ps = [p for p in chk.paths(nm, thunk) if not p.ended]
        live = 0
        for j, p in enumerate(ps):
            if isinstance(p.exc, ZeroDivisionError):
                # a length of exactly zero
                chk.prove(f"{nm}/path{j}/only-length-zero", E(T.ZERO).eq(SYM["length"]), clean(p))
                continue
            live += 1
            if any(v is None for v in vals):
                chk.expect(f"{nm}/path{j}/raises-TypeError", isinstance(p.exc, TypeError), repr(p.exc or p.result))
                continue
            if p.exc is not None:
                chk.record(f"{nm}/path{j}/no-exception", False, "symbolic execution", 0, repr(p.exc))
                continue
            l, ms, t = vals
            want = G_SI * (ms * t * t / (l * l * l)) if any(isinstance(v, E) for v in vals) else G_SI * E(T.const(ms * t * t)) / E(T.const(l ** 3))
            chk.prove(f"{nm}/path{j}/post", cell(p.result).eq(want), facts + clean(p))
        chk.expect(f"{nm}/answers", live > 0, "no path")

    import itertools
    for combo in itertools.product(*[choices[n] for n in ARGS]):
        go(combo)
    # an unknown argument in any position, with every kind of others
    for n in ARGS:
        for bad in choices[n + "?"]:
            for rest in itertools.product(*[[bad] if q == n else choices[q][:1] + choices[q][-2:-1] + choices[q + "?"][:1] for q in ARGS]):
                go(rest)
    # keyword arguments
    for perm in itertools.permutations(ARGS):
        nm = f"get_G(keywords {','.join(perm)})"
        p = chk.single(nm, lambda: m.get_G(**{n: num(SYM[n]) for n in perm}))
        if p is not None:
            chk.prove(f"{nm}/post", cell(p.result).eq(G_SI * (SYM["mass"] * SYM["time"] ** 2 / SYM["length"] ** 3)), facts + clean(p))


def clean(p):
    from .c07 import clean as c
    return c(p)

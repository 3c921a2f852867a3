from .common import *
from . import c02
from .c02 import NAMES, behaviours, on_state


def run(chk):
    k = chk.load()
    chk.under_contract(k, "kep_to_cart", "cart_to_kep", "orbit_total_angular_momentum",
                       "orbital_distance", "euler_rotation_matrix")
    chk.assumptions.append("every non-rectilinear state with e != 1 is the two-body state of some elements "
                           "(classical; the states are quantified as images of elements)")
    done = []
    for call in (("arr", "float"), ("arr", "array"), ("vec", "float")):
        nm = f"[{call[0]},mu={call[1]}]"
        r1 = six_call(chk, k.kep_to_cart, "kep_to_cart" + nm, KEP, call)
        r2 = six_call(chk, k.cart_to_kep, "cart_to_kep" + nm, CART, call)
        if r1 is None or r2 is None:
            continue
        to, back = cells6(r1[0]), cells6(r2[0])
        if any(all(x.t is y.t for x, y in zip(to + back, d)) for d in done):
            chk.expect(f"{nm}/same-terms-as-array-call", True)
            continue
        done.append(to + back)
        for bname, reg, el, facts, want, pt in behaviours():
            fs = regime_facts(KEP[0], el["e"], el["nu"], MU, reg) + facts
            chk.witness(f"{nm}/{bname}", fs, env(**pt))
            given = [KEP[0], el["e"], el["i"], el["om"], el["Om"], el["nu"]]
            st = on_map(to, KEP, given)
            # elements -> state -> canonical elements
            el2 = on_map(back, CART, st)
            for j in range(6):
                chk.prove(f"kep-cart-kep{nm}/{bname}/{NAMES[j]}", el2[j].eq(want[j]), fs)
            if bname.startswith("nearly-circular"):
                continue        # e <= 1e-9 is treated as circular: the state returns up to that e only
            # state -> elements -> the same state (elements are those just proved)
            st2 = on_map(to, KEP, want)
            for j in range(6):
                chk.prove(f"cart-kep-cart{nm}/{bname}/{j}", st2[j].eq(st[j]), fs)


def on_map(out, syms, vals):
    m = {c.t: s.t for c, s in zip(syms, vals)}
    memo = {}
    return [E(T.subst(o.t, m, memo)) for o in out]

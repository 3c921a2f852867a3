"""no NaN from rounding"""
import time

import z3

from dv import symnp as S
from dv.rounding import Rounded
from .common import *
from .c07 import clean

NAMES = ("a", "e", "i", "omega", "Omega", "nu")


def premises(R):
    """of the states: position not zero, angular momentum that does not round to zero, mu > 0"""
    x, y, z, vx, vy, vz = [R.real(tm(c)) for c in CART]
    apart = []
    for (p, q), (r, s) in ((("y", "vz"), ("z", "vy")), (("z", "vx"), ("x", "vz")), (("x", "vy"), ("y", "vx"))):
        apart.append(R.real(T.mul(tm(V(p)), tm(V(q)))) != R.real(T.mul(tm(V(r)), tm(V(s)))))
    return [R.real(tm(MU)) > 0, z3.Or(x != 0, y != 0, z != 0), z3.Or(*apart)]


def run(chk):
    k = chk.load()
    chk.under_contract(k, "cart_to_kep")
    chk.assumptions = [a for a in chk.assumptions if "mathematical reals" not in a]
    chk.assumptions += [
        "every operation is rounded in any way that is monotonic, exact on representable results and free of overflow and underflow (a nonzero product or "
        "quotient is not rounded to zero); sqrt(x*x) = |x| (a theorem of radix two arithmetic); operations are performed in the order of the source text",
        "norm is the square root of the sum of the rounded squares, sum adds in order, cross subtracts two products (as numpy does along the first axis)",
        "arccos(1) = 0 and arccos(-1) = pi exactly and results are in [0, pi] (C library); double precision",
        "states: position not zero, products of the angular momentum components differ after rounding (angular momentum not rounded to zero), mu > 0",
    ]
    chk.trusted.append("dv/rounding.py: laws of rounded arithmetic instantiated for every node of the result")
    ran = 0
    for call in (("arr", "float"), ("arr", "array"), ("vec", "float")):
        for dg in (False, True):
            nm0 = f"cart_to_kep[{call[0]},mu={call[1]},{'deg' if dg else 'rad'}]"

            def thunk():
                x = six(CART, call[0])
                return k.cart_to_kep(x, mu=vec(MU, x.dims[1]) if call[1] == "array" else num(MU), degrees=dg)
            ps = [p for p in chk.paths(nm0, thunk) if not p.ended]
            for j, p in enumerate(ps):
                nm = nm0 if len(ps) == 1 else f"{nm0}/path{j}"
                if p.exc is not None:
                    chk.record(f"{nm}/no-exception", False, "symbolic execution", 0, repr(p.exc))
                    continue
                ran += 1
                out = cells6(p.result)
                R = Rounded()
                cells = [(n, o, R.not_nan(tm(o))) for n, o in zip(NAMES, out)]
                pre = premises(R) + [R(f)[0] for f in clean(p)]
                # the premises can be met
                s = z3.Solver()
                s.add(*R.axioms)
                s.add(*pre)
                # each partial operation stays inside its domain whenever the result depends on it
                for n, o, goal in cells:
                    t0 = time.time()
                    ok, why = R.valid(pre, goal)
                    if not ok:
                        why += "; " + blame(R, pre, tm(o))
                    chk.record(f"{nm}/not-nan/{n}", ok, "z3 (rounded arithmetic)", time.time() - t0, why)
                t0 = time.time()
                chk.record(f"{nm}/laws-consistent", str(s.check()) != "unsat", "z3 (rounded arithmetic)", time.time() - t0, "the laws contradict each other")
    chk.expect("answers", ran > 0, "no path")


def blame(R, pre, out):
    """the operations that can leave their domain"""
    bad = []
    inside = set(T.subterms([out]))
    for t, ok, d in R.partial:
        if t in inside and t.op in ("arccos", "sqrt", "arcsin", "arctanh"):
            good, _ = R.valid(pre, z3.Implies(d, ok), 2000)
            if not good:
                bad.append(f"{t.op} of {T.pretty(t.args[0], 4)}")
    return "can leave the domain (where it is used): " + "; ".join(bad[:4])

"""equivalence of element vectors"""
from dv import symnp as S
from .common import *
from .c07 import clean
from .c27 import attempt

NAMES = ("a", "e", "i", "om", "Om", "nu")
K1 = dict(zip(NAMES, Vs("a1 e1 i1 om1 Om1 nu1")))
K2 = dict(zip(NAMES, Vs("a2 e2 i2 om2 Om2 nu2")))
POINT12 = dict(a1=2.0, e1=0.3, i1=0.7, om1=1.1, Om1=2.2, nu1=0.9, a2=2.0, e2=0.3, i2=0.7, om2=1.1, Om2=2.2, nu2=0.9)
ATOL, RTOL = C("1e-8"), C("1e-5")


def domain(k, tag):
    """elements: e and i not negative, i at most pi"""
    return [k["e"] >= 0, k["i"] >= 0, k["i"] <= PI]


def elements(k, dtype="float64"):
    return six([k[n] for n in NAMES], "vec", dtype)


def outcomes(chk, nm, mod, k1, k2, hook=None, pre=()):
    """(verdict, facts) of every path"""
    def thunk():
        CTX.isclose_hook = hook
        for f in pre:
            CTX.pc.append(tm(f))
        try:
            x, y = elements(k1), elements(k2)
            before = list(x.cells.flat) + list(y.cells.flat)
            r = mod.kep_equivalent(x, y)
            changed = any(a is not b for a, b in zip(before, list(x.cells.flat) + list(y.cells.flat)))
            if isinstance(r, S.SymBool):
                r = bool(r)
            return r, changed
        finally:
            CTX.isclose_hook = None
    out = []
    for j, p in enumerate(q for q in chk.paths(nm, thunk) if not q.ended):
        if p.exc is not None:
            chk.record(f"{nm}/path{j}/no-exception", False, "symbolic execution", 0, repr(p.exc))
            continue
        r, changed = p.result
        if isinstance(r, S.SymArray) and not r.dims:
            r = r.item()
        ok = chk.expect(f"{nm}/path{j}/verdict", r is True or r is False or type(r).__name__ in ("bool_", "bool"), f"{r!r}")
        chk.expect(f"{nm}/path{j}/inputs-unchanged", not changed, "an input was changed")
        if ok:
            out.append((bool(r), list(p.pc)))
    chk.expect(f"{nm}/answers", bool(out), "no path")
    return out


def tol(x, y):
    """largest difference of numbers that compare as close in either order"""
    m = ite(absv(x) >= absv(y), absv(x), absv(y))
    return ATOL + RTOL * m


def near(*pairs):
    """sums of close numbers"""
    d, t = C(0), C(0)
    for x, y in pairs:
        d = d + (x - y)
        t = t + tol(x, y)
    return absv(d) <= t


def sums_near(*pairs):
    """the sums differ by no more than numbers of the size of the sums, or their terms, may differ"""
    d, t = C(0), C(0)
    for x, y in pairs:
        d = d + (x - y)
        t = t + tol(x, y)
    return absv(d) <= t


def exact(x, y):
    return T.eq(x, y)


def equal_state_relation(k1, k2, circular, planar):
    """when two sets of elements describe the same state"""
    r = [k1["a"].eq(k2["a"]), k1["e"].eq(k2["e"]), k1["i"].eq(k2["i"])]
    groups = [["Om"], ["om"], ["nu"]]
    if circular and planar:
        groups = [["Om", "om", "nu"]]
    elif circular:
        groups = [["Om"], ["om", "nu"]]
    elif planar:
        groups = [["Om", "om"], ["nu"]]
    for g in groups:
        s1, s2 = k1[g[0]], k2[g[0]]
        for n in g[1:]:
            s1, s2 = s1 + k1[n], s2 + k2[n]
        r.append(s1.eq(s2))
    return r


def split_relation(k1, k2, circular, planar):
    return equal_state_relation(k1, k2, circular, planar)


def regimes(k):
    """(name, condition, circular, planar): the limits of the module, stated in the contract"""
    circ, plan = k["e"] < E_LIM, k["i"] <= I_LIM
    return [("generic", [not_(circ), not_(plan)], False, False), ("circular", [circ, not_(plan)], True, False),
            ("planar", [not_(circ), plan], False, True), ("circular planar", [circ, plan], True, True)]


def run(chk):
    m = chk.load()
    chk.under_contract(m, "kep_equivalent")
    chk.assumptions += ["elements are real numbers with e >= 0 and 0 <= i <= pi, no NaN",
                        "np.isclose(x, y) means |x - y| <= 1e-8 + 1e-5 |y|; in the exactness and symmetry obligations it is "
                        "replaced by equality and by an arbitrary symmetric reflexive relation",
                        "the state of a set of elements is the two-body solution that kep_to_cart is proved to return in C01"]
    dom1, dom2 = domain(K1, "1"), domain(K2, "2")
    chk.witness("pairs", dom1 + dom2, env(**POINT12))
    # ------------------------------------------------------------ identical elements
    for v, fs in outcomes(chk, "identical", m, K1, K1, pre=dom1):
        chk.expect("identical/accepted", v, f"refused on {[T.pretty(f, 5) for f in fs[-4:]]}")
    # ------------------------------------------------------------ the same total angle split in another way
    for name, cond, circ, plan in regimes(K1):
        k2 = dict(K1)
        groups = {(True, True): ("Om", "om", "nu"), (True, False): ("om", "nu"), (False, True): ("Om", "om"), (False, False): ()}[circ, plan]
        if not groups:
            continue
        d = V("d"), V("d2")
        k2[groups[0]] = K1[groups[0]] + d[0]
        k2[groups[1]] = K1[groups[1]] - d[0]
        if len(groups) == 3:
            k2[groups[1]] = k2[groups[1]] + d[1]
            k2[groups[2]] = K1[groups[2]] - d[1]
        pre = dom1 + cond
        chk.witness(f"split/{name}", pre, env(**dict(POINT12, e1=0.0 if circ else 0.3, i1=0.0 if plan else 0.7)))
        for order in ("", "swapped "):
            x, y = (K1, k2) if not order else (k2, K1)
            for j, (v, fs) in enumerate(outcomes(chk, f"split/{order}{name}", m, x, y, pre=pre)):
                if not v:
                    chk.prove(f"split/{order}{name}/path{j}/accepted", T.FALSE, fs, backend="z3")
                else:
                    chk.expect(f"split/{order}{name}/path{j}/accepted", True)
    # ------------------------------------------------------------ accepted: the same state, up to the tolerance
    for j, (v, fs) in enumerate(outcomes(chk, "accepted", m, K1, K2, pre=dom1 + dom2)):
        if not v:
            continue
        chk.prove(f"accepted/path{j}/same size", near((K1["a"], K2["a"])), fs, backend="z3")
        chk.prove(f"accepted/path{j}/same shape", near((K1["e"], K2["e"])), fs, backend="z3")
        plan = and_(K1["i"] <= I_LIM, K2["i"] <= I_LIM)
        circ = and_(K1["e"] < E_LIM, K2["e"] < E_LIM)
        chk.prove(f"accepted/path{j}/same inclination", near((K1["i"], K2["i"])), fs, backend="z3")
        P = {n: (K1[n], K2[n]) for n in NAMES}
        chk.prove(f"accepted/path{j}/same node", or_(plan, near(P["Om"])), fs, backend="z3")
        chk.prove(f"accepted/path{j}/same periapsis", or_(circ, plan, near(P["om"])), fs, backend="z3")
        chk.prove(f"accepted/path{j}/same anomaly", or_(circ, near(P["nu"])), fs, backend="z3")
        chk.prove(f"accepted/path{j}/same longitude of periapsis", or_(circ, not_(plan), sums_near(P["Om"], P["om"])), fs, backend="z3")
        chk.prove(f"accepted/path{j}/same argument of latitude", or_(not_(circ), plan, sums_near(P["om"], P["nu"])), fs, backend="z3")
        chk.prove(f"accepted/path{j}/same longitude", or_(not_(circ), not_(plan), sums_near(P["Om"], P["om"], P["nu"])), fs, backend="z3")
    # ------------------------------------------------------------ with exact comparisons: the same state
    seen = set()
    sharp = [or_(k[n].eq(0), k[n] >= l if n == "e" else k[n] > l) for k in (K1, K2) for n, l in (("e", E_LIM), ("i", I_LIM))]
    for j, (v, fs) in enumerate(outcomes(chk, "exact", m, K1, K2, hook=exact, pre=dom1 + dom2 + sharp)):
        if not v:
            continue
        for name, cond, circ, plan in regimes(K1):
            if not feasible(fs + [tm(c) for c in cond]):
                continue
            seen.add(name)
            for n, g in enumerate(equal_state_relation(K1, K2, circ, plan)):
                chk.prove(f"exact/path{j}/{name}/relation{n}", g, fs + [tm(c) for c in cond], backend="z3")
    chk.expect("exact/regimes", len(seen) == 4, f"only {seen}")
    # what the relations mean: the same position and velocity
    for name, _, circ, plan in regimes(K1):
        for reg in ("ell",) if circ else ("ell", "hyp", "par"):
            k1 = dict(K1)
            if circ:
                k1["e"] = C(0)
            if plan:
                k1["i"] = C(0)
            k2 = dict(k1)
            # other angles with the same sums
            d, d2 = V("d"), V("d2")
            if circ and plan:
                k2["Om"], k2["om"], k2["nu"] = k1["Om"] + d, k1["om"] - d + d2, k1["nu"] - d2
            elif circ:
                k2["om"], k2["nu"] = k1["om"] + d, k1["nu"] - d
            elif plan:
                k2["Om"], k2["om"] = k1["Om"] + d, k1["om"] - d
            s1 = two_body(*[k1[n] for n in NAMES], MU, reg)
            s2 = two_body(*[k2[n] for n in NAMES], MU, reg)
            fs = regime_facts(k1["a"], k1["e"], k1["nu"], MU, reg)
            for n, (x, y) in enumerate(zip(s1, s2)):
                chk.prove(f"lemma/{name}/{reg}/{'x y z vx vy vz'.split()[n]}", x.eq(y), fs)
    # ------------------------------------------------------------ the order of the arguments
    def symmetric(x, y):
        c = T.le(x, y)
        return T.or_(T.eq(x, y), T.uf("near", (T.ite(c, x, y), T.ite(c, y, x)), "B"))
    a = outcomes(chk, "order", m, K1, K2, hook=symmetric, pre=dom1 + dom2)
    b = outcomes(chk, "swapped", m, K2, K1, hook=symmetric, pre=dom1 + dom2)
    for j, (v, fs) in enumerate(a):
        for k, (w, gs) in enumerate(b):
            if v != w:
                chk.prove(f"order/{j},{k}/same verdict", T.FALSE, fs + gs, backend="z3")
    # ------------------------------------------------------------ several orbits at once
    for first in ("vec", "arr", "one"):
        for second in ("vec", "arr", "one"):
            if first == second == "vec":
                continue

            def thunk():
                ax = CTX.new_axis("N")

                def mk(kind, k):
                    if kind == "one":
                        return of_caller(S.from_terms([tm(k[n]) for n in NAMES], (6, 1)))
                    return six([k[n] for n in NAMES], kind, axis=ax)
                return attempt(lambda: m.kep_equivalent(mk(first, K1), mk(second, K2)))
            for j, p in enumerate(q for q in chk.paths(f"arrays[{first},{second}]", thunk) if not q.ended):
                e = p.exc or p.result[0]
                chk.expect(f"arrays[{first},{second}]/path{j}/ValueError", isinstance(e, ValueError), f"{e!r} {p.result!r}")


def feasible(fs):
    from dv import smt
    return smt.SOLVER.feasible([tm(f) for f in fs])

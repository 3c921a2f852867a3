"""equinoctial elements"""
import itertools

from dv import alg, nf
from .common import *
from .c07 import DEG, ROWS, clean, equal
from .stubs import columnwise, deg_t, rad_t

EQUI = ROWS["equi"]
EN = ("a", "h", "k", "p", "q", "lam")
KN = ("a", "e", "i", "om", "Om", "nu")


def definition(a, e, i, om, Om, nu):
    return [a, e * sin(om + Om), e * cos(om + Om), sin(i / 2) / cos(i / 2) * sin(Om), sin(i / 2) / cos(i / 2) * cos(Om),
            mod(om + Om + nu, TWO_PI)]


def ang(x):
    return [x >= 0, x < TWO_PI]


# elements, facts, what comes back
def behaviours():
    a, e, i, om, Om, nu = KEP
    base = [e >= 0, cos(i / 2) > 0, i >= 0, i < PI]
    pt = dict(a=2.0, e=0.3, i=0.7, om=1.1, Om=2.2, nu=0.9)
    w, u = V("w"), V("u")
    # e = 0 and i = 0: angles that do not exist drop out
    return [
        ("eccentric/inclined", [a, e, i, om, Om, nu], base + [e > E_LIM, i > 0] + ang(om) + ang(Om) + ang(nu),
         [a, e, i, om, Om, nu], pt),
        ("eccentric/planar", [a, e, C(0), w - Om, Om, nu], [e > E_LIM] + ang(w) + ang(nu), [a, e, C(0), w, C(0), nu],
         dict(pt, w=1.0)),
        ("circular/inclined", [a, C(0), i, u - nu, Om, nu], base[1:] + [i > 0] + ang(Om) + ang(u), [a, C(0), i, C(0), Om, u],
         dict(pt, u=1.0)),
        ("circular/planar", [a, C(0), C(0), u - nu - Om, Om, nu], ang(u), [a, C(0), C(0), C(0), C(0), u],
         dict(pt, u=1.0)),
        ("nearly-circular/inclined", [a, e, i, u - nu, Om, nu], base + [e > 0, e <= E_LIM, i > 0] + ang(Om) + ang(u),
         [a, e, i, C(0), Om, u], dict(pt, u=1.0, e=0.5e-9)),
        ("nearly-circular/planar", [a, e, C(0), u - nu - Om, Om, nu], [e > 0, e <= E_LIM] + ang(u),
         [a, e, C(0), C(0), C(0), u], dict(pt, u=1.0, e=0.5e-9)),
    ]


def substituted(out, cols, vals):
    m = {c.t: tm(s) for c, s in zip(cols, vals)}
    memo = {}
    return [E(T.subst(o.t, m, memo)) for o in out]


_ghost = itertools.count()


def settle(t, facts, angles=()):
    """decide the conditions of t under facts, and replace each arctan2 by the one of
    `angles` it is, up to a whole number of revolutions"""
    t = tm(t)
    facts = [tm(f) for f in facts]
    while True:
        todo = [x for x in T.subterms([t]) if x.op == "ite" and not any(y.op == "ite" for y in T.subterms([x.args[0]]))]
        for x in todo:
            c = x.args[0]
            v = T.TRUE if alg.prove(c, facts, timeout=10).ok else T.FALSE if alg.prove(T.not_(c), facts, timeout=10).ok else None
            if v is not None:
                t = T.subst(t, {c: v})
                break
        else:
            break
    m = {}
    for x in T.subterms([t]):
        if x.op == "arctan2":
            for w in angles:
                if alg.prove(same_angle(E(x), w), facts, timeout=10).ok:
                    n = E(T.to_real(T.sym(f"rev{next(_ghost)}", "I")))
                    m[x] = tm(w + 2 * PI * n)
                    break
    return E(T.subst(t, m)) if m else E(t)


def prove_angle(chk, name, x, want, facts, angles):
    """x == want, where want is in [0, 2 pi)"""
    x = settle(x, facts, angles)
    chk.expect(f"{name}/same-angle", nf.equal(x.t, tm(mod(want, TWO_PI)), facts),
               f"{T.pretty(nf.nterm(x.t), 9)} is not {T.pretty(tm(want), 9)} mod 2 pi")
    chk.prove(f"{name}/canonical", mod(want, TWO_PI).eq(want), facts)


def run(chk):
    k = chk.load()
    chk.under_contract(k, "kep_to_equi", "equi_to_kep", "cart_to_equi", "equi_to_cart")
    chk.assumptions.append("an inclination of exactly pi has no equinoctial elements (p and q are infinite) and is excluded")
    a, e, i, om, Om, nu = KEP
    seen = {}
    for kind in ("arr", "vec"):
        for dg in (False, True):
            for fname, cols, w in (("kep_to_equi", KEP, DEG["kep"]), ("equi_to_kep", EQUI, DEG["equi"])):
                nm = f"{fname}[{kind},{'deg' if dg else 'rad'}]"
                inp = [deg(c) if dg and j in w else c for j, c in enumerate(cols)]
                p = chk.single(nm, lambda: getattr(k, fname)(six(inp, kind), degrees=dg))
                if p is None:
                    return
                out = cells6(p.result)
                chk.expect(f"{nm}/shape", p.result.ndim == (2 if kind == "arr" else 1), repr(p.result))
                ow = DEG["equi" if fname == "kep_to_equi" else "kep"]
                first = seen.setdefault(fname, out)
                if first is out:
                    continue
                for j in range(6):
                    equal(chk, f"{nm}/post.{(EN if fname == 'kep_to_equi' else KN)[j]}/as-array-in-radians",
                          out[j], deg(first[j]) if dg and j in ow else first[j], [])
    to, back = seen["kep_to_equi"], seen["equi_to_kep"]
    fs = [cos(i / 2).ne(0)]
    chk.witness("kep_to_equi", fs, env(i=0.4))
    for j, want in enumerate(definition(*KEP)):
        if j == 5:
            equal(chk, f"kep_to_equi/post.{EN[j]}", to[j], want, fs)
        else:
            chk.prove(f"kep_to_equi/post.{EN[j]}", to[j].eq(want), fs)
    chk.prove("kep_to_equi/post.lam/range", wrapped(to[5]), [])
    for b, els, facts, want, pt in behaviours():
        chk.witness(f"equi_to_kep/{b}", facts, env(**pt))
        o = substituted(back, EQUI, definition(*els))
        comp = substituted(back, EQUI, substituted(to, KEP, els))
        angles = [els[3] + els[4], els[4]]
        for f, o in (("equi_to_kep", o), ("equi_to_kep(kep_to_equi)", comp)):
            for j in range(6):
                if j >= 3 and not tm(want[j]) is T.ZERO:
                    prove_angle(chk, f"{f}/{b}/post.{KN[j]}", o[j], want[j], facts, angles)
                else:
                    chk.prove(f"{f}/{b}/post.{KN[j]}", o[j].eq(want[j]), facts)
    # the other direction
    h, kk, p, q, lam = EQUI[1:]
    comp = substituted(to, KEP, back)
    for b, fs in (("eccentric", [h * h + kk * kk > E_LIM * E_LIM] + ang(lam)),
                  ("circular", [h.eq(0), kk.eq(0)] + ang(lam))):
        chk.witness(f"kep_to_equi(equi_to_kep)/{b}", fs, env(h=0.1 if b == "eccentric" else 0.0, k=0.2 if b == "eccentric" else 0.0, p=0.3, q=0.4, lam=1.0))
        for j in range(6):
            x = settle(comp[j], fs)
            if j == 5:
                prove_angle(chk, f"kep_to_equi(equi_to_kep)/{b}/post.{EN[j]}", x, EQUI[j], fs, [])
            else:
                chk.prove(f"kep_to_equi(equi_to_kep)/{b}/post.{EN[j]}", E(nf.nterm(x.t)).eq(EQUI[j]), fs)
    compositions(chk, k)


def compositions(chk, real):
    """cart_to_equi and equi_to_cart go through Keplerian elements with the mean anomaly"""
    chk.assumptions.append("cart_to_equi(equi_to_cart(q)) = q and equi_to_cart(cart_to_equi(x)) = x follow from the obligations "
                           "below, the round trips of C03 and C05 and the inverse laws proved here (mean_to_true up to the "
                           "solver tolerance)")
    a, e, i, om, Om, nu = KEP
    TM, TT = (lambda x, y: E(T.uf("TM", (tm(x), tm(y))))), (lambda x, y: E(T.uf("TT", (tm(x), tm(y)))))
    log = []

    def six_of(name, cols, out_angles):
        def f(x, mu=None, degrees=False, **kw):
            if kw:
                raise TypeError(f"unexpected keyword arguments {sorted(kw)}")
            log.append((name, x, mu, bool(degrees)))
            rows = []
            for j, c in enumerate(cols):
                rows.append(S.asarray(columnwise(lambda _, c=c, j=j: tm(deg(c) if degrees and j in out_angles else c), x[j])))
            return S.stack(rows, axis=0)
        return f

    def anomaly(name, f):
        def g(x, ecc, solver_options=None, degrees=False):
            log.append((name, solver_options, bool(degrees)))
            return columnwise(lambda x, ecc: tm(deg(f(rad(E(x)), E(ecc)))) if degrees else tm(f(E(x), E(ecc))), x, ecc)
        return g
    opts = {"tol": 1e-7}
    stubs = {"cart_to_kep": six_of("cart_to_kep", KEP, DEG["kep"]), "kep_to_equi": six_of("kep_to_equi", EQUI, DEG["equi"]),
             "equi_to_kep": six_of("equi_to_kep", KEP, DEG["kep"]), "kep_to_cart": six_of("kep_to_cart", CART, ()),
             "true_to_mean": anomaly("true_to_mean", TM), "mean_to_true": anomaly("mean_to_true", TT)}
    k = chk.load(stubs={"pyorb.kepler": stubs})
    facts = [e >= 0, e < 1]
    for fname, cols, first, last, an, fn in (("cart_to_equi", CART, "cart_to_kep", "kep_to_equi", "true_to_mean", TM),
                                             ("equi_to_cart", EQUI, "equi_to_kep", "kep_to_cart", "mean_to_true", TT)):
        res = EQUI if last == "kep_to_equi" else CART
        for kind, muk in CALLS:
            for dg in (False, True):
                nm = f"{fname}[{kind},mu={muk},{'deg' if dg else 'rad'}]"

                def thunk():
                    del log[:]
                    x = six(cols, kind)
                    mu = vec(MU, x.dims[1]) if muk == "array" else num(MU, muk == "np64")
                    kw = {"solver_options": opts} if fname == "equi_to_cart" else {}
                    r = getattr(k, fname)(x, mu=mu, degrees=dg, **kw)
                    return x, mu, r, list(log)
                ps = [p for p in chk.paths(nm, thunk) if not p.ended]
                for n, p in enumerate(ps):
                    pn = f"{nm}/path{n}"
                    if p.exc is not None:
                        chk.record(f"{pn}/no-exception", False, "symbolic execution", 0, repr(p.exc))
                        continue
                    x, mu, r, calls = p.result
                    named = {}
                    for c in calls:
                        named.setdefault(c[0], []).append(c)
                    ok = len(named.get(first, [])) == 1 and len(named.get(last, [])) == 1 and set(named) <= {first, last, an}
                    chk.expect(f"{pn}/calls", ok, f"calls {[c[0] for c in calls]}")
                    if not ok:
                        continue
                    c1, c2 = named[first][0], named[last][0]
                    pc = clean(p) + facts
                    for j, (got, want) in enumerate(zip(cells6(c1[1]), cols)):
                        # the conversion may be asked for in either unit
                        w = rad(want) if dg and not c1[3] and j in DEG["equi" if cols is EQUI else "cart"] else want
                        equal(chk, f"{pn}/{first}-argument/{j}", got, w, pc)
                    unit = (lambda t, j: deg(t) if c2[3] and j in DEG["kep"] else t)
                    want = [a, e, i, om, Om, ite(e > E_LIM, fn(nu, e), nu)]
                    for j, got in enumerate(cells6(c2[1])):
                        equal(chk, f"{pn}/{last}-argument/{KN[j]}", got, unit(want[j], j), pc)
                    for c, n2 in ((c1, first), (c2, last)):
                        if n2 in ("cart_to_kep", "kep_to_cart"):
                            got = c[2]
                            same = got is mu or (got is not None and cell(got).t is MU.t)
                            chk.expect(f"{pn}/{n2}-mu", same, f"mu = {got!r}")
                    if fname == "equi_to_cart":
                        chk.expect(f"{pn}/solver-options", all(c[1] is opts or c[1] == opts for c in named.get(an, [])), "options not passed on")
                    out_deg = dg == c2[3] or last == "kep_to_cart"
                    for j, got in enumerate(cells6(r)):
                        w = res[j]
                        if last == "kep_to_equi" and dg and j in DEG["equi"]:
                            w = deg(w)
                        equal(chk, f"{pn}/result/{j}", got, w, pc)
    # default options
    def thunk():
        del log[:]
        k.equi_to_cart(six(EQUI, "arr"), mu=num(MU))
        return list(log)
    p = chk.single("equi_to_cart/default-options", thunk)
    if p is not None:
        chk.expect("equi_to_cart/default-options/none", all(c[1] is None or c[1] == {} for c in p.result if c[0] == "mean_to_true"), repr(p.result))

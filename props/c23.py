"""conversion of declared angles by the angle_units wrapper"""
import itertools

from dv import explore, loader, smt, symnp as S, symseq as Q
from dv.ctx import Unsupported
from .common import *
from .c07 import clean




class Func:
    """any function: records what it is given, returns what it is told"""

    def __init__(self, ret):
        self.ret = ret
        self.calls = []

    def __call__(self, *args, **kwargs):
        self.calls.append((args, dict(kwargs)))
        return self.ret


class Opaque:
    """an argument that must not be looked at"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"<object {self.n}>"

    def __array__(self, *a, **k):
        raise TypeError("converted")


def angle(kind, name):
    v = V(name)
    if kind == "array":
        return vec(v, None, name="n_" + name)
    if kind == "2d":
        return S.from_terms([v.t, (v + 1).t, (v + 2).t], (3, CTX.new_axis("n2_" + name)), S.F64)
    if kind == "int":
        return S.SymInt(T.sym(name + "_int", "I"))
    return num(v, kind == "np64")


MANY = tuple(f"k{j}" for j in range(9))
KINDS = ("float", "np64", "array", "2d", "int")


def terms_of(x):
    if isinstance(x, S.SymArray):
        return [E(T.to_real(t)) for t in x.cells.reshape(-1)]
    if isinstance(x, S.Scalar):
        return [E(T.to_real(x.term))]
    raise TypeError(f"{x!r}")


def subsets(n):
    return [list(c) for k in range(n + 1) for c in itertools.combinations(range(n), k)]


def configs(tier, refused):
    """declared positions, declared keywords, declared results"""
    npos = 3 if tier == "quick" else 4
    nret = 3
    pos = [None] + subsets(npos)[0:] + [(0, 1), [1, 0], [-1]]
    keys = [None, [], ["th"], ["th", "ph"], ("ph",)]
    outs = [None, True] + [s for s in subsets(nret)] + [(0, 2), [-1]]
    for p in pos:
        for k in keys:
            yield npos, nret, p, k, None
    for o in outs:
        yield npos, nret, [1], ["th"], o
        yield npos, nret, None, None, o
    if refused:
        every = list(range(9))
        for p in (every, every[::-1], every[1::2], [-1, -9, 4]):
            yield 9, 9, p, list(MANY), None
            yield 9, 9, p, list(MANY)[::-1], p


def run(chk):
    L = loader.Loader()
    m = L.load("pyorb.unit")
    m._dv_loader = L
    chk.under_contract(m, "angle_units")
    chk.assumptions.append("angle_units: any wrapped function (an opaque callable), any argument values; a declaration names each position, keyword and result "
                           "once, positions exist, and no declared keyword is called degrees")
    refused = chk.guard("angle_units", general, chk, m)
    if refused:
        chk.bounded.append("declarations of angle_units: arity up to 3 (thorough 4) and exactly 9; values unbounded. The proof for declarations of any "
                           f"length does not cover this form of the code: {refused}")
    kinds = itertools.cycle(KINDS)
    befores = itertools.cycle((None, False, None, True, None, None, True))
    for npos, nret, p, k, o in configs(chk.tier, refused):
        for default in (False, True, None):
            for passed in (None, False, True):
                for present in (("th", "ph", "other"), ("other",), ()) if npos < 9 else (MANY + ("other",),):
                    if (k is None) != (present != ("th", "ph", "other")) and present == ():
                        continue
                    for retkind in (["none", "single", "tuple", "list"] if o is not None else ["tuple", "none"]):
                        if retkind == "single" and o is not True and o is not None:
                            continue
                        if o is True and retkind in ("tuple", "list"):
                            continue
                        one(chk, m, npos, nret, p, k, o, default, passed, present, retkind, kinds, next(befores))


def general(chk, m):
    """declarations of any length: every position, keyword and result is the generic one of its family"""
    before = itertools.cycle((None, False, None, True, None))
    for kind in KINDS:
        for outs in ("none", "single", "several"):
            for default in (False, True, None):
                for passed in (None, False, True):
                    for pos in (False, True):
                        for keys in (False, True):
                            for nothing in (False, True):
                                if outs == "none" and nothing or kind != "float" and (nothing or not (pos and keys)):
                                    continue
                                r = any_length(chk, m, kind, pos, keys, outs, default, passed, nothing, next(before))
                                if r:
                                    return r
    return None


def any_length(chk, m, kind, pos, keys, outs, default, passed, nothing, before):
    on = bool(passed if passed is not None else default)
    nm = f"angle_units({'positions' if pos else None},{'keywords' if keys else None},{outs},{default})/degrees={passed}," \
         f"{kind}{',returns None' if nothing else ''}"

    def thunk():
        ap, ak, ar = CTX.new_axis("args"), CTX.new_axis("keywords"), CTX.new_axis("results")
        dp, dr = T.sym("declared_position", "B"), T.sym("declared_result", "B")
        here = T.sym("keyword_present", "B")
        a, k, r, single = (angle(kind, n) for n in ("arg", "kw", "res", "only"))
        other = Opaque("other")
        P = Q.Positions(ap, dp, T.sym("from_the_end", "B")) if pos else None
        K = Q.Names(ak) if keys else None
        O = {"none": None, "single": True, "several": Q.Positions(ar, dr, T.sym("result_from_the_end", "B"))}[outs]
        ret = None if nothing else single if outs == "single" else (Q.Spread(ar, r),)
        f = Func(ret)
        objs = [a, k, r, single]
        old = [list(x.cells.flat) if isinstance(x, S.SymArray) else x for x in objs]
        g = (m.angle_units(P, K, O) if default is None else m.angle_units(P, K, O, degrees=default))(f)
        extra = {} if passed is None else {"degrees": passed}
        fam = Q.Key("*")
        if before is not None:      # an earlier call makes no difference
            g(Q.Spread(ap, a), other=other, **{fam: Q.Spread(ak, (here, k))}, degrees=before)
            f.calls.clear()
        out = g(Q.Spread(ap, a), other=other, **{fam: Q.Spread(ak, (here, k))}, **extra)
        same = all(x is y if not isinstance(y, list) else [t.id for t in x.cells.flat] == [t.id for t in y] for x, y in zip(objs, old))
        return dp, dr, here, a, k, r, single, other, ret, f, out, same, (ap, ak, ar), fam
    try:
        ps = explore.explore(thunk)
    except (Unsupported, RecursionError) as e:
        return f"{nm}: {e}"
    done = 0
    for j, p in enumerate(ps):
        if p.ended:
            continue
        done += 1
        n = f"{nm}/path {j}"
        if p.obls:
            return f"{n}: {p.obls[0][0]}"
        if p.exc is not None:
            chk.expect(f"{n}/no-exception", False, f"{type(p.exc).__name__}: {p.exc}")
            continue
        dp, dr, here, a, k, r, single, other, ret, f, out, same, (ap, ak, ar), fam = p.result
        chk.expect(f"{n}/caller's objects unchanged", same)
        if not chk.expect(f"{n}/called once", len(f.calls) == 1, f"{len(f.calls)} calls"):
            continue
        ga, gk = f.calls[0]
        if len(ga) != 1 or not isinstance(ga[0], Q.Spread) or set(gk) != {"other", fam} or not isinstance(gk[fam], Q.Spread):
            return f"{n}: called with {ga} {gk}"
        chk.expect(f"{n}/all arguments passed on", ga[0].axis is ap and gk["other"] is other and gk[fam].axis is ak and gk[fam].value[0] is here)
        moved(chk, f"{n}/arguments", p, ga[0].value, a, dp if on and pos else T.FALSE, rad_of)
        moved(chk, f"{n}/keywords", p, gk[fam].value[1], k, here if on and keys else T.FALSE, rad_of, T.not_(here))
        if nothing or not on or outs == "none":
            chk.expect(f"{n}/result as returned", out is ret, f"{out!r}")
        elif outs == "single":
            deg_of(chk, f"{n}/result", out, single)
        elif not isinstance(out, (tuple, list)) or len(out) != 1 or not isinstance(out[0], Q.Spread):
            return f"{n}: returns {out!r}"
        else:
            chk.expect(f"{n}/all results returned", out[0].axis is ar)
            moved(chk, f"{n}/results", p, out[0].value, r, dr, deg_of)
    chk.expect(f"{nm}/some-path", done > 0, "no path")
    return None


def moved(chk, nm, p, got, given, declared, conv, absent=T.FALSE):
    """converted where it is declared, the same object elsewhere"""
    facts = p.pc
    if smt.SOLVER.valid_quick(facts, absent):
        return
    if declared is T.TRUE or smt.SOLVER.valid_quick(facts, declared):
        conv(chk, nm + " converted", got, given)
    else:
        chk.prove(nm + " not declared", T.not_(declared), facts, backend="z3")
        chk.expect(nm + " as given", got is given, f"{got!r}")


def one(chk, m, npos, nret, p, k, o, default, passed, present, retkind, kinds, before):
    on = bool(passed if passed is not None else default)
    nm = f"angle_units({p},{k},{o},{default})/degrees={passed},{','.join(present)},{retkind}"

    def thunk():
        args = []
        declared = {j % npos for j in p} if p is not None else set()
        for j in range(npos):
            args.append(angle(next(kinds), f"a{j}") if j in declared else Opaque(f"a{j}"))
        kw = {n: angle(next(kinds), n) if k is not None and n in k else Opaque(n) for n in present}
        outs = set(range(nret)) if o is True else {j % nret for j in o} if o is not None else set()
        vals = [angle(next(kinds), f"r{j}") if j in outs else Opaque(f"r{j}") for j in range(nret)]
        ret = {"none": lambda: None, "single": lambda: vals[0], "tuple": lambda: tuple(vals), "list": lambda: list(vals)}[retkind]()
        f = Func(ret)
        old = [list(x.cells.flat) if isinstance(x, S.SymArray) else x for x in args + list(kw.values()) + vals]
        deco = m.angle_units(p, k, o) if default is None else m.angle_units(p, k, o, degrees=default)
        g = deco(f)
        extra = {} if passed is None else {"degrees": passed}
        if before is not None:
            g(*args, **kw, degrees=before)
            f.calls.clear()
        given = dict(kw)
        decl = [list(d) if d is not None and d is not True else d for d in (p, k, o)]
        out = g(*args, **given, **extra)
        after = [list(x.cells.flat) if isinstance(x, S.SymArray) else x for x in args + list(kw.values()) + vals]
        touched = [j for j, (a, b) in enumerate(zip(old, after)) if (a is not b if not isinstance(a, list) else [t.id for t in a] != [t.id for t in b])]
        again = [list(d) if d is not None and d is not True else d for d in (p, k, o)]
        return args, kw, vals, ret, f, out, touched, decl == again
    pth = chk.single(nm, thunk)
    if pth is None:
        return
    args, kw, vals, ret, f, out, touched, same_decl = pth.result
    chk.expect(f"{nm}/caller's objects unchanged", not touched and same_decl, f"changed: {touched}")
    if not chk.expect(f"{nm}/called once", len(f.calls) == 1, f"{len(f.calls)} calls"):
        return
    ga, gk = f.calls[0]
    if not chk.expect(f"{nm}/arguments", len(ga) == len(args) and list(gk) == list(kw), f"{ga} {gk}"):
        return
    declared = {j % npos for j in p} if p is not None and on else set()
    for j, (a, b) in enumerate(zip(args, ga)):
        if j in declared:
            rad_of(chk, f"{nm}/argument {j} in radians", b, a)
        else:
            chk.expect(f"{nm}/argument {j} as given", a is b, f"{b!r}")
    for n in kw:
        if on and k is not None and n in k:
            rad_of(chk, f"{nm}/keyword {n} in radians", gk[n], kw[n])
        else:
            chk.expect(f"{nm}/keyword {n} as given", gk[n] is kw[n], f"{gk[n]!r}")
    if not on or o is None or ret is None:
        chk.expect(f"{nm}/result as returned", out is ret, f"{out!r}")
    elif o is True:
        deg_of(chk, f"{nm}/result in degrees", out, ret)
    else:
        if not chk.expect(f"{nm}/results", isinstance(out, (tuple, list)) and len(out) == nret, f"{out!r}"):
            return
        for j in range(nret):
            if j in {q % nret for q in o}:
                deg_of(chk, f"{nm}/result {j} in degrees", out[j], vals[j])
            else:
                chk.expect(f"{nm}/result {j} as returned", out[j] is vals[j], f"{out[j]!r}")


def rad_of(chk, nm, got, given):
    scaled(chk, nm, got, given, PI / 180)


def deg_of(chk, nm, got, given):
    scaled(chk, nm, got, given, 180 / PI)


def scaled(chk, nm, got, given, factor):
    try:
        g, w = terms_of(got), terms_of(given)
    except TypeError as e:
        return chk.expect(nm, False, f"not a number: {e}")
    same = isinstance(got, S.SymArray) == isinstance(given, S.SymArray) and (not isinstance(got, S.SymArray) or same_dims(got.dims, given.dims))
    if not chk.expect(nm + "/shape", same and len(g) == len(w), f"{got!r} for {given!r}"):
        return
    for j, (a, b) in enumerate(zip(g, w)):
        chk.prove(f"{nm}/value {j}", a.eq(b * factor), [])

"""malformed arguments"""
import numpy as rnp

from dv import symnp as S
from dv.ctx import Unsupported
from dv.symstr import LOWER, Canonical, Other, SymStr, words
from .common import *
from .c09 import Frame
from .c07 import clean
from .orb import TYPES, make, setup, State, SETUPS

CONV = ("cart_to_kep", "kep_to_cart")
ANOM = ("true_to_eccentric", "eccentric_to_true", "eccentric_to_mean", "mean_to_eccentric", "true_to_mean", "mean_to_true")
SPELL = Canonical(LOWER, strip=True)


SHARDS = 7


class Opaque:
    """an object of which nothing is known but that it is not an array"""

    def __getattribute__(self, n):
        if n in ("__class__", "__dict__"):
            return object.__getattribute__(self, n)
        raise Unsupported(f"the code looks at {n} of an argument that is not an array")


class Shaped:
    """looks like an array"""
    shape, ndim, dtype, size = (6,), 1, rnp.dtype("float64"), 6

    def __getitem__(self, k):
        return num(V("q"))

    def __len__(self):
        return 6

    def reshape(self, *a):
        return self

    def __array__(self, *a, **k):
        raise Unsupported("array()")


def not_arrays(ax):
    q = [num(v) for v in KEP]
    return [("list", list(q)), ("tuple", tuple(q)), ("list-of-columns", [[x] for x in q]), ("list-of-arrays", [vec(v, ax) for v in KEP]),
            ("tuple-of-arrays", tuple(vec(v, ax) for v in KEP)), ("float", q[0]), ("np.float64", num(KEP[0], True)), ("int", S.SymInt(T.sym("n", "I"))),
            ("None", None), ("str", "kepler"), ("bytes", b"123456"), ("dict", dict(zip("aeioOn", q))), ("range", range(6)), ("bool", True),
            ("any-object", Opaque()), ("array-like-object", Shaped())]


def entries(n, ax=None):
    return [tm(V(f"q{j}")) for j in range(n)]


def bad_shapes():
    """arrays whose first axis is not six long: (name, maker)"""
    out = []
    for k in list(range(1, 6)) + [7, 8, 12, 36]:
        out.append((f"({k},)", lambda k=k: S.from_terms(entries(k), (k,))))
        out.append((f"({k},N)", lambda k=k: S.from_terms(entries(k), (k, CTX.new_axis("N")))))
        out.append((f"({k},6)", lambda k=k: S.from_terms(entries(6 * k), (k, 6))))

    def axis():
        ax = CTX.new_axis("L")
        CTX.pc.append(T.not_(T.eq(ax.length, T.iconst(6))))
        return ax
    out.append(("(L,)", lambda: S.from_terms(entries(1), (axis(),))))
    out.append(("(L,6)", lambda: S.from_terms(entries(6), (axis(), 6))))
    out.append(("(L,1)", lambda: S.from_terms(entries(1), (axis(), 1))))
    return out


def raises(chk, nm, thunk, exc):
    chk.turn(_raises, nm, thunk, exc, chk)


def _raises(nm, thunk, exc, chk):
    """every path raises this kind of exception; thunk returns (exception or None, frame)"""
    ps = [p for p in chk.paths(nm, thunk, max_paths=30, enough=lambda p: not p.ended and (p.exc is not None or not isinstance(p.result[0], exc))) if not p.ended]
    chk.expect(f"{nm}/answers", bool(ps), "no path")
    for j, p in enumerate(ps):
        pn = f"{nm}/path{j}" if len(ps) > 1 else nm
        if p.exc is not None:
            chk.record(f"{pn}/executes", False, "symbolic execution", 0, f"{type(p.exc).__name__}: {p.exc}")
            continue
        e, fr = p.result[:2]
        chk.expect(f"{pn}/raises-{exc.__name__}", isinstance(e, exc), f"accepted: {p.result[2]!r}" if e is None else f"raises {e!r}")
        if fr is not None:
            fr.check(chk, pn, clean(p))


def attempt(f):
    try:
        return None, f()
    except Unsupported:
        raise
    except Exception as e:
        return e, None


def run(chk):
    real = chk.load()
    chk.under_contract(real, *CONV, *ANOM)
    for fname in CONV:
        fn = getattr(real, fname)
        for dg in (False, True):
            for mu in ("float", "array"):
                tag = f"{fname}[{'deg' if dg else 'rad'},mu {mu}]"
                names = [n for n, _ in chk_names(not_arrays)]
                for k, n in enumerate(names):
                    def thunk():
                        ax = CTX.new_axis("N")
                        x = not_arrays(ax)[k][1]
                        m = num(MU) if mu == "float" else vec(MU, ax)
                        fr = Frame(m, *(x if isinstance(x, (list, tuple)) else ()))
                        before = list(x) if isinstance(x, list) else None
                        e, r = attempt(lambda: fn(x, mu=m, degrees=dg))
                        if before is not None and (len(before) != len(x) or any(a is not b for a, b in zip(before, x))):
                            e = None
                            r = "the list was changed"
                        return e, fr, r
                    raises(chk, f"{tag}/{n}", thunk, TypeError)
                for n, mk in bad_shapes():
                    for dt in ("float64", "int64"):
                        def thunk():
                            x = mk()
                            if dt == "int64":
                                c = [T.sym(f"iq{j}", "I") for j in range(x.cells.size)]
                                x = S.from_terms(c, x.dims, rnp.dtype(dt))
                            x = of_caller(x)
                            m = num(MU) if mu == "float" else vec(MU)
                            fr = Frame(x, m)
                            e, r = attempt(lambda: fn(x, mu=m, degrees=dg))
                            return e, fr, r
                        if dt == "int64" and (dg or mu == "array"):
                            continue
                        raises(chk, f"{tag}/{n}{dt if dt != 'float64' else ''}", thunk, ValueError)
    # ------------------------------------------------------------ anomalies of other shapes
    def two():
        a, b = CTX.new_axis("N"), CTX.new_axis("M")
        CTX.pc.append(T.not_(T.eq(a.length, b.length)))
        return a, b

    def fixed(n, k):
        a = CTX.new_axis("N")
        CTX.pc.append(T.not_(T.eq(a.length, T.iconst(k))))
        return a, k
    one = lambda t, d: S.from_terms([tm(t)] * int(rnp.prod([x for x in d if isinstance(x, int)], initial=1)), d)
    shapes = {
        "(N,)(M,)": lambda: [(x,) for x in two()],
        "(N,)(1,)": lambda: [(x,) for x in fixed("N", 1)],
        "(N,)(3,)": lambda: [(x,) for x in fixed("N", 3)],
        "(1,)(2,)": lambda: [(1,), (2,)],
        "(3,)(4,)": lambda: [(3,), (4,)],
        "(2,N)(N,)": lambda: (lambda a: [(2, a), (a,)])(CTX.new_axis("N")),
        "(2,N)(3,N)": lambda: (lambda a: [(2, a), (3, a)])(CTX.new_axis("N")),
        "(1,N)(N,)": lambda: (lambda a: [(1, a), (a,)])(CTX.new_axis("N")),
        "(2,3)(3,2)": lambda: [(2, 3), (3, 2)],
        "(2,3)(6,)": lambda: [(2, 3), (6,)],
        "(0,)(1,)": lambda: [(0,), (1,)],
    }
    x, ec = V("anomaly"), V("e")
    for fname in ANOM:
        fn = getattr(real, fname)
        for n, mk in shapes.items():
            for swap in (False, True):
                for dg in (False, True):
                    def thunk():
                        d = list(mk())
                        if swap:
                            d.reverse()
                        a, b = (of_caller(one(t, s)) for t, s in zip((x, ec), d))
                        CTX.pc.append(tm(ec >= 0))
                        fr = Frame(a, b)
                        e, r = attempt(lambda: fn(a, b, degrees=dg))
                        return e, fr, r
                    raises(chk, f"{fname}[{'deg' if dg else 'rad'}]/{'swapped ' if swap else ''}{n}", thunk, TypeError)
    # ------------------------------------------------------------ anomaly types
    mod = setup(chk)
    chk.assumptions.append("arrays without axes (0-d) are treated by numpy as scalars and are not claimed to be refused")
    chk.under_contract(mod, "Orbit.__init__", "Orbit.type")
    src = mod._dv_loader.sources["pyorb.orbit"][1]
    chk.assumptions.append("anomaly types are arbitrary strings over Unicode: a known type up to case and surrounding space, any other string of the "
                           "source text up to case and surrounding space, or a string the source does not mention")
    _, other = words(SPELL, dict.fromkeys(TYPES), src)
    unknown = [(f"other-string-{j}", lambda w=w: w if isinstance(w, Other) else SymStr(SPELL, w)) for j, w in enumerate(other)]
    plain = [(f"text-{j}", lambda w=w: w if isinstance(w, Other) else SymStr(Canonical(), w)) for j, w in enumerate(other)]
    for j, (n, mk) in enumerate(plain):
        for kw in ("nothing", "kep", "cart") if isinstance(other[j], Other) else ("nothing", "kep"):
            def thunk():
                ax = CTX.new_axis("N", minlen=1)
                args = {}
                if kw == "kep":
                    args = {k: vec(uf("val_" + k, ax), ax) for k in ("a", "e", "i", "omega", "Omega", "anom")}
                elif kw == "cart":
                    args = {k: vec(uf("val_" + k, ax), ax) for k in ("x", "y", "z", "vx", "vy", "vz")}
                fr = Frame(*args.values())
                e, r = attempt(lambda: mod.Orbit(num(V("M0")), G=num(V("G")), num=S.SymInt(ax.length), type=construct_word(mk()), **args))
                return e, fr, r
            raises(chk, f"Orbit(type={n},{kw})", thunk, ValueError)
    for mode, typ, dg in SETUPS:
        for n, mk in unknown:
            def thunk():
                ax = CTX.new_axis("N")
                orb = make(mod, ax, mode, typ, dg)
                before = State(orb)

                def go():
                    orb.type = mk()
                e, r = attempt(go)
                after = State(orb)
                same = all(tm(a) is tm(b) for a, b in zip(before.kep + before.cart + [before.m], after.kep + after.cart + [after.m]))
                if e is not None and not (same and before.kc is after.kc and before.cc is after.cc and after.type == typ):
                    e, r = None, "the orbit was changed"
                return e, None, r
            raises(chk, f"orb.type={n}[{mode},{typ},{'deg' if dg else 'rad'}]", thunk, ValueError)


def construct_word(w):
    return w.word if isinstance(w, SymStr) else w


def uf(n, ax):
    return E(T.uf(n, (ax.index,)))


def chk_names(f):
    CTX.reset([])
    return f(CTX.new_axis("N"))

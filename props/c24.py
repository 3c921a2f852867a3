"""constants"""
import copy

from dv import loader, symnp as S
from dv.symstr import Other
from .common import *
from .c07 import clean

EULER = E(T.sym("EULER"))
DOCUMENTED = {
    "pi": PI, "e": EULER, "_2pi": 2 * PI, "_4pi": 4 * PI,
    "c": C("299792458"), "G": C("6.6743e-11"),
    "wgs84_a": C("6378137"), "wgs84_invf": C("298.257223563"), "wgs84_f": 1 / C("298.257223563"), "wgs84_omega": C("7292115e-11"),
    "wgs84_GM": C("3986004.418e8"), "wgs84_M_earth": C("3986004.418e8") / C("6.6743e-11"),
    "AU": C("149597870700"), "M_sol": C("1.98847e30"), "GM_sol": C("1.32712440018e20"),
    "K_a": C(0), "K_e": C(1), "K_i": C(2), "K_om": C(3), "K_OM": C(4), "K_nu": C(5),
    "E_a": C(0), "E_h": C(1), "E_k": C(2), "E_p": C(3), "E_q": C(4), "E_lam": C(5),
}
EXPORTS = {"G": "G", "AU": "AU", "M_sol": "M_sol", "GM_sol": "GM_sol", "GM_earth": "wgs84_GM", "M_earth": "wgs84_M_earth"}
DUNDER = ["__dict__", "__class__", "_shared_state", "ConstError", "__setattr__", "__delattr__", "__init__", "__getattribute__", "zz"]
NEW = V("new")


def known(obj):
    """the constants an object shows, by reading attributes"""
    out = {}
    for n in DOCUMENTED:
        try:
            v = getattr(obj, n)
            out[n] = S.to_term(v) if isinstance(v, (int, float, S.Scalar)) and not isinstance(v, bool) else v
        except AttributeError:
            out[n] = None
    return out


def unchanged(a, b):
    return [n for n in a if a[n] is not b[n]]


def fresh():
    L = loader.Loader()
    return L, L.load("pyorb.const")


def values():
    return [("a-number", lambda t: num(NEW)), ("an-integer", lambda t: S.SymInt(T.sym("new_int", "I"))), ("np.float64", lambda t: num(NEW, True)),
            ("None", lambda t: None), ("a-string", lambda t: "6.6743e-11"), ("a-list", lambda t: []), ("nan", lambda t: S.SymReal(T.NAN)),
            ("a-function", lambda t: (lambda *a: None)), ("a-dict", lambda t: {}), ("the-same-value", lambda t: S.SymReal(T.to_real(t)))]


def run(chk):
    L, c = fresh()
    path, src = L.sources["pyorb.const"]
    import types
    fake = types.SimpleNamespace(_dv_loader=L, __name__="pyorb.const")
    for n in ("_const.__init__", "_const.__setattr__", "_const.__delattr__"):
        chk.under_contract(fake, n)
    chk.assumptions.append("attribute operations on the constants object: setattr and delattr of every existing name, of every name the source mentions, of special names and of "
                           "an arbitrary other name (a string that may only be compared and looked up), with values of arbitrary content; writing to vars(pyorb.const) or to its class is not an attribute operation")
    # ---------------------------------------------------------------- documented values
    have = known(c)
    for n, want in DOCUMENTED.items():
        if not isinstance(have[n], T.Term):
            chk.expect(f"value/{n}", False, f"{n} is {have[n]!r}")
            continue
        chk.prove(f"value/{n}", E(T.to_real(have[n])).eq(want), [])
        if n[:2] in ("K_", "E_"):
            chk.expect(f"value/{n}/is-an-index", have[n].sort == "I", f"{have[n]!r}")
    # numpy's e is not changed on the way
    # ---------------------------------------------------------------- the other views
    views = {"module": c}
    p = chk.single("new-instance", lambda: type(fresh()[1])())
    if p is not None:
        for n, v in known(p.result).items():
            chk.expect(f"new-instance/{n}", v is have[n], f"{v!r} instead of {have[n]!r}")
    L2 = loader.Loader()
    p = chk.single("package", lambda: L2.run_init())
    if p is not None:
        for n, of in EXPORTS.items():
            v = getattr(p.result, n, None)
            chk.expect(f"package/{n}", isinstance(v, S.Scalar) and v.term is have[of], f"{v!r} instead of {have[of]!r}")
        chk.expect("package/const", getattr(p.result, "const", None) is L2.modules.get("pyorb.const"), "pyorb.const is another object")
    # ---------------------------------------------------------------- one operation of any kind, from any state
    makers = [("module", lambda c: c), ("new-instance", lambda c: type(c)()), ("copy", copy.copy)]
    names = [n for n in sorted(set(DOCUMENTED) | {k for k in vars(c) if not k.startswith("_dv")})]
    import ast
    mentioned = set(DUNDER)
    for x in ast.walk(ast.parse(src)):
        if isinstance(x, ast.Constant) and isinstance(x.value, str) and len(x.value) < 30:
            mentioned.add(x.value)
        elif isinstance(x, ast.Name):
            mentioned.add(x.id)
    mentioned = sorted(mentioned - set(names))
    for vname, mk in makers:
        for n in names:
            one(chk, f"{vname}/set {n}", mk, n, values(), have)
            for extra in ("", "zz"):
                nm = f"{vname}/del {n}{'/with-new-names' if extra else ''}"

                def thunk():
                    _, c = fresh()
                    if extra:
                        for d in DUNDER:
                            setattr(c, d, num(NEW))
                    v = mk(c)
                    exc = attempt(lambda: delattr(v, n))
                    return exc, known(c), known(v)
                finish(chk, nm, thunk, have, must_raise=True)
        # names that are not constants yet: no effect on the constants, and then constants themselves
        for n in mentioned + [Other()]:
            for kind, val in values()[:5] + values()[7:9]:
                nm = f"{vname}/new name {n if type(n) is str else '(any other)'} = {kind}"

                def thunk():
                    _, c = fresh()
                    v = mk(c)
                    attempt(lambda: setattr(v, n, val(T.ZERO)))
                    attempt(lambda: delattr(v, n))
                    e1 = attempt(lambda: setattr(v, "G", num(NEW + 1)))
                    e2 = attempt(lambda: delattr(v, "c"))
                    return (e1, e2), known(c), known(v)
                finish(chk, nm, thunk, have, must_raise=False)


def attempt(f):
    try:
        f()
    except Exception as e:
        if type(e).__name__ == "Unsupported":
            raise
        return e
    return None


def one(chk, nm, mk, n, vals, have):
    for kind, val in vals:
        def thunk():
            _, c = fresh()
            v = mk(c)
            exc = attempt(lambda: setattr(v, n, val(have.get(n) or T.ZERO)))
            return exc, known(c), known(v)
        finish(chk, f"{nm} to {kind}", thunk, have, must_raise=kind != "the-same-value", name=n)


def finish(chk, nm, thunk, have, must_raise, name=None):
    ps = [p for p in chk.paths(nm, thunk) if not p.ended]
    for j, p in enumerate(ps):
        if p.exc is not None:
            chk.record(f"{nm}/path{j}/executes", False, "symbolic execution", 0, repr(p.exc))
            continue
        exc, k1, k2 = p.result
        bad = unchanged(have, k1) + unchanged(have, k2)
        chk.expect(f"{nm}/path{j}/unchanged", not bad, f"{bad} changed")
        if must_raise and exc is None:
            # accepted without effect: only if it is the value that is there
            t = have.get(name) if name else None
            new = [x for x in T.subterms(list(p.pc)) if x.op == "sym" and x.args[0] in ("new", "new_int")]
            if t is None or not new:
                chk.expect(f"{nm}/path{j}/raises", False, "was accepted silently")
            else:
                chk.prove(f"{nm}/path{j}/raises-unless-equal", T.eq(T.to_real(new[0]), T.to_real(t)), p.pc, backend="z3")
    chk.expect(f"{nm}/answers", bool(ps), "no path")

"""symbolic orbits: an arbitrary state of the real Orbit class

State of one instance: `_kep`, `_cart` (6, N), `m` (N), the two flag arrays of
length N; entries are uninterpreted functions of the column index, so every
content of the arrays is covered. The conversions are replaced by their
contracts (deterministic functions of one column, props/stubs.py)."""
from dv import nf, smt, state
from dv.ctx import Axis
from .common import *
from .c07 import clean, equal
from .stubs import ANOMALY, kepler_stubs, opt_terms

KN = ("a", "e", "i", "omega", "Omega", "anom")
CN = ("x", "y", "z", "vx", "vy", "vz")
TYPES = ("true", "eccentric", "mean")
MODES = {"direct": (True, True), "direct-noauto": (True, False), "lazy": (False, True), "manual": (False, False)}
OPTS = {"tol": 1e-7, "max_iter": 321, "degree": 4}
G, M0 = V("G"), V("M0")
# the attributes that the state below consists of
KNOWN = {"dtype", "auto_update", "direct_update", "G", "solver_options", "M0", "epoch", "degrees", "_Orbit__type", "kepler_read_only", "cartesian_read_only",
         "m", "_cart", "_kep", "_true_anomaly", "_eccentric_anomaly", "_mean_anomaly", "_Orbit__kep_calculated", "_Orbit__cart_calculated"}
KC, CC = "_Orbit__kep_calculated", "_Orbit__cart_calculated"


def uf(name, ax):
    return E(T.uf(name, (ax.index,)))


def flag(name, ax):
    return T.uf(name, (ax.index,), "B")


def setup(chk):
    real = chk.load()
    mod = chk.load("pyorb.orbit", stubs={"pyorb.kepler": kepler_stubs(real, equi=True)})
    chk.real_kepler = real
    a = "orbits are checked over the contracts of the conversion functions (deterministic, one column at a time, proved in C01-C08)"
    if a not in chk.assumptions:
        chk.assumptions.append(a)
    return mod


class State:
    """what an instance holds, for the generic column"""

    def __init__(self, orb):
        d = vars(orb)
        for n in d:
            if n not in KNOWN:
                state.note(f"attribute {n} of Orbit")
        self.kep = [E(d["_kep"].cells[j, 0]) for j in range(6)]
        self.cart = [E(d["_cart"].cells[j, 0]) for j in range(6)]
        self.m = E(d["m"].cells[0])
        self.kc = d[KC].cells[0]
        self.cc = d[CC].cells[0]
        self.dims = [d["_kep"].dims, d["_cart"].dims, d["m"].dims, d[KC].dims, d[CC].dims]
        self.type = orb.type
        self.degrees = bool(orb.degrees)
        self.lazy = bool(orb.auto_update) and not orb.direct_update
        self.mu = G * (M0 + self.m)
        self.opts = orb.solver_options

    def view(self):
        """(Kepler, Cartesian) the instance stands for: stale representations
        are the conversion of the other one"""
        if not self.lazy:
            return list(self.kep), list(self.cart)
        kl = T.and_(self.kc, T.not_(self.cc))
        cl = T.and_(self.cc, T.not_(self.kc))
        kep, cart = to_kep(self.cart, self), to_cart(self.kep, self)
        fk, fc = complete(self.cart), complete(self.kep)
        return ([ite(T.and_(cl, fk), n, o) for n, o in zip(kep, self.kep)],
                [ite(T.and_(kl, fc), n, o) for n, o in zip(cart, self.cart)])


def complete(els):
    return T.not_(T.or_(*[T.isnan(tm(x)) for x in els]))


def opts_of(st):
    return tuple(opt_terms(st.opts))


def f2(name, x, e, *extra):
    return E(T.uf(name, (tm(x), tm(e)) + extra))


def conv(x, e, src, dst, st):
    """anomaly in radians from one type to another"""
    if src == dst:
        return x
    if src == "true":
        E_ = f2("T2E", x, e)
        return E_ if dst == "eccentric" else f2("E2M", E_, e)
    if src == "eccentric":
        return f2("E2T", x, e) if dst == "true" else f2("E2M", x, e)
    E_ = f2("M2E", x, e, *opts_of(st))
    return E_ if dst == "eccentric" else f2("E2T", E_, e)


def anomaly(kep, st, dst, src=None):
    """anomaly of the orbit in type dst, in the unit of the orbit"""
    src = src or st.type
    x = rad(kep[5]) if st.degrees else kep[5]
    x = conv(x, kep[1], src, dst, st)
    return deg(x) if st.degrees else x


def to_cart(kep, st, typ=None):
    ang = [rad(kep[j]) if st.degrees else kep[j] for j in (2, 3, 4)]
    x = rad(kep[5]) if st.degrees else kep[5]
    nu = conv(x, kep[1], typ or st.type, "true", st)
    args = tuple(tm(t) for t in [kep[0], kep[1]] + ang + [nu, st.mu])
    return [E(T.uf(f"K2C{j}", args)) for j in range(6)]


def to_kep(cart, st):
    args = tuple(tm(t) for t in list(cart) + [st.mu])
    k = [E(T.uf(f"C2K{j}", args)) for j in range(6)]
    k[5] = conv(k[5], k[1], "true", st.type, st)
    return [deg(k[j]) if st.degrees and j >= 2 else k[j] for j in range(6)]


def make(mod, ax, mode="direct", typ="true", degrees=False, kro=False, cro=False, tag="", **more):
    """an orbit in an arbitrary state; the masses in use may not be those it was constructed with"""
    orb = mod.Orbit(num(V("M0_first")), G=num(V("G_first")), num=S.SymInt(ax.length), type=typ, degrees=degrees,
                    solver_options={k: (v if k != "tol" else num(C("1e-7"))) for k, v in OPTS.items()},
                    direct_update=False, auto_update=False, **more)
    orb.epoch = "epoch" + tag
    orb.M0, orb.G = num(M0), num(G)
    orb.direct_update, orb.auto_update = MODES[mode]
    d = vars(orb)
    for n in ("_kep", "_cart"):
        d[n][...] = S.from_terms([uf(f"{tag}{n}{j}", ax).t for j in range(6)], (6, ax))
    orb.m[...] = S.from_terms([uf(f"{tag}m", ax).t], (ax,))
    for n, f in ((KC, "kc"), (CC, "cc")):
        d[n][...] = S.from_terms([flag(tag + f, ax)], (ax,), S.rnp.bool_)
    # the memory of the anomaly accessors holds anything
    for n in ("_true_anomaly", "_eccentric_anomaly", "_mean_anomaly"):
        if isinstance(d.get(n), S.SymArray):
            d[n][...] = S.from_terms([uf(f"{tag}{n}", ax).t], (ax,))
    CTX.pc.append(tm(uf(f"{tag}m", ax) >= 0))
    CTX.pc.append(T.not_(T.isnan(uf(f"{tag}m", ax).t)))
    # neither representation given yet
    st = State(orb)
    CTX.pc.append(T.implies(T.and_(T.not_(st.kc), T.not_(st.cc)),
                            T.and_(T.not_(complete(st.kep)), T.not_(complete(st.cart)))))
    orb.kepler_read_only, orb.cartesian_read_only = kro, cro
    return orb


SETUPS = [(m, t, d) for m in ("direct", "lazy", "manual") for t in TYPES for d in (False, True)]


def selection(kind, ax):
    """(object given to the code, condition over the generic column, axis of the selection)"""
    if kind == "all":
        return slice(None), T.TRUE, ax
    if kind == "mask":
        c = flag("sel", ax)
        a = S.from_terms([c], (ax,), S.rnp.bool_)
        return a, c, CTX.compress(ax, c)
    if kind == "list":
        c = flag("sel", ax)
        return S.SymSel(ax, c), c, CTX.compress(ax, c)
    if kind == "slice":
        lo, hi = T.sym("lo", "I"), T.sym("hi", "I")
        CTX.pc.extend([T.le(T.iconst(0), lo), T.le(lo, hi), T.le(hi, ax.length)])
        s = slice(S.SymInt(lo), S.SymInt(hi))
        c = T.and_(T.le(lo, ax.index), T.lt(ax.index, hi))
        return s, c, S.slice_axis(s, ax)[0]
    if kind == "int":
        k = T.sym("k_sel", "I")
        CTX.pc.extend([T.le(T.iconst(0), k), T.lt(k, ax.length)])
        return S.SymInt(k), T.eq(ax.index, k), None
    raise KeyError(kind)


SELECTIONS = ("all", "mask", "list", "slice", "int")


def value(name, kind, ax, rows=None):
    """a value to assign: scalar, one per selected orbit, or columns of rows"""
    n = rows or 1
    if kind == "scalar" and not rows:
        return num(V(name)), [V(name)]
    if kind == "scalar":
        ts = [V(f"{name}{j}") for j in range(n)]
        return S.from_terms([tm(t) for t in ts], (n,)), ts
    ts = [uf(f"{name}{j}" if rows else name, ax) for j in range(n)]
    a = S.from_terms([tm(t) for t in ts], (n, ax) if rows else (ax,))
    return a, ts


def facts_of(p):
    return list(p.pc)


def compare(chk, name, got, want, facts, cond=T.TRUE, names=None):
    for j, (g, w) in enumerate(zip(got, want)):
        equal(chk, f"{name}.{names[j] if names else j}", g, w, facts + ([cond] if cond is not T.TRUE else []))


def invariant(chk, name, st, facts, ax=None):
    """data aligned, and an orbit that is in neither state has no elements"""
    d = st.dims
    n = d[0][1]
    ok = all(len(x) == (2 if j < 2 else 1) and (x[-1] is n or S.axes_equal(x[-1], n) if not isinstance(n, int) else x[-1] == n) for j, x in enumerate(d))
    chk.expect(f"{name}/inv.aligned", ok, f"{d}")
    if st.lazy:
        chk.prove(f"{name}/inv.unset", T.implies(T.and_(T.not_(st.kc), T.not_(st.cc)),
                                                 T.and_(T.not_(complete(st.kep)), T.not_(complete(st.cart)))), facts, backend="z3")


def run_op(chk, name, thunk):
    """feasible paths of thunk, none of which may raise"""
    ps = [p for p in chk.paths(name, thunk) if not p.ended]
    out = []
    for n, p in enumerate(ps):
        pn = f"{name}/path{n}" if len(ps) > 1 else name
        if p.exc is not None:
            import traceback
            tb = traceback.extract_tb(p.exc.__traceback__)
            where = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb][-3:]
            chk.record(f"{pn}/no-exception", False, "symbolic execution", 0, f"{p.exc!r} {where}")
            continue
        out.append((pn, p))
    if not ps:
        chk.record(f"{name}/feasible", False, "symbolic execution", 0, "no execution satisfies the precondition")
    if ps and len(out) == len(ps):
        chk.record(f"{name}/no-exception", True, "symbolic execution")
    return out


# ------------------------------------------------------------------ rejections
def unchanged(chk, name, before, after, orb, typ, fs, mode):
    """the orbit is what it was"""
    equal(chk, f"{name}/m", after.m, before.m, fs)
    chk.expect(f"{name}/type", orb.type == typ, f"{orb.type}")
    chk.expect(f"{name}/num", all(same_dims(a, b) for a, b in zip(after.dims, before.dims)), f"{after.dims}")
    if mode == "lazy":
        (k0, c0), (k1, c1) = before.view(), after.view()
    else:
        k0, c0, k1, c1 = before.kep, before.cart, after.kep, after.cart
        chk.prove(f"{name}/flags", T.and_(T.iff(after.kc, before.kc), T.iff(after.cc, before.cc)), fs, backend="z3")
    compare(chk, f"{name}/same", k1 + c1, k0 + c0, fs, names=KN + CN)


def check_rejected(chk, name, mod, op, exc, mode, typ, dg, kro=False, cro=False):
    """an operation that has to be refused, without effect"""
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg, kro, cro)
        before = State(orb)
        raised = None
        try:
            op(orb, ax)
        except exc as e:
            raised = e
        return before, raised, State(orb), orb
    for pn, p in run_op(chk, name, thunk):
        before, raised, after, orb = p.result
        fs = facts_of(p)
        chk.expect(f"{pn}/refused", raised is not None, f"no {exc.__name__}")
        chk.expect(f"{pn}/read-only-kept", (orb.kepler_read_only, orb.cartesian_read_only) == (kro, cro), "flags")
        unchanged(chk, pn, before, after, orb, typ, fs, mode)


# ------------------------------------------------------------------ contracts of the conversions, as rewriting rules
INVERSES = {("E2T", "T2E"), ("T2E", "E2T"), ("E2M", "M2E"), ("M2E", "E2M")}
NUMERIC = ("E2T", "T2E", "E2M", "M2E") + tuple(f"{n}{j}" for n in ("K2C", "C2K") for j in range(6))


def inverse_rule(t):
    """one anomaly conversion undoes the other, up to whole revolutions and the solver's tolerance (C04, C05)"""
    name, x, e = t.args[0], t.args[1], t.args[2] if len(t.args) > 2 else None
    if isinstance(x, T.Term) and x.op == "uf" and (name, x.args[0]) in INVERSES and x.args[2] is e:
        return x.args[1]


def round_trip_rule(t):
    """the state of the elements of a state is that state (C03)"""
    if t.args[0][:3] == "K2C" and len(t.args) == 8:
        xs = t.args[1:7]
        if all(x.op == "uf" and x.args[0] == f"C2K{j}" and x.args[1:] == xs[0].args[1:] for j, x in enumerate(xs)) and xs[0].args[7] is t.args[7]:
            return xs[0].args[1 + int(t.args[0][3])]


def nan_rule(x):
    """conversions of numbers are numbers (C26 and the real arithmetic of C01-C05)"""
    if x.op == "uf" and x.args[0] in NUMERIC:
        return T.or_(*[T.isnan(a) for a in x.args[1:] if isinstance(a, T.Term) and a.sort == "R" and not T.is_const(a)])


def use_contracts(chk, *rules):
    for r in rules:
        if r not in nf.RULES and r is not nan_rule:
            nf.RULES.append(r)
    if nan_rule not in nf.NAN_RULES:
        nf.NAN_RULES.append(nan_rule)
    chk.assumptions.append("anomaly conversions undo each other up to whole revolutions and the solver's tolerance, and conversions of "
                           "numbers are numbers: the contracts of the kepler module (C03-C05, C26), used here as rewriting rules")


def consistent(orb):
    """precondition: both representations describe the same orbit where they are current"""
    st = State(orb)
    d = vars(orb)
    new = to_cart(st.kep, st)
    keep = T.and_(st.cc, T.not_(st.kc)) if st.lazy else T.FALSE
    for j in range(6):
        d["_cart"].cells[j, 0] = T.ite(T.or_(keep, T.not_(complete(st.kep))), d["_cart"].cells[j, 0], new[j].t)

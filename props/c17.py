"""copies, selections, iteration and accessors"""
import copy as copy_module

from .orbops import *
from . import zero

SHARDS = 7
EPOCH = "epoch"
SCALARS = ("M0", "G", "epoch", "degrees", "auto_update", "direct_update", "kepler_read_only", "cartesian_read_only", "dtype")


def run(chk):
    mod = setup(chk)
    chk.under_contract(mod, *METHODS)
    for job in chk.mine(list(jobs(mod)) + list(empties(mod))):
        chk.guard(job[1], job[0], chk, *job[1:])


def mutable(v):
    return isinstance(v, (S.SymArray, list, dict, set, bytearray))


def shared(a, b):
    """mutable things two instances have in common"""
    out = []

    def walk(v, path, acc):
        if isinstance(v, S.SymArray):
            acc.append((path, v))
        elif isinstance(v, (list, dict, set, bytearray)):
            acc.append((path, v))
            for k, w in (v.items() if isinstance(v, dict) else enumerate(v) if isinstance(v, list) else ()):
                walk(w, f"{path}[{k!r}]", acc)
    xs, ys = [], []
    for n, v in vars(a).items():
        walk(v, n, xs)
    for n, v in vars(b).items():
        walk(v, n, ys)
    for n, v in xs:
        for m, w in ys:
            if v is w or isinstance(v, S.SymArray) and isinstance(w, S.SymArray) and S.rnp.shares_memory(v.cells, w.cells):
                out.append((n, m))
    return out


def same_setting(a, b):
    ta, tb = (S.to_term(x) if isinstance(x, S.Scalar) else x for x in (a, b))
    return ta is tb or (not isinstance(ta, T.Term) and ta == tb)


def snapshot(orb):
    """identity of everything the instance holds"""
    out = {}
    for n, v in vars(orb).items():
        if isinstance(v, S.SymArray):
            out[n] = (tuple(v.cells.ravel()), v.dims, v.dtype)
        elif isinstance(v, dict):
            out[n] = {k: S.to_term(x) if isinstance(x, S.Scalar) else x for k, x in v.items()}
        else:
            out[n] = S.to_term(v) if isinstance(v, S.Scalar) else v
    return out


def types_of(orb):
    return {n: v.dtype for n, v in vars(orb).items() if isinstance(v, S.SymArray)}


def part(name, how, mod, mode, typ, dg, kro, cro, chk, **more):
    """one way of making an orbit from another"""
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg, kro, cro, **more)
        before, snap = State(orb), snapshot(orb)
        m, dims, first = {}, (6, ax), T.TRUE
        extra = []
        if how == "copy()":
            new = orb.copy()
        elif how == "copy.copy":
            new = copy_module.copy(orb)
        elif how == "copy.deepcopy":
            new = copy_module.deepcopy(orb)
        elif how == "iteration":
            it, it2 = iter(orb), iter(orb)
            extra.append(("fresh-iterators", it is not it2 and it is not orb and it2 is not orb))
            CTX.branch(T.lt(T.iconst(1), ax.length))
            new = next(it)
            CTX.loop_mode.clear(), CTX.loop_epochs.clear()
            other = next(it2)
            CTX.loop_mode.clear(), CTX.loop_epochs.clear()
            extra.append(("independent-iterations", not shared(new, other) and State(other).kep[0].t is State(new).kep[0].t))
            dims = (6, 1)
        elif how == "order":
            k = CTX.new_axis("K")
            idx = T.uf("idx", (k.index,), "I")
            CTX.pc.extend([T.le(T.neg(ax.length), idx), T.lt(idx, ax.length)])
            new = orb[S.from_terms([idx], (k,), S.I64)]
            pos = T.ite(T.le(T.iconst(0), idx), idx, T.add(idx, ax.length))
            m, dims = {ax.index: pos}, (6, k)
        elif how == "negative int":
            k = T.sym("k_sel", "I")
            CTX.pc.extend([T.le(T.neg(ax.length), k), T.lt(k, T.iconst(0))])
            new = orb[S.SymInt(k)]
            m, dims = {ax.index: T.add(k, ax.length)}, (6, 1)
        elif how == "int":
            s, cond, _ = selection("int", ax)
            new = orb[s]
            m, dims = {ax.index: S.to_term(s)}, (6, 1)
        else:
            s, cond, sax = selection(how, ax)
            new = orb[s]
            dims = (6, sax)
        return before, snap, snapshot(orb), new, orb, m, dims, extra
    for pn, p in run_op(chk, name, thunk):
        before, snap, snap2, new, orb, m, dims, extra = p.result
        fs = facts_of(p)
        st = State(new)
        at = lambda t: E(T.subst(tm(t), m)) if m else t
        facts = fs + [T.subst(f, m) for f in fs] if m else fs
        chk.expect(f"{pn}/num", same_dims(st.dims[0], dims), f"{st.dims[0]} {dims}")
        invariant(chk, pn, st, facts + ([T.subst(T.implies(T.and_(T.not_(before.kc), T.not_(before.cc)), T.and_(
            T.not_(complete(before.kep)), T.not_(complete(before.cart)))), m)] if m else []))
        compare(chk, f"{pn}/elements", st.kep + st.cart, [at(x) for x in before.kep + before.cart], facts, names=KN + CN)
        equal(chk, f"{pn}/m", st.m, at(before.m), facts)
        chk.prove(f"{pn}/pending-updates", T.and_(T.iff(st.kc, T.subst(before.kc, m)), T.iff(st.cc, T.subst(before.cc, m))), facts, backend="z3")
        for n in SCALARS:
            chk.expect(f"{pn}/{n}", same_setting(getattr(new, n), getattr(orb, n)), f"{getattr(new, n)} instead of {getattr(orb, n)}")
        chk.expect(f"{pn}/data-types", types_of(new) == types_of(orb), f"{types_of(new)} instead of {types_of(orb)}")
        chk.expect(f"{pn}/type", new.type == typ, new.type)
        a, b = new.solver_options, orb.solver_options
        chk.expect(f"{pn}/solver-options", set(a) == set(b) and all(same_setting(a[k], b[k]) for k in b), f"{a}")
        chk.expect(f"{pn}/independent", type(new) is type(orb) and new is not orb and not shared(new, orb), f"{shared(new, orb)}")
        chk.expect(f"{pn}/original-untouched", snap == snap2, "the original was changed")
        for n, ok in extra:
            chk.expect(f"{pn}/{n}", ok, n)


def loop_end(chk, name, mod):
    """the iteration ends after the last orbit and leaves nothing behind"""
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax)
        snap = snapshot(orb)
        n = 0
        for _ in orb:
            n += 1
        return n, snap == snapshot(orb), list(vars(orb))
    for pn, p in run_op(chk, name, thunk):
        n, same, _ = p.result
        chk.expect(f"{pn}/once-per-column", n == 1, f"{n} times per column")
        chk.expect(f"{pn}/original-untouched", same, "changed")


ACCESSORS = KN + CN + ("r", "v", "kepler", "cartesian", "true_anomaly", "eccentric_anomaly", "mean_anomaly", "period", "mean_motion",
                       "apoapsis", "periapsis", "mean_longitude", "equinoctial", "velocity", "speed")


def accessor(chk, name, mod, attr, mode, typ, dg, kro, cro):
    """what an accessor returns is not connected to the orbit or to earlier results"""
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg, kro, cro)
        one = getattr(orb, attr)
        two = getattr(orb, attr)
        return one, two, orb
    for pn, p in run_op(chk, name, thunk):
        one, two, orb = p.result
        hold = [(n, v) for n, v in vars(orb).items() if isinstance(v, S.SymArray)]
        ok = [n for n, v in hold if S.rnp.shares_memory(v.cells, one.cells) or S.rnp.shares_memory(v.cells, two.cells)]
        chk.expect(f"{pn}/own-memory", not ok and one is not two and not S.rnp.shares_memory(one.cells, two.cells), f"shares memory with {ok}")


def assigned(chk, name, mod, op, mode, typ, dg):
    """an array that was assigned is not connected to the orbit"""
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg)
        given = []
        old = S.from_terms
        S_from = lambda *a: given.append(old(*a)) or given[-1]
        S.from_terms = S_from
        try:
            op(orb, ax)
        finally:
            S.from_terms = old
        cells = [tuple(g.cells.ravel()) for g in given]
        return given, orb
    for pn, p in run_op(chk, name, thunk):
        given, orb = p.result
        bad = [n for n, v in vars(orb).items() if isinstance(v, S.SymArray) for g in given if S.rnp.shares_memory(v.cells, g.cells)]
        chk.expect(f"{pn}/own-memory", given and not bad, f"{bad} share memory with the assigned array")


def without(chk, name, mod, how, mode, typ, dg, kro, cro, some, **more):
    """copies and selections that hold no orbit"""
    def thunk():
        if some:
            ax = CTX.new_axis("N")
            orb = make(mod, ax, mode, typ, dg, kro, cro, **more)
        else:
            orb = zero.no_orbits(mod, mode, typ, dg, kro, cro, solver_options={"tol": num(C("1e-7"))}, **more)
        snap = snapshot(orb)
        return snap, snapshot(orb), how(orb), orb
    for pn, p in run_op(chk, name, thunk):
        snap, snap2, new, orb = p.result
        chk.expect(f"{pn}/original-untouched", snap == snap2, "the original was changed")
        if isinstance(new, list):
            chk.expect(f"{pn}/no-step", new == [], f"{new}")
            continue
        zero.is_empty(chk, pn, new)
        for n in SCALARS:
            chk.expect(f"{pn}/{n}", same_setting(getattr(new, n), getattr(orb, n)), f"{getattr(new, n)} instead of {getattr(orb, n)}")
        chk.expect(f"{pn}/data-types", types_of(new) == types_of(orb), f"{types_of(new)} instead of {types_of(orb)}")
        chk.expect(f"{pn}/type", new.type == typ, new.type)
        a, b = new.solver_options, orb.solver_options
        chk.expect(f"{pn}/solver-options", set(a) == set(b) and all(same_setting(a[k], b[k]) for k in b), f"{a}")
        chk.expect(f"{pn}/independent", type(new) is type(orb) and new is not orb and not shared(new, orb), f"{shared(new, orb)}")


COPIES = {"copy()": lambda o: o.copy(), "copy.copy": copy_module.copy, "copy.deepcopy": copy_module.deepcopy, "iteration": lambda o: list(o)}


def empties(mod):
    for mode in ("direct", "lazy", "manual"):
        for typ in TYPES:
            for dg in (False, True):
                for kro, cro in ((False, False), (True, True)):
                    tag = f"no orbits/{mode}[{typ},{'deg' if dg else 'rad'},{int(kro)}{int(cro)}]"
                    for n, how in {**COPIES, **{f"[{s}]": (lambda o, mk=mk: o[mk()]) for s, mk in zero.NONE.items()}}.items():
                        yield (without, f"{tag}/{n}", mod, how, mode, typ, dg, kro, cro, False)
                    for s in ("empty slice", "list", "indices"):
                        yield (without, f"{tag}/some[{s}]", mod, lambda o, mk=zero.NONE[s]: o[mk()], mode, typ, dg, kro, cro, True)


def jobs(mod):
    hows = ("copy()", "copy.copy", "copy.deepcopy", "all", "mask", "list", "slice", "int", "negative int", "order", "iteration")
    for mode in MODES:
        for typ in TYPES:
            for dg in (False, True):
                for kro, cro in ((False, False), (True, False), (False, True), (True, True)):
                    tag = f"{mode}[{typ},{'deg' if dg else 'rad'},{int(kro)}{int(cro)}]"
                    for how in hows:
                        yield (lambda chk, *a: part(*a, chk), f"{tag}/{how}", how, mod, mode, typ, dg, kro, cro)
                for attr in ACCESSORS:
                    yield (accessor, f"{tag}/accessor.{attr}", mod, attr, mode, typ, dg, False, False)
                for name, op in {**basic(), **derived(), **updates()}.items():
                    if "=array" in name or "(array" in name or "block" in name and "array" in name:
                        if typ == "mean" or name in basic():
                            yield (assigned, f"{tag}/assigned.{name}", mod, op, mode, typ, dg)
    for mode in ("direct", "lazy"):
        for how in hows:
            single = lambda chk, *a: part(*a, chk, dtype=S.rnp.float32)
            yield (single, f"{mode}[mean,rad,single precision]/{how}", how, mod, mode, "mean", False, False, False)
    yield (loop_end, "iteration-end", mod)


METHODS = ["Orbit.__copy__", "Orbit.copy", "Orbit.__getitem__", "Orbit.__iter__", "Orbit.__len__", "Orbit.__init__"]

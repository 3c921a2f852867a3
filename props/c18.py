"""adding, deleting, allocating"""
from .orbops import *
from . import zero

SHARDS = 7


def run(chk):
    mod = setup(chk)
    chk.under_contract(mod, *METHODS)
    for job in chk.mine(list(jobs(mod, chk.tier != "quick")) + list(zero.jobs(mod, "C18"))):
        chk.guard(job[1], job[0], chk, *job[1:])


def aligned(chk, name, orb, dim):
    """all per-orbit data have the reported number of orbits as length"""
    bad = []
    for n, v in vars(orb).items():
        if isinstance(v, S.SymArray) and not same_dims(v.dims[-1:], (dim,)):
            bad.append((n, v.dims))
    chk.expect(f"{name}/aligned", not bad, f"{bad} instead of {dim}")
    k = orb.num
    want = dim.length if isinstance(dim, Axis) else T.iconst(dim)
    chk.expect(f"{name}/num", (S.to_term(k) if not isinstance(k, int) else T.iconst(k)) is want, f"{k}")


def new_axis_of(num, ax):
    """what is added: (argument, axis of the new orbits, their number)"""
    if num == "K":
        k = CTX.new_axis("K", minlen=1)
        return {"num": S.SymInt(k.length)}, k, k.length
    if num == "default":
        return {}, None, T.iconst(1)
    return {"num": num}, None, T.iconst(num)


def add(chk, name, mod, mode, typ, dg, num, how, vk, mk):
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg)
        before = State(orb)
        nkw, k, n = new_axis_of(num, ax)
        els_ax = k or ax
        kw, rep, els = element_args(how, els_ax, vk)
        mkw, m = mass_arg(mk, els_ax)
        orb.add(**nkw, **kw, **mkw)
        return ax, k, n, orb, before, State(orb), rep, els, m
    for pn, p in run_op(chk, name, thunk):
        ax, k, n, orb, before, after, rep, els, m = p.result
        fs = facts_of(p)
        cat = vars(orb)["m"].dims[0]
        ok = isinstance(cat, Axis) and cat.length is T.add(ax.length, n)
        chk.expect(f"{pn}/appended", ok, f"{cat}")
        if not ok:
            continue
        aligned(chk, pn, orb, cat)
        invariant(chk, pn, after, fs + subst_facts(fs, ax, cat))
        old = T.lt(cat.index, ax.length)
        # the orbits that were there
        pos = {ax.index: cat.index}
        fo = fs + subst_facts(fs, ax, cat) + [old]
        kept(chk, f"{pn}/kept", before, after, pos, fo, mode)
        # the new ones
        new = T.not_(old)
        if k is not None:
            pos2 = {k.index: T.sub(cat.index, ax.length)}
            at2 = lambda t: E(T.subst(tm(t), pos2))
        else:
            at2 = lambda t: t
        fn = fs + ([T.subst(f, pos2) for f in fs] if k is not None else [])
        check_new(chk, f"{pn}/new", after, rep, {j: at2(v) for j, v in els.items()}, at2(m), fn, new, mode == "manual")


def add_none(chk, name, mod, mode, typ, dg, kw_of):
    """adding no orbits changes nothing"""
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg)
        before = State(orb)
        orb.add(num=0, **kw_of())
        return ax, orb, before, State(orb)
    for pn, p in run_op(chk, name, thunk):
        ax, orb, before, after = p.result
        fs = facts_of(p)
        dim = vars(orb)["m"].dims[0]
        ok = isinstance(dim, Axis) and (dim is ax or dim.length is ax.length)
        chk.expect(f"{pn}/number", ok, f"{dim} instead of {ax}")
        aligned(chk, pn, orb, ax)
        if ok:
            kept(chk, f"{pn}/kept", before, after, {ax.index: dim.index}, fs, mode)


def kept(chk, name, before, after, pos, fo, mode):
    """the orbits that were there stand for the same elements and masses"""
    at = lambda t: E(T.subst(tm(t), pos))
    equal(chk, f"{name}.m", after.m, at(before.m), fo)
    if mode == "lazy":
        old, new = [x for v in before.view() for x in v], [x for v in after.view() for x in v]
    else:
        old, new = before.kep + before.cart, after.kep + after.cart
        chk.prove(f"{name}.pending", T.and_(T.iff(after.kc, T.subst(before.kc, pos)), T.iff(after.cc, T.subst(before.cc, pos))), fo, backend="z3")
    compare(chk, name, new, [at(x) for x in old], fo, names=KN + CN)


def subst_facts(fs, ax, cat):
    pos = {ax.index: cat.index}
    n = T.lt(cat.index, ax.length)
    return [T.implies(n, T.subst(f, pos)) for f in fs]


def failing_add(chk, name, mod, mode, typ, dg, num, kw_of, exc, kro, cro):
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg, kro, cro)
        before = State(orb)
        nkw, k, n = new_axis_of(num, ax)
        raised = None
        try:
            orb.add(**nkw, **kw_of(k or ax))
        except exc as e:
            raised = e
        return ax, orb, before, raised, State(orb)
    for pn, p in run_op(chk, name, thunk):
        ax, orb, before, raised, after = p.result
        fs = facts_of(p)
        chk.expect(f"{pn}/refused", raised is not None, f"no {exc.__name__}")
        dim = vars(orb)["m"].dims[0]
        ok = isinstance(dim, Axis) and solver_equal(dim, ax, fs)
        chk.expect(f"{pn}/number-restored", ok, f"{dim} instead of {ax}")
        bad = [(n, v.dims) for n, v in vars(orb).items() if isinstance(v, S.SymArray) and not same_dims(v.dims[-1:], (dim,))]
        chk.expect(f"{pn}/aligned", not bad, f"{bad}")
        if not ok:
            continue
        # positions 0 <= j < N are all that is left, in order
        pos = {ax.index: dim.index}
        fo = fs + [T.subst(f, pos) for f in fs] + [dim.cond] + subst_facts(fs, ax, dim)
        kept(chk, f"{pn}/kept", before, after, pos, fo, mode)


def solver_equal(dim, ax, fs):
    """the selection dim of an appended axis consists of the first len(ax) positions"""
    root = dim.root
    inside = [T.le(T.iconst(0), root.index), T.lt(root.index, root.length), T.le(ax.length, root.length)]
    return CTX.solver.valid(inside + fs, T.iff(dim.cond, T.lt(root.index, ax.length)))


def delete(chk, name, mod, mode, typ, dg, sel):
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg)
        before = State(orb)
        if sel == "negative int":
            k = T.sym("k_sel", "I")
            CTX.pc.extend([T.le(T.neg(ax.length), k), T.lt(k, T.iconst(0))])
            s, cond = S.SymInt(k), T.eq(ax.index, T.add(k, ax.length))
        else:
            s, cond, _ = selection(sel, ax)
        orb.delete(s)
        want = CTX.compress(ax, T.not_(cond))
        return orb, before, State(orb), cond, want
    for pn, p in run_op(chk, name, thunk):
        orb, before, after, cond, want = p.result
        fs = facts_of(p)
        aligned(chk, pn, orb, vars(orb)["m"].dims[0])
        chk.expect(f"{pn}/remaining", same_dims(after.dims[2], (want,)), f"{after.dims[2]} instead of {want}")
        invariant(chk, pn, after, fs)
        compare(chk, f"{pn}/kept", after.kep + after.cart, before.kep + before.cart, fs, T.not_(cond), names=KN + CN)
        equal(chk, f"{pn}/kept.m", after.m, before.m, fs + [T.not_(cond)])
        chk.prove(f"{pn}/kept.pending", T.implies(T.not_(cond), T.and_(T.iff(after.kc, before.kc), T.iff(after.cc, before.cc))), fs, backend="z3")
        chk.expect(f"{pn}/settings", (orb.type, bool(orb.direct_update), bool(orb.auto_update)) == (typ,) + MODES[mode], "settings changed")


def allocate(chk, name, mod, mode, typ, dg):
    def thunk():
        ax = CTX.new_axis("N")
        orb = make(mod, ax, mode, typ, dg)
        k = CTX.new_axis("K")
        orb.allocate(S.SymInt(k.length))
        return orb, k, State(orb)
    for pn, p in run_op(chk, name, thunk):
        orb, k, st = p.result
        fs = facts_of(p)
        aligned(chk, pn, orb, k)
        equal(chk, f"{pn}/m", st.m, C(0), fs)
        for j in range(6):
            chk.expect(f"{pn}/unset.{KN[j]}", st.kep[j].t is T.NAN, f"{st.kep[j]}")
            chk.expect(f"{pn}/unset.{CN[j]}", st.cart[j].t is T.NAN, f"{st.cart[j]}")
        chk.expect(f"{pn}/flags", st.kc is T.FALSE and st.cc is T.FALSE, f"{st.kc} {st.cc}")
        chk.expect(f"{pn}/settings", (orb.type, bool(orb.direct_update), bool(orb.auto_update)) == (typ,) + MODES[mode], "settings changed")


def jobs(mod, full=False):
    for mode in MODES:
        for typ in TYPES:
            for dg in (False, True):
                tag = f"{mode}[{typ},{'deg' if dg else 'rad'}]"
                for sel in SELECTIONS + ("negative int",):
                    yield (delete, f"{tag}/delete({sel})", mod, mode, typ, dg, sel)
                yield (allocate, f"{tag}/allocate", mod, mode, typ, dg)
                none = lambda *ns: (lambda: {n: num_(V("val_" + n)) for n in ns})
                for ns in ((), ("m",), ("a",), ("e", "i", "m"), ("x",), ("vx", "vy")):
                    yield (add_none, f"{tag}/add(0,{','.join(ns)})", mod, mode, typ, dg, none(*ns))
                for n in ("kepler", "cartesian"):
                    yield (add_none, f"{tag}/add(0,{n} vector)", mod, mode, typ, dg,
                           lambda n=n: {n: S.from_terms([tm(V(f"val_{j}")) for j in range(6)], (6,), S.F64)})
                    yield (add_none, f"{tag}/add(0,{n} empty)", mod, mode, typ, dg,
                           lambda n=n: {n: S.from_terms([], (6, 0), S.F64)})
                for num in ("K", "default", 1):
                    for how in ("kep", "cart", "kepler", "cartesian", "none"):
                        for vk in ("scalar", "array") if num == "K" else ("scalar",):
                            for mk in ("none", "scalar", "array") if num == "K" else ("none", "scalar"):
                                if not full and mode == "lazy" and (typ, dg) != ("mean", True) and \
                                        (mk != ("array" if num == "K" else "scalar") or how in ("kepler", "cartesian")):
                                    continue
                                yield (add, f"{tag}/add({num},{how},{vk},m={mk})", mod, mode, typ, dg, num, how, vk, mk)
                for num in ("K", "default"):
                    z = lambda *ns: (lambda ax: {n: num_(V("val_" + n)) for n in ns})
                    yield (failing_add, f"{tag}/rejected-add({num},kepler read-only)", mod, mode, typ, dg, num, z("a", "m"), AttributeError, True, False)
                    yield (failing_add, f"{tag}/rejected-add({num},cartesian read-only)", mod, mode, typ, dg, num, z("vx"), AttributeError, False, True)
                    yield (failing_add, f"{tag}/rejected-add({num},mixed)", mod, mode, typ, dg, num, z("a", "x", "m"), ValueError, False, False)
                    for n in ("kepler", "cartesian"):
                        yield (failing_add, f"{tag}/rejected-add({num},{n} read-only block)", mod, mode, typ, dg, num,
                               lambda ax, n=n: {n: value("val", "array", ax, 6)[0]}, AttributeError, n == "kepler", n != "kepler")


num_ = num
METHODS = ["Orbit.add", "Orbit.delete", "Orbit.allocate", "Orbit.num", "Orbit.update", "Orbit.calculate_cartesian", "Orbit.calculate_kepler"]

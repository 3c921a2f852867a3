"""Loads the real source of /repo for symbolic execution.

The text is read from disk on every run and transformed mechanically:
  * float literals become exact rationals, int/int division stays exact;
  * `for`/`while` statements get the loop protocol of LoopBase below (native
    execution for concrete loops, one generic iteration for loops over a
    symbolic axis, cut point with invariants for everything else);
  * numpy, math, sys and the builtins that look at numbers are replaced.
Nothing else is changed and no statement is dropped (docstrings included)."""
import ast
import builtins
import copy as _copy
import numbers
import os
import types
from fractions import Fraction

from . import symnp as S
from . import state
from . import symseq as Q
from . import terms as T
from .ctx import CTX, Axis, PathEnd, Restart, Unsupported

REPO = os.environ.get("PYORB_REPO", "/repo")
NPMOD = S.NP()


# ---------------------------------------------------------------- AST transform
class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        for g in node.generators:
            self.visit(g.iter)

    visit_SetComp = visit_GeneratorExp = visit_ListComp


def assigned(stmts):
    v = _Assigned()
    for s in stmts:
        v.visit(s)
    return v.names


class _Loads(ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_Name(self, node):
        self.names.add(node.id)


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.n = 0
        self.func = []

    def visit_FunctionDef(self, node):
        self.func.append(node.name)
        node = self.generic_visit(node)
        self.func.pop()
        for a, f in ((node.args.vararg, "_dv_varargs_"), (node.args.kwarg, "_dv_kwargs_")):
            if a is not None:       # argument lists of any length
                doc = isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str)
                node.body.insert(int(doc), ast.copy_location(ast.Assign([ast.Name(a.arg, ast.Store())], _call(f, [ast.Name(a.arg, ast.Load())])), node))
        return node

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.copy_location(_call("_dv_lit_", [ast.Constant(repr(node.value))]), node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(_call("_dv_div_", [node.left, node.right]), node)
        return node

    def visit_GeneratorExp(self, node):
        return self._comprehension(node, "_dv_gen_")

    def visit_ListComp(self, node):
        return self._comprehension(node, "_dv_listcomp_")

    def _comprehension(self, node, name):
        node = self.generic_visit(node)
        g = node.generators[0]
        if len(node.generators) != 1 or g.ifs or g.is_async or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node)):
            return node
        a = _noargs()
        if isinstance(g.target, ast.Name):
            a.args = [ast.arg(g.target.id)]
            f = ast.Lambda(a, node.elt)
        elif isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts):
            a.args = [ast.arg(x.id) for x in g.target.elts]
            b = _noargs()
            b.args = [ast.arg("_dv_item_")]
            f = ast.Lambda(b, ast.Call(ast.Lambda(a, node.elt), [ast.Starred(ast.Name("_dv_item_", ast.Load()), ast.Load())], []))
        else:
            return node
        return ast.copy_location(_call(name, [g.iter, f]), node)

    def visit_List(self, node):
        node = self.generic_visit(node)
        if self.func and isinstance(node.ctx, ast.Load) and not node.elts:
            return ast.copy_location(_call("_dv_list_", []), node)
        return node

    def _lambdas(self, names):
        return [ast.Lambda(_noargs(), ast.Name(n, ast.Load())) for n in names]

    def visit_For(self, node):
        node = self.generic_visit(node)
        self.n += 1
        lid = f"{self.modname}.{'.'.join(self.func)}#{self.n}"
        var = f"_dv_loop{self.n}_"
        names = assigned(node.body) + [n for n in assigned([ast.Expr(node.target)]) if n not in assigned(node.body)]
        body_names = [n for n in names]
        L = ast.Name(var, ast.Load())
        out = [ast.Assign([ast.Name(var, ast.Store())],
                          _call("_dv_for_", [ast.Constant(lid), node.iter, _call("locals", [])]))]

        def attr(a, args):
            return ast.Call(ast.Attribute(L, a, ast.Load()), args, [])

        native = ast.For(node.target, attr("native", []), node.body, node.orelse)
        poison = [ast.Assign([ast.Name(n, ast.Store())], attr("poison", [ast.Constant(n)])) for n in body_names]
        col = _cp(poison) + [ast.For(_cp(node.target), attr("once", []), _cp(node.body),
                                     [ast.Expr(attr("completed", [_call("locals", [])]))]),
                             ast.Expr(attr("after", []))] + _cp(poison) + _cp(node.orelse)
        hav = [ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())],
                          attr("havoc", [ast.Constant(tuple(names))] + self._lambdas(names)))] if names else []
        cut = hav + [ast.For(_cp(node.target), attr("iterate", self._lambdas(names)), _cp(node.body), _cp(node.orelse))]
        out.append(ast.If(_eqmode(L, "native"), [native], [ast.If(_eqmode(L, "column"), col, cut)]))
        return [ast.copy_location(s, node) for s in out]

    def visit_While(self, node):
        node = self.generic_visit(node)
        self.n += 1
        lid = f"{self.modname}.{'.'.join(self.func)}#{self.n}"
        var = f"_dv_loop{self.n}_"
        names = assigned(node.body) + [n for n in assigned([ast.Expr(node.test)])]
        L = ast.Name(var, ast.Load())

        def attr(a, args):
            return ast.Call(ast.Attribute(L, a, ast.Load()), args, [])

        cond = ast.Lambda(_noargs(), node.test)
        out = [ast.Assign([ast.Name(var, ast.Store())],
                          _call("_dv_while_", [ast.Constant(lid), _cp(cond), _call("locals", [])]))]
        native = ast.While(attr("native", [_cp(cond)]), node.body, node.orelse)
        hav = [ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())],
                          attr("havoc", [ast.Constant(tuple(names))] + self._lambdas(names)))] if names else []
        cut = hav + [ast.While(attr("head", [_cp(cond)] + self._lambdas(names)), _cp(node.body), _cp(node.orelse))]
        rest = cut
        count = _counter(node)
        if count is not None:
            i, bound = count
            out[0].value.args.extend([ast.Lambda(_noargs(), ast.Name(i, ast.Load())), ast.Lambda(_noargs(), _cp(bound))])
            others = [n for n in names if n != i]
            poison = [ast.Assign([ast.Name(n, ast.Store())], attr("poison", [ast.Constant(n)])) for n in others]
            col = _cp(poison) + [ast.For(ast.Name(i, ast.Store()), attr("once", []), _cp(node.body[:-1]) or [ast.Pass()],
                                         [ast.Expr(attr("completed", [_call("locals", [])]))]),
                                 ast.Expr(attr("after", [])), ast.Assign([ast.Name(i, ast.Store())], attr("bound", []))] + _cp(poison) + _cp(node.orelse)
            rest = [ast.If(_eqmode(L, "column"), col, cut)]
        out.append(ast.If(_eqmode(L, "native"), [native], rest))
        return [ast.copy_location(s, node) for s in out]


def _counter(node):
    """(counter, bound) of a loop `while i < n: ...; i += 1`"""
    t = node.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.Gt)) and len(node.body)):
        return None
    i, n = (t.left, t.comparators[0]) if isinstance(t.ops[0], ast.Lt) else (t.comparators[0], t.left)
    if not isinstance(i, ast.Name):
        return None
    last = node.body[-1]
    one = lambda x: isinstance(x, ast.Constant) and x.value == 1
    mine = lambda x: isinstance(x, ast.Name) and x.id == i.id
    steps = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and mine(last.target) and one(last.value) or \
        isinstance(last, ast.Assign) and len(last.targets) == 1 and mine(last.targets[0]) and isinstance(last.value, ast.BinOp) and \
        isinstance(last.value.op, ast.Add) and (mine(last.value.left) and one(last.value.right) or one(last.value.left) and mine(last.value.right))
    body = node.body[:-1]
    inside = [x for s in body for x in ast.walk(s)]
    if not steps or i.id in assigned(body) or any(isinstance(x, ast.Continue) for x in inside):
        return None
    return i.id, n


def _cp(x):
    return _copy.deepcopy(x)


def _noargs():
    return ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])


def _call(name, args):
    return ast.Call(ast.Name(name, ast.Load()), args, [])


def _eqmode(L, m):
    return ast.Compare(ast.Attribute(L, "mode", ast.Load()), [ast.Eq()], [ast.Constant(m)])


# ---------------------------------------------------------------- loop protocol
class Invariants:
    """surviving invariant candidates per loop (Houdini), kept over re-executions"""
    dropped = {}      # loop id -> set of candidate keys
    seen = {}         # loop id -> set of keys ever proposed
    learned = {}      # loop id -> {key: (variable, its value, {placeholder: variable})}
    grows = {}        # (loop id, name): elements that this list gains per iteration of a loop over all columns
    cut = set()       # loops that have to be cut although their condition is known at entry

    @classmethod
    def clear(cls):
        cls.dropped = {}
        cls.seen = {}
        cls.learned = {}
        cls.cut = set()
        cls.grows = {}

    @classmethod
    def count(cls):
        return sum(map(len, cls.learned.values()))


UNBOUND = S.Poison("variable not bound before the loop")


class LoopBase:
    def __init__(self, lid, locs):
        self.lid = lid
        self.locs = dict(locs)
        self.entry_cond = None
        self.names = ()

    def poison(self, n):
        return S.Poison(f"value of '{n}' carried over iterations of the loop {self.lid}")

    # -------------------------------------------------- cut points
    def havoc(self, names, *getters):
        self.names = names
        self.entry = {}
        for n, g in zip(names, getters):
            try:
                self.entry[n] = g()
            except NameError:
                self.entry[n] = UNBOUND
        self.cur = {}
        for n in names:
            v = self.entry[n]
            if isinstance(v, S.Poison):
                self.cur[n] = v
            elif isinstance(v, bool) or isinstance(v, S.SymBool):
                self.cur[n] = S.SymBool(CTX.fresh(f"hv_{n}", "B"), None)
            elif isinstance(v, int) or isinstance(v, S.SymInt):
                self.cur[n] = S.SymInt(CTX.fresh(f"hv_{n}", "I"), getattr(v, "dtype", None))
            elif isinstance(v, (S.SymReal, float)):
                self.cur[n] = S.SymReal(CTX.fresh(f"hv_{n}"), getattr(v, "dtype", None))
            elif isinstance(v, types.FunctionType) or v is None:
                self.cur[n] = S.Poison(f"'{n}' at the head of loop {self.lid}")
            elif isinstance(v, S.SymArray) and not v.dims:
                c = S.rnp.empty((), dtype=object)
                c[()] = CTX.fresh(f"hv_{n}", "R" if v.dtype.kind == "f" else ("B" if v.dtype.kind == "b" else "I"))
                self.cur[n] = S.SymArray(c, (), v.dtype)
            else:
                self.cur[n] = S.Poison(f"'{n}' ({type(v).__name__}) modified in loop {self.lid}")
        self.cands = self._candidates()
        dropped = Invariants.dropped.setdefault(self.lid, set())
        Invariants.seen.setdefault(self.lid, set()).update(self.cands)
        ent = {n: _term(v) for n, v in self.entry.items()}
        for key, f in self.cands.items():
            if key not in dropped:
                CTX.oblige(("inv", self.lid, key, "entry"), f(ent))
        cur = {n: _term(v) for n, v in self.cur.items()}
        for key, f in self.cands.items():
            if key not in dropped:
                CTX.pc.append(f(cur))
        vals = [self.cur[n] for n in names]
        self.mark = len(CTX.pc)
        return tuple(vals)

    def _candidates(self):
        c = {}
        ent = {n: _term(v) for n, v in self.entry.items()}
        mod = {n: t for n, t in ent.items() if t is not None and not T.is_const(t) and t.op not in ("true", "false")}
        ints = {}
        for n, v in self.locs.items():
            if n in self.names or n.startswith("_dv_"):
                continue
            if isinstance(v, (int, S.SymInt)) and not isinstance(v, bool):
                ints[n] = S.to_term(v)
        for n, t in ent.items():
            if t is None:
                continue
            others = {u: x for u, x in mod.items() if u != n and x is not t}
            if t.sort != "B" and any(x in set(T.subterms(t)) for x in others.values()):
                def f(vals, n=n, t=t, others=others):
                    if vals.get(n) is None or any(vals.get(u) is None for u in others):
                        return T.FALSE
                    return T.eq(vals[n], T.subst(t, {x: vals[u] for u, x in others.items()}))
                c[("def", n)] = f
            if t.sort == "I":
                c[("ge-entry", n)] = lambda vals, n=n, t=t: T.FALSE if vals.get(n) is None else T.le(t, vals[n])
                def start(vals, n=n, t=t, others=others):
                    if vals.get(n) is None or any(vals.get(u) is None for u in others):
                        return T.FALSE
                    return T.implies(T.eq(vals[n], t), T.and_(*[T.eq(vals[u], x) for u, x in others.items()]))
                c[("start", n)] = start
                if self.entry_cond is not None:
                    c[("entered", n)] = lambda vals, n=n, t=t: T.FALSE if vals.get(n) is None else \
                        T.implies(T.not_(T.eq(vals[n], t)), self.entry_cond)
                for p, pt in ints.items():
                    c[("lt", n, p)] = lambda vals, n=n, pt=pt: T.FALSE if vals.get(n) is None else T.lt(vals[n], pt)
                    c[("le", n, p)] = lambda vals, n=n, pt=pt: T.FALSE if vals.get(n) is None else T.le(vals[n], pt)
            if t.sort == "R":
                c[("nonneg", n)] = lambda vals, n=n: T.FALSE if vals.get(n) is None else T.le(T.ZERO, T.to_real(vals[n]))
                c[("pos", n)] = lambda vals, n=n: T.FALSE if vals.get(n) is None else T.lt(T.ZERO, T.to_real(vals[n]))
        whole = [(n, t) for n, t in ent.items() if t is not None and t.sort == "I"]
        for a, (n, t) in enumerate(whole):
            for u, x in whole[a + 1:]:
                for sign, op in (("+", T.add), ("-", T.sub)):
                    c[("constant", n, sign, u)] = lambda vals, n=n, t=t, u=u, x=x, op=op: \
                        T.FALSE if vals.get(n) is None or vals.get(u) is None else T.eq(op(vals[n], vals[u]), op(t, x))
        together = {}
        for key, (n, t, holes) in Invariants.learned.get(self.lid, {}).items():
            if key[0] in ("when", "unless"):
                together.setdefault((key[0], n), []).append((t, holes))
        for (kind, n), forms in together.items():
            if len(forms) > 1:
                def meaning(vals, n=n, forms=forms, positive=kind == "when"):
                    if vals.get(n) is None or vals[n].sort != "B" or any(vals.get(u) is None for _, hs in forms for u in hs.values()):
                        return T.FALSE
                    now = [T.subst(t, {h: vals[u] for h, u in hs.items()}) for t, hs in forms]
                    return T.implies(vals[n], T.or_(*now)) if positive else T.implies(T.not_(vals[n]), T.not_(T.or_(*now)))
                c[(kind + " any", n, tuple(t for t, _ in forms))] = meaning
        for key, (n, t, holes) in Invariants.learned.get(self.lid, {}).items():
            if key[0] == "ran":
                if n is None and all(ent.get(u) is not None for u in holes.values()):
                    first = T.subst(t, {h: ent[u] for h, u in holes.items()})
                    for v, x in ent.items():
                        if x is not None and x.sort == "I":
                            c[key + (v,)] = lambda vals, v=v, x=x, first=first: T.FALSE if vals.get(v) is None else \
                                T.implies(T.not_(T.eq(vals[v], x)), first)
                continue

            def meaning(vals, n=n, t=t, holes=holes, positive=key[0] == "when"):
                if vals.get(n) is None or vals[n].sort != "B" or any(vals.get(u) is None for u in holes.values()):
                    return T.FALSE
                now = T.subst(t, {h: vals[u] for h, u in holes.items()})
                return T.implies(vals[n], now) if positive else T.implies(T.not_(vals[n]), T.not_(now))
            c[key] = meaning
        self.ints = ints
        return c

    def _learn(self, vals):
        """what a truth value set in the loop says about the other variables"""
        known = Invariants.learned.setdefault(self.lid, {})
        heads = {x for v in self.cur.values() for x in (_term(v),) if x is not None}
        holes, m = {}, {}
        for u, x in sorted(vals.items()):
            if x is not None and x.sort in "RI" and not T.is_const(x) and x not in m:
                h = T.sym(f"_hole_{u}", x.sort)
                holes[h], m[x] = u, h

        def learn(n, t, kinds):
            form = T.subst(t, m)
            left = T.syms_of(form)
            if left & heads or not any(h in left for h in holes):
                return
            for kind in kinds:
                if len(known) < 24:
                    known.setdefault((kind, n, form), (n, form, {h: u for h, u in holes.items() if h in left}))
        for n, t in vals.items():
            if t is None or t.sort != "B" or t.op == "sym":
                continue
            if t is T.TRUE or t is T.FALSE:
                for f in CTX.pc[self.mark:]:
                    if t is T.TRUE:
                        learn(n, f, ("when",))
                    else:
                        learn(n, T.not_(f), ("unless",))
            else:
                learn(n, t, ("when", "unless"))
        # what an iteration that did not leave the loop says about its start
        at = {x: n for n, v in self.cur.items() for x in (_term(v),) if x is not None}
        for f in CTX.pc[self.mark:]:
            used = T.syms_of(f)
            if used & heads and f.op not in ("true", "false") and len(known) < 24:
                holes = {T.sym(f"_hole_{at[x]}", x.sort): at[x] for x in used & heads}
                form = T.subst(f, {x: T.sym(f"_hole_{at[x]}", x.sort) for x in used & heads})
                known.setdefault(("ran", form), (None, form, holes))

    def _backedge(self, getters, variant=True):
        vals = {}
        for n, g in zip(self.names, getters):
            try:
                vals[n] = _term(g())
            except NameError:
                vals[n] = None
        self._learn(vals)
        dropped = Invariants.dropped.get(self.lid, set())
        for key, f in self.cands.items():
            if key not in dropped:
                CTX.oblige(("inv", self.lid, key, "preserved"), f(vals))
        if variant:
            opts = []
            cur = {n: _term(v) for n, v in self.cur.items()}
            for n, t in vals.items():
                if t is None or t.sort != "I" or cur.get(n) is None:
                    continue
                for p, pt in self.ints.items():
                    opts.append(T.and_(T.lt(cur[n], t), T.le(t, pt)))
                opts.append(T.and_(T.lt(t, cur[n]), T.le(T.iconst(0), t)))
            CTX.oblige(("terminates", self.lid), T.or_(*opts) if opts else T.FALSE)
        raise PathEnd("loop back edge")


def _term(v):
    if isinstance(v, S.Poison):
        return None
    if isinstance(v, S.SymArray) and not v.dims:
        return v.cells[()]
    try:
        return S.to_term(v)
    except Unsupported:
        return None


FAMILIES = (Q.Seq, Q.Positions, Q.Names)


class ForLoop(LoopBase):
    def __init__(self, lid, it, locs):
        super().__init__(lid, locs)
        self.it = it = Q.varargs(it)
        self.axis = None
        if isinstance(it, SymRange):
            if it.axis is not None:
                self.mode, self.axis = "column", it.axis
            else:
                self.mode = "cut"
        elif isinstance(it, S.nditer) and it.axis is not None and it.pos == 0:
            self.mode, self.axis = "column", it.axis
        elif isinstance(it, S.ndindex) and it.axis is not None:
            self.mode, self.axis = "column", it.axis
        elif isinstance(it, S.SymArray) and it.dims and isinstance(it.dims[0], Axis):
            self.mode, self.axis = "column", it.dims[0]
        elif isinstance(it, (SymZip, S.ColumnList)) and it.axis is not None:
            self.mode, self.axis = "column", it.axis
        elif isinstance(it, FAMILIES):
            self.mode, self.axis = "column", it.axis
        else:
            self.mode = "native"

    def native(self):
        return self.it

    # -------------------------------------------------- generic column
    def _sizes(self, locs):
        return {n: len(v.items_() if isinstance(v, S.ColumnList) else v) for n, v in locs.items() if isinstance(v, (list, dict, set))}

    def once(self):
        self.sizes = self._sizes(self.locs)
        self.grow = {n: v for n, v in self.locs.items() if isinstance(v, S.ColumnList) and v.axis is None and not v.items_()}
        for v in self.grow.values():
            v.growing = self
        self.done = False
        CTX.loop_mode.append(self.axis)
        CTX.epoch += 1
        CTX.loop_epochs.append(CTX.epoch)
        if self.axis.cond is not T.TRUE:
            self.guard = CTX.branch(self.axis.cond)
            if not self.guard:
                self.done = True
                return
        yield column_element(self.it, self.axis)
        self.done = True

    def completed(self, locs):
        for n, v in self.grow.items():
            v.growing = None
            if locs.get(n) is not v:
                raise Unsupported(f"list replaced in the loop {self.lid}")
            if self.axis.cond is not T.TRUE and not self.guard:
                if Invariants.grows.get((self.lid, n)) != 0:
                    raise Unsupported("list built over a selection of columns")
                continue
            if Invariants.grows.setdefault((self.lid, n), len(v.items_())) != len(v.items_()) or len(v.items_()) > 1:
                raise Unsupported(f"list that grows differently for different columns in the loop {self.lid}")
            if v.items_():
                v.fill(self.axis, v.items_()[0])
        after = self._sizes({n: v for n, v in locs.items() if n in self.sizes and n not in self.grow})
        if after != {n: self.sizes[n] for n in after}:
            raise Unsupported(f"container grows in the loop {self.lid}")

    def after(self):
        CTX.loop_mode.pop()
        CTX.loop_epochs.pop()
        if not self.done:
            raise Unsupported(f"break out of the loop {self.lid} over all columns")

    # -------------------------------------------------- cut point
    def iterate(self, *getters):
        r = self.it
        i = CTX.fresh("iter_" + self.lid.split(".")[-1], "I")
        first, last = r.start, r.stop
        if CTX.branch(T.and_(T.le(first, i), T.lt(i, last))):
            yield S.SymInt(i)
            self._backedge(getters, variant=False)


def dv_gen(it, f):
    """generator expression over one iterable"""
    loop = ForLoop("generator expression", it, {})
    if loop.mode == "native":
        return (f(x) for x in it)
    if loop.mode == "column":
        return ColumnGenerator(loop, it, f)
    raise Unsupported("generator expression over a symbolic range")


class ColumnGenerator:
    """generator of one value per column"""

    def __init__(self, loop, it, f):
        self.loop, self.it, self.f = loop, it, f
        self.running = None

    def _run(self):
        for x in self.loop.once():
            yield self.f(x)
        self.loop.completed({})
        self.loop.after()

    def __iter__(self):
        if self.running is None:
            self.running = self._run()
        return self.running

    def __next__(self):
        return next(iter(self))

    def dv_column_list(self):
        if self.running is not None:
            raise Unsupported("generator read twice")
        self.running = iter(())
        return dv_listcomp(self.it, self.f)


def dv_map(f, *its):
    if any(_axis_of(p) is not None for p in its):
        return dv_gen(its[0] if len(its) == 1 else SymZip(list(its)), f if len(its) == 1 else lambda xs: f(*xs))
    return map(f, *its)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.list) or isinstance(x, Q.Seq) and x.kind is builtins.list

    def __call__(cls, x=()):
        if isinstance(x, ColumnGenerator):
            return x.dv_column_list()
        x = Q.varargs(x)
        if isinstance(x, Q.Seq):
            x = x.copy()
            x.kind = builtins.list
            return x
        if _axis_of(x) is not None:
            return dv_listcomp(x, lambda v: v)
        return S.ColumnList(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.list

    def __hash__(cls):
        return hash(builtins.list)


class FakeList(metaclass=_ListMeta):
    _dv_builtin = "list"


def dv_listcomp(it, f):
    loop = ForLoop("list comprehension", it, {})
    if loop.mode == "native":
        return [f(x) for x in it]
    if loop.mode != "column" or loop.axis.cond is not T.TRUE:
        raise Unsupported("list comprehension over a symbolic range")
    out = S.ColumnList()
    for x in loop.once():
        out.fill(loop.axis, f(x))
    loop.after()
    return out


class WhileLoop(ForLoop):
    def __init__(self, lid, cond, locs, counter=None, bound=None):
        LoopBase.__init__(self, lid, locs)
        if counter is not None:
            start, self.stop = counter(), bound
            stop = bound()
            if isinstance(start, (int, S.SymInt)) and not isinstance(start, bool) and S.to_term(start) is T.iconst(0) and \
                    isinstance(stop, S.SymInt) and not T.is_const(stop.term) and stop.term in CTX.axes:
                self.it = SymRange(stop)
                self.limit, self.axis, self.mode = stop, self.it.axis, "column"
                return
        c = cond()
        if isinstance(c, S.SymArray) and not c.dims:
            c = c[()]
        t = c.term if isinstance(c, S.SymBool) else None
        self.entry_cond = t
        self.mode = "native" if (t is None or t.op in ("true", "false")) and lid not in Invariants.cut else "cut"
        self.count = 0
        self.started = False
        self.open = []

    def native(self, cond):
        self.count += 1
        if self.count > 300:
            raise Unsupported(f"loop {self.lid} runs too long")
        c = cond()
        if isinstance(c, S.SymArray) and not c.dims:
            c = c[()]
        self.open.append(sum(not forced for _, forced in CTX.decisions[:CTX.pos]))
        if self.count > 1 and isinstance(c, S.SymBool) and c.term.op not in ("true", "false") or \
                self.count > 4 and self.open[-1] > self.open[-2] > self.open[-3]:
            # how often it runs depends on the data
            Invariants.cut.add(self.lid)
            raise Restart()
        return bool(c)

    def bound(self):
        if self.stop().term is not self.limit.term:
            raise Unsupported(f"the bound of the loop {self.lid} changes")
        return self.limit

    def head(self, cond, *getters):
        if self.started:
            self._backedge(getters)
        self.started = True
        return bool(cond())


class SymRange:
    """range() with symbolic bounds"""

    def __init__(self, *args):
        a = [S.to_term(x) for x in args]
        for t in a:
            if t.sort != "I":
                raise TypeError("'float' object cannot be interpreted as an integer")
        if len(a) == 3:
            if not (a[2].op == "const" and a[2].args[0] == 1):
                raise Unsupported("range step")
            a = a[:2]
        self.start, self.stop = (T.iconst(0), a[0]) if len(a) == 1 else a
        self.axis = None
        if self.start.op == "const" and self.start.args[0] == 0:
            ax = CTX.axes.get(self.stop)
            self.axis = ax

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic range")

    def __len__(self):
        raise Unsupported("len of a symbolic range")


class SymZip:
    def __init__(self, parts, enum=False, start=0):
        self.parts = parts
        self.enum = enum
        self.axis = None
        for p in parts:
            ax = _axis_of(p)
            if ax is not None:
                if self.axis is not None and not S.axes_equal(ax, self.axis):
                    raise Unsupported("zip over different axes")
                self.axis = ax
        if self.axis is not None:
            for p in parts:
                if _axis_of(p) is None:
                    raise Unsupported("zip of symbolic and concrete iterables")

    def __iter__(self):
        raise Unsupported("native iteration over symbolic columns")


def _axis_of(p):
    if isinstance(p, SymRange):
        return p.axis
    if isinstance(p, (S.nditer, S.ndindex)):
        return p.axis
    if isinstance(p, S.SymArray):
        return p.dims[0] if p.dims and isinstance(p.dims[0], Axis) else None
    if isinstance(p, (SymZip, S.ColumnList) + FAMILIES):
        return p.axis
    return None


def column_element(it, axis):
    if isinstance(it, SymRange):
        return S.SymInt(axis.index)
    if isinstance(it, S.nditer):
        return next(it)
    if isinstance(it, S.ndindex):
        return it.element()
    if isinstance(it, S.SymArray):
        return it[S.SymInt(axis.index)]
    if isinstance(it, S.ColumnList):
        return it.value
    if isinstance(it, FAMILIES):
        return it.element()
    if isinstance(it, SymZip):
        vals = tuple(column_element(p, axis) for p in it.parts)
        if it.enum:
            return (S.SymInt(axis.index), vals[0])
        return vals
    raise Unsupported("loop")


# ---------------------------------------------------------------- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, S.SymReal) and (x.dtype is None or x.dtype == S.F64))

    def __call__(cls, x=0, *a):
        if isinstance(x, S.SymArray):
            x = x.item()
        if isinstance(x, S.Scalar):
            return S.SymReal(T.to_real(x.term))
        if isinstance(x, (int, builtins.float)) and not isinstance(x, bool):
            return S.SymReal(S.to_term(x) if isinstance(x, builtins.float) else T.const(x))
        if isinstance(x, str):
            v = builtins.float(x)
            return S.SymReal(S.to_term(v))
        raise TypeError(f"float() argument must be a string or a real number, not '{type(x).__name__}'")

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class FakeFloat(metaclass=_FloatMeta):
    _dv_builtin = "float"


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, S.SymInt) and x.dtype is None)

    def __call__(cls, x=0, *a):
        if isinstance(x, S.SymInt):
            return S.SymInt(x.term)
        if isinstance(x, (S.SymReal, S.SymArray)):
            t = x.term if isinstance(x, S.SymReal) else x.item().term
            if t.op == "const":
                return builtins.int(t.args[0])
            raise Unsupported("int() of a symbolic real")
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class FakeInt(metaclass=_IntMeta):
    _dv_builtin = "int"


def dv_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(dv_isinstance(x, c) for c in cls)
    if isinstance(cls, S.DTypeProxy):
        cls = cls.real
    if isinstance(cls, type) and issubclass(cls, S.rnp.generic):
        return S.isinstance_np(x, cls)
    if isinstance(x, S.Scalar) and cls in (numbers.Number, numbers.Real, numbers.Complex):
        return True
    if isinstance(x, (S.SymInt,)) and cls is numbers.Integral:
        return True
    if isinstance(x, S.Poison):
        x._die()
    if isinstance(x, Q.Seq) and cls is tuple:
        return x.kind is tuple
    if isinstance(x, Q.Keywords) and cls is dict:
        return True
    return isinstance(x, cls)


def dv_range(*a):
    if any(isinstance(x, S.Scalar) for x in a):
        if all(not isinstance(x, S.Scalar) or (isinstance(x, S.SymInt) and T.is_const(x.term)) for x in a):
            return range(*[x.__index__() for x in a])
        return SymRange(*a)
    return range(*a)


def dv_len(x):
    x = Q.varargs(x)
    if hasattr(type(x), "dv_len"):
        return x.dv_len()
    ln = getattr(type(x), "__len__", None)
    if ln is not None and not isinstance(x, (str, list, tuple, dict, set, range)):
        return ln(x)
    return len(x)


def dv_abs(x):
    return abs(x)


def dv_min(*a, **k):
    if len(a) == 1 and not k:
        a = list(a[0])
    if any(isinstance(x, (S.Scalar, S.SymArray)) for x in a):
        r = a[0]
        for x in a[1:]:
            r = S.NPMIN(r, x)
        return r
    return min(*a, **k) if len(a) > 1 else a[0]


def dv_max(*a, **k):
    if len(a) == 1 and not k:
        a = list(a[0])
    if any(isinstance(x, (S.Scalar, S.SymArray)) for x in a):
        r = a[0]
        for x in a[1:]:
            r = S.NPMAX(r, x)
        return r
    return max(*a, **k) if len(a) > 1 else a[0]


def dv_sum(x, start=0):
    r = start
    for v in x:
        r = r + v
    return r


def _minmax(f):
    def g(a, b):
        if isinstance(a, (S.SymInt, int)) and isinstance(b, (S.SymInt, int)):
            c = T.lt(S.to_term(b), S.to_term(a)) if f == "min" else T.lt(S.to_term(a), S.to_term(b))
            return S.py_scalar(T.ite(c, S.to_term(b), S.to_term(a)))
        return S.UFunc("minimum" if f == "min" else "maximum")(a, b)
    return g


S.NPMIN, S.NPMAX = _minmax("min"), _minmax("max")


def dv_zip(*parts, **k):
    if any(_axis_of(p) is not None for p in parts):
        return SymZip(list(parts))
    return zip(*parts, **k)


def dv_enumerate(p, start=0):
    p = Q.varargs(p)
    if _axis_of(p) is not None:
        if start != 0:
            raise Unsupported("enumerate start")
        return SymZip([p], enum=True)
    return enumerate(p, start)


def dv_lit(s):
    return S.SymReal(T.const(Fraction(s)))


def dv_div(a, b):
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return S.SymReal(T.const(Fraction(a, b)))
    if isinstance(a, S.Scalar) and a.dtype is None or isinstance(a, int):
        if isinstance(b, S.SymReal) and b.dtype is None and b.term is T.ZERO:
            raise ZeroDivisionError("division by zero")
    return a / b


def dv_round(x, n=None):
    raise Unsupported("round")


def dv_pow(a, b, *m):
    if m:
        return pow(a, b, *m)
    return a ** b


def dv_print(*a, **k):
    CTX.events.append(("print",))


class _Math:
    def __init__(self):
        self.pi = S.SymReal(T.PI)
        self.e = S.SymReal(T.sym("EULER"))
        self.inf = S.SymReal(T.INF)
        self.nan = S.SymReal(T.NAN)
        self.tau = S.SymReal(T.mul(T.const(2), T.PI))
        names = {"sin": "sin", "cos": "cos", "tan": "tan", "sqrt": "sqrt", "sinh": "sinh", "cosh": "cosh",
                 "tanh": "tanh", "atan": "arctan", "acos": "arccos", "asin": "arcsin", "atanh": "arctanh",
                 "atan2": "arctan2", "log": "log", "exp": "exp", "fabs": "absolute", "radians": "radians",
                 "degrees": "degrees", "hypot": "hypot", "isnan": "isnan", "copysign": "copysign", "cbrt": "cbrt",
                 "pow": "power", "asinh": "arcsinh", "isfinite": "isfinite", "acosh": "arccosh"}
        for m, n in names.items():
            setattr(self, m, self._wrap(n))

    @staticmethod
    def _wrap(n):
        def f(*xs):
            ts = []
            for x in xs:
                if isinstance(x, S.SymArray):
                    if x.cells.size != 1 or any(isinstance(d, Axis) for d in x.dims):
                        raise TypeError("only length-1 arrays can be converted to Python scalars")
                    x = x.item()
                ts.append(T.to_real(S.to_term(x)))
            return S.py_scalar(S.TERMS[n](*ts))
        return f

    def __getattr__(self, n):
        raise Unsupported(f"math.{n}")


# ---------------------------------------------------------------- module loading
REAL_OK = {"copy", "functools", "itertools", "operator", "warnings", "typing", "numbers", "collections", "re",
           "string", "contextlib", "enum", "dataclasses", "abc", "types", "logging", "fractions", "__future__",
           "collections.abc", "inspect", "textwrap"}


class Package(types.ModuleType):
    pass


class Loader:
    def __init__(self, stubs=None, repo=None):
        self.repo = repo or REPO
        state.LOADERS.append(self)
        self.modules = {}
        self.stubs = stubs or {}        # {"pyorb.kepler": {"name": callable}}
        self.sources = {}
        self.sys = types.SimpleNamespace(modules=self.modules, version_info=(3, 12, 3), maxsize=2 ** 63 - 1,
                                         stderr=None, stdout=None,
                                         float_info=types.SimpleNamespace(epsilon=S.SymReal(T.const(Fraction(2) ** -52))))
        self.math = _Math()
        b = dict(vars(builtins))
        b.update(__import__=self._import, isinstance=dv_isinstance, float=FakeFloat, int=FakeInt, range=dv_range,
                 len=dv_len, abs=dv_abs, min=dv_min, max=dv_max, sum=dv_sum, print=dv_print, zip=dv_zip,
                 enumerate=dv_enumerate, map=dv_map, list=FakeList, round=dv_round, pow=dv_pow,
                 _dv_lit_=dv_lit, _dv_div_=dv_div, _dv_for_=ForLoop, _dv_gen_=dv_gen, _dv_listcomp_=dv_listcomp, _dv_list_=S.ColumnList, _dv_while_=WhileLoop, _dv_varargs_=Q.varargs, _dv_kwargs_=Q.kwargs)
        for bad in ("open", "eval", "exec", "input", "compile"):
            b[bad] = self._forbidden(bad)
        self.builtins = b
        pkg = Package("pyorb")
        pkg.__path__ = [os.path.join(self.repo, "pyorb")]
        self.pkg = pkg
        self.modules["pyorb"] = pkg

    @staticmethod
    def _forbidden(n):
        def f(*a, **k):
            raise Unsupported(f"builtin {n}")
        return f

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name == "pyorb":
            return self.pkg
        if not name.startswith("pyorb."):
            raise Unsupported(f"import of {name}")
        base = os.path.join(self.repo, *name.split("."))
        path = base + ".py" if os.path.exists(base + ".py") else os.path.join(base, "__init__.py")
        if not os.path.exists(path):
            raise ImportError(name)
        with open(path) as fh:
            src = fh.read()
        self.sources[name] = (path, src)
        tree = Transform(name.split(".")[-1]).visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        mod = types.ModuleType(name)
        mod.__dict__["__builtins__"] = self.builtins
        mod.__file__ = path
        mod.__package__ = name.rsplit(".", 1)[0]
        self.modules[name] = mod
        exec(compile(tree, path, "exec"), mod.__dict__)
        for k, v in self.stubs.get(name, {}).items():
            mod.__dict__.setdefault("_dv_orig_" + k, mod.__dict__.get(k))
            mod.__dict__[k] = v
        res = self.modules[name]
        setattr(self.pkg, name.split(".")[-1], res)
        self.modules[name] = res
        return res

    def run_init(self):
        """execute the package __init__ as well (its names become attributes)"""
        path = os.path.join(self.repo, "pyorb", "__init__.py")
        with open(path) as fh:
            src = fh.read()
        tree = ast.fix_missing_locations(Transform("__init__").visit(ast.parse(src, path)))
        self.pkg.__dict__["__builtins__"] = self.builtins
        self.pkg.__dict__["__package__"] = "pyorb"
        exec(compile(tree, path, "exec"), self.pkg.__dict__)
        return self.pkg

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rsplit(".", 1)[0]
            for _ in range(level - 1):
                pkg = pkg.rsplit(".", 1)[0]
            full = pkg + ("." + name if name else "")
        else:
            full = name
        if full == "pyorb" or full.startswith("pyorb."):
            mod = self.load(full)
            if fromlist and full == "pyorb":
                for f in fromlist:
                    if not hasattr(mod, f):
                        try:
                            setattr(mod, f, self.load(f"pyorb.{f}"))
                        except (ImportError, Unsupported):
                            pass
            return mod if fromlist or level else self.pkg
        if full == "numpy" or full.startswith("numpy."):
            if full == "numpy.linalg" and fromlist:
                return NPMOD.linalg
            return NPMOD
        if full == "math":
            return self.math
        if full == "sys":
            return self.sys
        if full in REAL_OK:
            return builtins.__import__(name, None, None, fromlist, 0)
        raise Unsupported(f"import of {full}")

"""Execution context shared by the symbolic numpy and the path explorer."""
from . import terms as T


class Unsupported(Exception):
    """the code left the subset the verifier understands"""


class Restart(BaseException):
    """a loop turned out to need another treatment: explore from the start"""


class PathEnd(BaseException):
    """the current path ends here (infeasible, or cut at a loop head)"""


class Axis:
    """an array axis of symbolic length with one generic index.

    root axes have their own index symbol; compressed axes (selections) share
    the index of their root and carry the membership condition."""

    def __init__(self, name, length, index, root=None, cond=T.TRUE, start=None, parts=()):
        self.name = name
        self.parts = parts      # the axes that a product axis runs over in C order
        self.length = length
        self.index = index
        self.root = root or self
        self.cond = cond
        self.start = start      # for contiguous selections: first index in root

    def __repr__(self):
        return f"<axis {self.name}>"


SINGLE = Axis("single", T.iconst(1), T.iconst(0))


class Context:
    def __init__(self):
        self.reset([])
        self.solver = None

    def reset(self, decisions):
        self.decisions = list(decisions)
        self.pos = 0
        self.taken = []          # (term, value, forced)
        self.pc = []             # facts of this path
        self.forall = []         # facts for every column index (term, index sym)
        self.obls = []           # obligations met on the way
        self.counter = {}
        self.axes = {}           # length term -> Axis
        self.compressed = {}     # (root, cond) -> Axis
        self.concats = {}
        self.products = {}       # axes -> product axis
        self.events = []
        self.assume = []         # preconditions
        self.forks = 0
        self.loop_mode = []
        self.loop_epochs = []
        self.epoch = 0
        self.isclose_hook = None

    def fresh(self, base, sort="R"):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return T.sym(f"{base}!{n}" if n else base, sort)

    # ------------------------------------------------------------ axes
    def new_axis(self, name, minlen=0):
        length = T.sym(f"len_{name}", "I")
        index = T.sym(f"J_{name}", "I")
        ax = Axis(name, length, index)
        self.axes[length] = ax
        self.pc.append(T.le(T.iconst(0), index))
        self.pc.append(T.lt(index, length))
        if minlen:
            self.pc.append(T.le(T.iconst(minlen), length))
        return ax

    def axis_of_length(self, length):
        ax = self.axes.get(length)
        if ax is None:
            if length.op == "const":
                raise Unsupported("constant length axis")
            index = T.sym(f"J_{len(self.axes)}", "I")
            ax = Axis(f"ax{len(self.axes)}", length, index)
            self.axes[length] = ax
            self.pc.append(T.le(T.iconst(0), index))
            self.pc.append(T.lt(index, length))
        return ax

    def product(self, axes):
        """the axis of all index combinations of several axes, in C order. Cells over it are given in terms of the
        indices of the factors, so positions along the product itself have no meaning here (SymArray refuses them)"""
        axes = tuple(axes)
        if len(axes) == 1:
            return axes[0]
        if any(a.parts for a in axes):
            raise Unsupported("product of product axes")
        ax = self.products.get(axes)
        if ax is None:
            length = axes[0].length
            for a in axes[1:]:
                length = T.mul(length, a.length)
            index = T.sym("J_" + "x".join(a.name for a in axes), "I")
            ax = Axis("x".join(a.name for a in axes), length, index, parts=axes)
            if any(a.cond is not T.TRUE for a in axes):
                ax.cond = T.and_(*[a.cond for a in axes])
            T.BOUND[index] = frozenset(a.index for a in axes)
            self.products[axes] = ax
            self.axes[length] = ax
            self.pc.append(T.le(T.iconst(0), index))
            self.pc.append(T.lt(index, length))
        return ax

    def compress(self, axis, cond, start=None):
        cond = T.and_(axis.cond, cond)
        root = axis.root
        if cond is T.TRUE and root is not SINGLE:
            return root
        key = (root, cond)
        ax = self.compressed.get(key)
        if ax is None:
            for (r, c), other in self.compressed.items():
                if r is root and self.equivalent(c, cond):
                    self.compressed[key] = other
                    return other
            length = count_term(root, cond)
            ax = Axis(f"{root.name}[{T.pretty(cond, 3)}]", length, root.index, root, cond, start)
            self.compressed[key] = ax
            self.axes[length] = ax
        return ax

    def equivalent(self, a, b):
        if a is b:
            return True
        if self.solver is None:
            return False
        return self.solver.valid_quick(self.facts(), T.and_(T.implies(a, b), T.implies(b, a)))

    def facts(self):
        return self.assume + self.pc

    # ------------------------------------------------------------ branching
    def branch(self, cond):
        """decide a symbolic condition on this path"""
        if cond is T.TRUE:
            return True
        if cond is T.FALSE:
            return False
        for t, v in self.taken:
            if t is cond:
                return v
        if self.pos < len(self.decisions):
            v, forced = self.decisions[self.pos]
        else:
            v, forced = self._decide(cond)
            self.decisions.append((v, forced))
        self.pos += 1
        self.taken.append((cond, v))
        self.add_fact(cond if v else T.not_(cond))
        return v

    def _decide(self, cond):
        if self.pos > 400:
            raise Unsupported("too many decisions on one path")
        facts = self.facts()
        for tr in self.taken_consequences(cond):
            return tr, True
        can_t = self.solver.feasible(facts + [cond])
        if not can_t:
            return False, True
        can_f = self.solver.feasible(facts + [T.not_(cond)])
        if not can_f:
            return True, True
        return True, False

    def taken_consequences(self, cond):
        return ()

    def add_fact(self, cond):
        self.pc.append(cond)
        # count(mask) == 0 holds for the generic column
        for c in (cond.args if cond.op == "and" else (cond,)):
            z = zero_count(c)
            while z is not None:
                c = T.not_(z)
                self.pc.append(c)
                z = zero_count(c)

    # ------------------------------------------------------------ obligations
    def oblige(self, name, goal):
        self.obls.append((name, goal, list(self.assume) + list(self.pc)))


_SETTLED = {}


def settled(cond):
    """cond, or the truth value it has for every column whatever the data"""
    r = _SETTLED.get(cond)
    if r is None:
        r = cond
        if CTX.solver is not None and cond not in (T.TRUE, T.FALSE):
            if not CTX.solver.feasible([cond]):
                r = T.FALSE
            elif not CTX.solver.feasible([T.not_(cond)]):
                r = T.TRUE
        _SETTLED[cond] = r
    return r


def count_term(root, cond):
    cond = settled(cond)
    if cond is T.FALSE:
        return T.iconst(0)
    return T.mk("count", (root.length, root.index, cond), "I")


def zero_count(c):
    """the mask whose count is stated to be zero, if c says that"""
    if c.op == "eq":
        a, b = c.args
        for x, y in ((a, b), (b, a)):
            x, y = _strip(x), _strip(y)
            if x.op == "count" and y.op == "const" and y.args[0] == 0:
                return x.args[2]
    if c.op in ("le", "lt"):
        x, y = _strip(c.args[0]), _strip(c.args[1])
        if x.op == "count" and y.op == "const" and y.args[0] == (0 if c.op == "le" else 1):
            return x.args[2]
    if c.op == "not":
        d = c.args[0]
        if d.op in ("lt", "le"):
            x, y = _strip(d.args[0]), _strip(d.args[1])
            # not (0 < count), not (1 <= count)
            if y.op == "count" and x.op == "const" and x.args[0] == (0 if d.op == "lt" else 1):
                return y.args[2]
    return None


def _strip(x):
    return x.args[0] if x.op == "toreal" else x


CTX = Context()

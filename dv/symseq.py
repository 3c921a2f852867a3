"""Argument lists of any length: positions, keywords and results of a call as a family over an axis.

A family stands for all its members at once; the code sees it as the tuple (dict, list) of a call, and only a loop over an axis
can look at a member, which is then the generic one. Spread carries a family through the calling convention of CPython."""
from . import symnp as S
from . import terms as T
from .ctx import CTX, Axis, Unsupported


class Spread:
    """all members of a family, in order, as they pass through f(*args) or f(**kwargs)"""

    def __init__(self, axis, value):
        self.axis, self.value = axis, value


class Key(str):
    """the name under which a family of keywords passes through f(**kwargs)"""


def has_spread(x):
    return type(x) is tuple and any(isinstance(v, Spread) for v in x)


def _no(what):
    def f(self, *a, **k):
        raise Unsupported(f"{what} of an argument list of any length")
    return f


class Seq:
    """sequence of unknown length; the value at the generic position is known"""
    __hash__ = None

    def __init__(self, axis, value, kind):
        self.axis, self.value, self.kind = axis, value, kind

    def dv_len(self):
        return S.SymInt(self.axis.length)

    def _at(self, j):
        """this index is the generic position (also counted from the end)"""
        if not isinstance(j, S.SymInt) or not CTX.loop_mode or CTX.loop_mode[-1].root is not self.axis:
            raise Unsupported("position in an argument list of any length")
        if j.term is not self.axis.index and j.term is not T.sub(self.axis.index, self.axis.length):
            raise Unsupported("another position of an argument list of any length")

    def __getitem__(self, j):
        self._at(j)
        return self.value

    def __setitem__(self, j, v):
        if self.kind is not list:
            raise TypeError("'tuple' object does not support item assignment")
        self._at(j)
        self.value = v

    def __iter__(self):
        if CTX.loop_mode:
            raise Unsupported("argument list of any length read within a loop")
        return iter([Spread(self.axis, self.value)])

    def copy(self):
        if CTX.loop_mode:
            raise Unsupported("argument list of any length copied within a loop")
        return Seq(self.axis, self.value, self.kind)

    def element(self):
        return self.value

    __contains__ = _no("search")
    __bool__ = _no("truth value")
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no("comparison")
    __add__ = __radd__ = __iadd__ = __mul__ = __rmul__ = _no("concatenation")
    __reversed__ = __delitem__ = append = extend = insert = pop = remove = clear = index = count = sort = reverse = _no("another use")


class Positions:
    """declared positions: any number of distinct ones, each counted from the start or from the end"""
    __hash__ = None

    def __init__(self, axis, cond, negative):
        self.root, self.negative = axis, negative
        self.axis = CTX.compress(axis, cond)

    def element(self):
        if CTX.branch(self.negative):
            return S.SymInt(T.sub(self.root.index, self.root.length))
        return S.SymInt(self.root.index)

    def __contains__(self, j):
        if not isinstance(j, S.SymInt):
            raise Unsupported("search in a declaration of any length")
        if j.term is self.root.index:
            return CTX.branch(T.and_(self.axis.cond, T.not_(self.negative)))
        if j.term is T.sub(self.root.index, self.root.length):
            return CTX.branch(T.and_(self.axis.cond, self.negative))
        raise Unsupported("search in a declaration of any length")

    def dv_len(self):
        return S.SymInt(self.axis.length)

    def __bool__(self):
        return CTX.branch(T.lt(T.iconst(0), self.axis.length))

    __iter__ = __len__ = __getitem__ = _no("native iteration")
    __eq__ = __ne__ = __add__ = __radd__ = _no("another use")


class Name:
    """the generic declared name"""

    def __init__(self, axis):
        self.axis = axis

    def __hash__(self):
        raise Unsupported("name of any keyword as a key")

    __eq__ = __ne__ = __str__ = __len__ = __getitem__ = __add__ = __radd__ = __bool__ = _no("look at a name")


class Names:
    """declared names: any number of distinct ones, none of them `degrees`"""
    __hash__ = None

    def __init__(self, axis):
        self.axis = axis

    def element(self):
        return Name(self.axis)

    def dv_len(self):
        return S.SymInt(self.axis.length)

    def __bool__(self):
        return CTX.branch(T.lt(T.iconst(0), self.axis.length))

    def __contains__(self, k):
        if isinstance(k, Name) and k.axis is self.axis:
            return True
        raise Unsupported("search in a declaration of any length")

    __iter__ = __len__ = __getitem__ = _no("native iteration")
    __eq__ = __ne__ = __add__ = __radd__ = _no("another use")


class Keywords:
    """keyword arguments: some known ones and, for each declared name, a value if the name is present"""
    __hash__ = None

    def __init__(self, known, axis, present, value, key):
        self.known, self.axis, self.present, self.value, self.key = dict(known), axis, present, value, key

    def _mine(self, k):
        if isinstance(k, Name):
            if k.axis is not self.axis or not CTX.loop_mode or CTX.loop_mode[-1] is not self.axis:
                raise Unsupported("name outside of its loop")
            return True
        if type(k) is not str:
            raise Unsupported("keyword")
        return False

    def __contains__(self, k):
        return CTX.branch(self.present) if self._mine(k) else k in self.known

    def __getitem__(self, k):
        if k is self.key:
            if CTX.loop_mode:
                raise Unsupported("keywords passed on within a loop")
            return Spread(self.axis, (self.present, self.value))
        if self._mine(k):
            if not CTX.branch(self.present):
                raise KeyError(k)
            return self.value
        return self.known[k]

    def __setitem__(self, k, v):
        if self._mine(k):
            if not CTX.branch(self.present):
                raise Unsupported("a new keyword")
            self.value = v
        else:
            self.known[k] = v

    def get(self, k, d=None):
        return self[k] if k in self else d

    def pop(self, k, *d):
        if self._mine(k):
            raise Unsupported("removal of any keyword")
        return self.known.pop(k, *d)

    def __delitem__(self, k):
        self.pop(k)

    def setdefault(self, k, d=None):
        if self._mine(k):
            raise Unsupported("a new keyword")
        return self.known.setdefault(k, d)

    def copy(self):
        if CTX.loop_mode:
            raise Unsupported("keywords copied within a loop")
        return Keywords(self.known, self.axis, self.present, self.value, self.key)

    def keys(self):
        """for f(**kwargs)"""
        return list(self.known) + [self.key]

    items = values = update = clear = popitem = __iter__ = __len__ = __bool__ = __eq__ = __ne__ = __or__ = __ior__ = __ror__ = _no("another use")


def varargs(x):
    if has_spread(x):
        if len(x) != 1:
            raise Unsupported("arguments before or after an argument list of any length")
        return Seq(x[0].axis, x[0].value, tuple)
    return x


def kwargs(x):
    keys = [k for k in x if isinstance(k, Key)]
    if not keys:
        return x
    s = x[keys[0]]
    return Keywords({k: v for k, v in x.items() if not isinstance(k, Key)}, s.axis, *s.value, keys[0])

"""Symbolic stand-in for numpy: the real code of /repo is executed with this
module in place of numpy.  Arrays carry one Term per cell; an axis of symbolic
length is represented by one generic column (see ctx.Axis)."""
import builtins
import operator
from fractions import Fraction

import numpy as rnp

from . import terms as T
from .ctx import CTX, SINGLE, Axis, Unsupported, count_term

F64 = rnp.dtype("float64")
BOOL = rnp.dtype("bool")
I64 = rnp.dtype("int64")


# ====================================================================== scalars
class Scalar:
    """common behaviour of symbolic scalars"""
    __slots__ = ("term", "dtype")
    __array_ufunc__ = None
    __hash__ = None

    def _np(self):
        if self.dtype is None:
            raise AttributeError("python scalar has no array attributes")

    @property
    def shape(self):
        self._np()
        return ()

    @property
    def ndim(self):
        self._np()
        return 0

    @property
    def size(self):
        self._np()
        return 1

    @property
    def T(self):
        self._np()
        return self

    def copy(self):
        self._np()
        return self

    def item(self):
        self._np()
        return py_scalar(self.term)

    def astype(self, dtype, **kw):
        self._np()
        return scalar(cast(self.term, self.dtype, rnp.dtype(dt(dtype))), rnp.dtype(dt(dtype)))

    def reshape(self, *shape, **kw):
        return asarray(self).reshape(*shape)

    def sum(self, *a, **k):
        self._np()
        return self

    def any(self, *a, **k):
        self._np()
        return asarray(self).any()

    def all(self, *a, **k):
        self._np()
        return asarray(self).all()

    def __getitem__(self, key):
        self._np()
        if isinstance(key, tuple) and not key:
            return self
        return asarray(self)[key]

    def __format__(self, spec):
        return f"<{T.pretty(self.term, 3)}>"

    def __repr__(self):
        return f"{type(self).__name__}({self.term!r})"

    __str__ = __repr__

    def __add__(self, o):
        return binop("add", self, o)

    def __radd__(self, o):
        return binop("add", o, self)

    def __sub__(self, o):
        return binop("subtract", self, o)

    def __rsub__(self, o):
        return binop("subtract", o, self)

    def __mul__(self, o):
        return binop("multiply", self, o)

    def __rmul__(self, o):
        return binop("multiply", o, self)

    def __truediv__(self, o):
        return binop("divide", self, o)

    def __rtruediv__(self, o):
        return binop("divide", o, self)

    def __floordiv__(self, o):
        return binop("floor_divide", self, o)

    def __rfloordiv__(self, o):
        return binop("floor_divide", o, self)

    def __mod__(self, o):
        return binop("remainder", self, o)

    def __rmod__(self, o):
        return binop("remainder", o, self)

    def __pow__(self, o):
        return binop("power", self, o)

    def __rpow__(self, o):
        return binop("power", o, self)

    def __neg__(self):
        return unop("negative", self)

    def __pos__(self):
        return self

    def __abs__(self):
        return unop("absolute", self)

    def __lt__(self, o):
        return binop("less", self, o)

    def __le__(self, o):
        return binop("less_equal", self, o)

    def __gt__(self, o):
        return binop("greater", self, o)

    def __ge__(self, o):
        return binop("greater_equal", self, o)

    def __eq__(self, o):
        if not is_num(o):
            return False
        return binop("equal", self, o)

    def __ne__(self, o):
        if not is_num(o):
            return True
        return binop("not_equal", self, o)

    def __and__(self, o):
        return binop("bitwise_and", self, o)

    def __rand__(self, o):
        return binop("bitwise_and", o, self)

    def __or__(self, o):
        return binop("bitwise_or", self, o)

    def __ror__(self, o):
        return binop("bitwise_or", o, self)

    def __xor__(self, o):
        return binop("bitwise_xor", self, o)

    def __rxor__(self, o):
        return binop("bitwise_xor", o, self)

    def __invert__(self):
        return unop("invert", self)

    def __float__(self):
        if T.is_const(self.term):
            return float(self.term.args[0])
        raise Unsupported("float() of a symbolic value by native code")

    def __complex__(self):
        raise Unsupported("complex")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymReal(Scalar):
    __slots__ = ()

    def __init__(self, term, dtype=None):
        self.term = term
        self.dtype = dtype

    def __bool__(self):
        return CTX.branch(T.not_(T.eq(self.term, T.ZERO)))

    def __round__(self, n=None):
        raise Unsupported("round")

    def is_integer(self):
        raise Unsupported("is_integer")

    @property
    def real(self):
        return self


class SymInt(Scalar):
    __slots__ = ("axis",)

    def __init__(self, term, dtype=None, axis=None):
        self.term = term
        self.dtype = dtype
        self.axis = axis

    def __bool__(self):
        return CTX.branch(T.not_(T.eq(self.term, T.iconst(0))))

    def __index__(self):
        if T.is_const(self.term):
            return int(self.term.args[0])
        raise Unsupported("native use of a symbolic integer")

    def __int__(self):
        return self.__index__()

    def __hash__(self):
        return hash(self.term)


class SymBool(Scalar):
    __slots__ = ()

    def __init__(self, term, dtype=BOOL):
        self.term = term
        self.dtype = dtype

    def __bool__(self):
        return CTX.branch(self.term)


class Poison:
    """value of a variable that a generic loop iteration may not rely on"""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _die(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, "_why"))

    __getattr__ = _die
    __setattr__ = _die
    __call__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _die
    __truediv__ = __rtruediv__ = __getitem__ = __setitem__ = __lt__ = __le__ = __gt__ = __ge__ = _die
    __eq__ = __ne__ = __iter__ = __len__ = __neg__ = __abs__ = __pow__ = __rpow__ = __mod__ = _die
    __index__ = __float__ = __int__ = __and__ = __or__ = __rand__ = __ror__ = __next__ = _die
    __hash__ = None


def is_num(x):
    return isinstance(x, (Scalar, SymArray, int, float, Fraction, rnp.number, rnp.bool_, rnp.ndarray, list, tuple, SymSel))


def dt(d):
    """translate a dtype argument"""
    if d is None:
        return F64
    if isinstance(d, DTypeProxy):
        return d.real
    if d is float or getattr(d, "_dv_builtin", None) == "float":
        return F64
    if d is int or getattr(d, "_dv_builtin", None) == "int":
        return I64
    if d is bool or getattr(d, "_dv_builtin", None) == "bool":
        return BOOL
    return d


class DTypeProxy:
    """np.float64 & co: usable as dtype and as a conversion function"""

    def __init__(self, real):
        self.real = real

    def __call__(self, x=0, *a):
        return asarray(x).astype(self.real)[()]

    def __eq__(self, o):
        if isinstance(o, DTypeProxy):
            return self.real is o.real
        try:
            return rnp.dtype(self.real) == o
        except TypeError:
            return NotImplemented

    def __hash__(self):
        return hash(self.real)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return repr(self.real)

    def __getattr__(self, name):
        return getattr(self.real, name)

    def __instancecheck__(self, x):
        return isinstance_np(x, self.real)


def isinstance_np(x, cls):
    if isinstance(x, Scalar) and x.dtype is not None:
        return issubclass(x.dtype.type, cls)
    return isinstance(x, cls)


def scalar(term, dtype=F64):
    if term.sort == "B":
        return SymBool(term, dtype if dtype is not None else BOOL)
    if term.sort == "I":
        return SymInt(term, dtype)
    return SymReal(term, dtype)


def py_scalar(term):
    if term.op == "const" and term.sort == "I":
        return int(term.args[0])
    if term.sort == "B":
        if term.op in ("true", "false"):
            return term is T.TRUE
        return SymBool(term)
    if term.sort == "I":
        return SymInt(term)
    return SymReal(term)


def to_term(x):
    if isinstance(x, Scalar):
        return x.term
    if isinstance(x, T.Term):
        return x
    if isinstance(x, (bool, rnp.bool_)):
        return T.boolean(bool(x))
    if isinstance(x, (int, rnp.integer)):
        return T.iconst(int(x))
    if isinstance(x, (float, rnp.floating)):
        x = float(x)
        if x != x:
            return T.NAN
        if x in (float("inf"), float("-inf")):
            return T.INF if x > 0 else T.neg(T.INF)
        return T.const(Fraction(repr(x)))
    if isinstance(x, Fraction):
        return T.const(x)
    raise Unsupported(f"value of type {type(x).__name__} in a numeric context")


def cast(term, src, dst):
    """value stored into a cell of dtype dst"""
    if dst.kind == "b":
        if term.sort == "B":
            return term
        return T.not_(T.eq(term, T.iconst(0) if term.sort == "I" else T.ZERO))
    if dst.kind in "iu":
        if term.sort == "I":
            return term
        if term.sort == "B":
            return T.ite(term, T.iconst(1), T.iconst(0))
        if src is not None and src.kind in "iu":
            return term
        return T.fn("trunc", term)
    if dst.kind == "f":
        return T.to_real(term)
    if dst.kind == "O":
        return term
    raise Unsupported(f"dtype {dst}")


# ====================================================================== dims
def dim_len(d):
    """python value for a dimension"""
    if isinstance(d, Axis):
        return SymInt(d.length, None, d)
    return d


def constants(k):
    """an index array whose entries are all known, as an array of numpy"""
    if isinstance(k, SymArray) and k.ndim == 1 and k.dtype.kind in "iub" and isinstance(k.dims[0], int):
        if k.dtype.kind == "b":
            if all(c in (T.TRUE, T.FALSE) for c in k.cells):
                return rnp.array([c is T.TRUE for c in k.cells], dtype=bool)
        elif all(T.is_const(c) for c in k.cells):
            return rnp.array([int(T.cval(c)) for c in k.cells], dtype=int)
    return k


def norm_dim(d):
    """dimension given by the program -> int or Axis"""
    if isinstance(d, Axis):
        return d
    if isinstance(d, SymInt):
        if d.axis is not None:
            return d.axis
        if T.is_const(d.term):
            return int(d.term.args[0])
        return CTX.axis_of_length(d.term)
    if isinstance(d, (SymReal,)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return operator.index(d)


def norm_shape(shape):
    if isinstance(shape, (int, SymInt, Axis)):
        shape = (shape,)
    return tuple(norm_dim(d) for d in shape)


def clen(d):
    return 1 if isinstance(d, Axis) else d


def axes_equal(a, b):
    if a is b:
        return True
    if isinstance(a, Axis) and isinstance(b, Axis):
        if a.root is b.root:
            return CTX.equivalent(a.cond, b.cond)
    return False


def join_dims(dims_list):
    n = max(len(d) for d in dims_list)
    out = []
    for i in range(n):
        cur = 1
        for dims in dims_list:
            j = i - (n - len(dims))
            if j < 0:
                continue
            d = dims[j]
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = d
            elif isinstance(cur, Axis) or isinstance(d, Axis):
                if isinstance(cur, Axis) and isinstance(d, Axis):
                    if axes_equal(cur, d):
                        continue
                    # different symbolic lengths: an error unless the lengths agree
                    raise Unsupported(f"operands with axes {cur} and {d}")
                ax, k = (cur, d) if isinstance(cur, Axis) else (d, cur)
                raise ValueError(f"operands could not be broadcast together (axis {ax} against {k})")
            elif cur != d:
                raise ValueError("operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


# ====================================================================== arrays
def to_py_bool(k):
    if isinstance(k, rnp.bool_):
        return bool(k)
    if isinstance(k, SymArray) and not k.dims and k.dtype.kind == "b":
        return SymBool(k.cells[()])
    return k


class SymArray:
    """symbolic ndarray; `cells` has one entry per concrete element, length one
    along axes of symbolic length"""
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, cells, dims, dtype):
        self.cells = cells
        self.dims = tuple(dims)
        self.dtype = rnp.dtype(dtype)
        self.frozen = None
        self.epoch = CTX.epoch
        self.elem = False
        self.korder = False         # memory layout not known (array of the caller)

    def __class_getitem__(cls, item):
        return cls

    # ------------------------------------------------------------ attributes
    @property
    def shape(self):
        return tuple(dim_len(d) for d in self.dims)

    @shape.setter
    def shape(self, shape):
        new, dims = self._reshaped(shape)
        if not rnp.shares_memory(new, self.cells) and new.size:
            raise AttributeError("Incompatible shape for in-place modification.")
        self.cells, self.dims = new, dims

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        ax = [d for d in self.dims if isinstance(d, Axis)]
        n = 1
        for d in self.dims:
            if not isinstance(d, Axis):
                n *= d
        if not ax:
            return n
        if len(ax) == 1 and n == 1:
            return dim_len(ax[0])
        if n == 1:
            return dim_len(CTX.product(ax))
        t = T.iconst(n)
        for a in ax:
            t = T.mul(t, a.length)
        return SymInt(t)

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        if self.ndim == 1:
            return self
        return self.reshape(-1)

    @property
    def real(self):
        return self

    @property
    def nbytes(self):
        raise Unsupported("nbytes")

    @property
    def flags(self):
        raise Unsupported("flags")

    @property
    def itemsize(self):
        return self.dtype.itemsize

    def __len__(self):
        if not self.dims:
            raise TypeError("len() of unsized object")
        if isinstance(self.dims[0], Axis):
            raise Unsupported("native len() of a symbolic axis")
        return self.dims[0]

    def dv_len(self):
        if not self.dims:
            raise TypeError("len() of unsized object")
        return dim_len(self.dims[0])

    def __iter__(self):
        if not self.dims:
            raise TypeError("iteration over a 0-d array")
        if isinstance(self.dims[0], Axis):
            raise Unsupported("iteration over an axis of symbolic length")
        return (self[i] for i in range(self.dims[0]))

    def __bool__(self):
        if self.cells.size == 1 and not any(isinstance(d, Axis) for d in self.dims):
            return bool(scalar(self.cells.reshape(-1)[0], self.dtype))
        if any(isinstance(d, Axis) for d in self.dims):
            raise Unsupported("truth value of an array")
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        return float(self.item())

    def __index__(self):
        return operator.index(self.item())

    def item(self, *args):
        if args:
            return self[args if len(args) > 1 else args[0]].item()
        if self.cells.size == 1 and not any(isinstance(d, Axis) for d in self.dims):
            return py_scalar(self.cells.reshape(-1)[0])
        raise Unsupported("item()")

    def __repr__(self):
        return f"array{tuple(self.dims)}<{self.dtype}>"

    def __format__(self, spec):
        return repr(self)

    # ------------------------------------------------------------ shape ops
    def _view(self, cells, dims):
        v = SymArray(cells, dims, self.dtype)
        v.frozen = self.frozen
        v.epoch = self.epoch
        v.elem = self.elem
        v.korder = self.korder
        return v

    def _reshaped(self, shape):
        if isinstance(shape, (int, SymInt)):
            shape = (shape,)
        shape = list(shape)
        axes = [d for d in self.dims if isinstance(d, Axis)]
        known = []
        for s in shape:
            if isinstance(s, int) and s == -1:
                known.append(-1)
            else:
                known.append(norm_dim(s))
        if len(axes) == len(self.dims) and len(known) == 1 and len(axes) > 1:
            p = CTX.product(axes)
            if known[0] == -1 or known[0] is p:
                return self.cells.reshape((1,)), (p,)
        if len(axes) == 1 == len(self.dims) and axes[0].parts and len(known) > 1:
            if len(known) == len(axes[0].parts) and all(isinstance(k, Axis) and axes_equal(k, q) for k, q in zip(known, axes[0].parts)):
                return self.cells.reshape((1,)*len(known)), tuple(axes[0].parts)
        n = 1
        for d in self.dims:
            n *= clen(d)
        m = 1
        used = [d for d in known if isinstance(d, Axis)]
        for d in known:
            if d != -1 and not isinstance(d, Axis):
                m *= d
        rest = [a for a in axes if not any(axes_equal(a, u) for u in used)]
        if len(used) != len([a for a in axes if any(axes_equal(a, u) for u in used)]):
            raise Unsupported("reshape to an unrelated length")
        if -1 in known:
            i = known.index(-1)
            if rest:
                if len(rest) > 1 or m != n:
                    raise Unsupported("reshape mixing symbolic axes")
                known[i] = rest[0]
                rest = []
            else:
                if m == 0 or n % m:
                    raise ValueError("cannot reshape array")
                known[i] = n // m
                m *= known[i]
        single = [a for a in rest if CTX.solver.valid(CTX.facts(), T.eq(a.length, T.iconst(1)))]
        if len(single) < len(rest):
            raise Unsupported("reshape dropping a symbolic axis")
        if m != n:
            raise ValueError(f"cannot reshape array of size {n} into shape {shape}")
        # the order of the symbolic axis relative to concrete ones must be kept
        def pattern(dims):
            return [("ax", d.length) if isinstance(d, Axis) else d for d in dims if isinstance(d, Axis) or d != 1]
        if axes:
            pa, pb = pattern([d for d in self.dims if d not in single]), pattern(known)

            def split(p):
                k = [i for i, x in enumerate(p) if isinstance(x, tuple)]
                out, last = [], 0
                for i in k:
                    q = 1
                    for x in p[last:i]:
                        q *= x
                    out.append(q)
                    last = i + 1
                return out
            if split(pa) != split(pb):
                raise Unsupported("reshape moving a symbolic axis")
        return self.cells.reshape([clen(d) for d in known]), tuple(known)

    def reshape(self, *shape, **kw):
        if kw and kw.get("order", "C") != "C":
            raise Unsupported("reshape order")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        c, d = self._reshaped(shape)
        v = self._view(c, d)
        if self.korder and len([x for x in self.dims if x != 1]) > 1:
            v.frozen = "reshaped array of unknown layout"       # view or copy
            v.korder = False
        return v

    def ravel(self, *a, **k):
        return self.reshape(-1)

    def flatten(self, *a, **k):
        return self.reshape(-1).copy()

    def squeeze(self, axis=None):
        drop = [i for i, d in enumerate(self.dims) if isinstance(d, int) and d == 1]
        if axis is not None:
            ax = [a % self.ndim for a in (axis if isinstance(axis, tuple) else (axis,))]
            drop = ax
        dims = [d for i, d in enumerate(self.dims) if i not in drop]
        return self._view(self.cells.squeeze(tuple(drop)), dims)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes[0] is None:
            axes = tuple(range(self.ndim))[::-1]
        return self._view(self.cells.transpose(axes), [self.dims[a] for a in axes])

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(ax)

    def copy(self, order="C"):
        return SymArray(self.cells.copy(), self.dims, self.dtype)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        d = rnp.dtype(dt(dtype))
        if not copy and d == self.dtype:
            return self
        out = rnp.empty(self.cells.shape, dtype=object)
        for i in rnp.ndindex(*self.cells.shape):
            out[i] = cast(self.cells[i], self.dtype, d)
        r = SymArray(out, self.dims, d)
        r.korder = self.korder and order != "C"
        return r

    def view(self, *a, **k):
        if a or k:
            raise Unsupported("view(dtype)")
        return self._view(self.cells[...], self.dims)

    def fill(self, v):
        self[...] = v

    def tolist(self):
        if any(isinstance(d, Axis) for d in self.dims):
            raise Unsupported("tolist")
        return rnp.vectorize(py_scalar, otypes=[object])(self.cells).tolist() if self.cells.size else []

    # ------------------------------------------------------------ reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return np_sum(self, axis=axis, keepdims=keepdims, **kw)

    def prod(self, axis=None, **kw):
        return np_prod(self, axis=axis, **kw)

    def any(self, axis=None, out=None, keepdims=False):
        return np_any(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False):
        return np_all(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return np_min(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return np_max(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, **kw):
        return np_sum(self, axis=axis) / (self.size if axis is None else self.shape[axis])

    def dot(self, o):
        return dot(self, o)

    def clip(self, lo=None, hi=None, out=None, **kw):
        return clip(self, lo, hi, out=out)

    def nonzero(self):
        return nonzero(self)

    def conj(self):
        return self.copy()

    def round(self, *a, **k):
        raise Unsupported("round")

    def argsort(self, *a, **k):
        raise Unsupported("argsort")

    # ------------------------------------------------------------ indexing
    def _resolve(self, key):
        """-> (view cells, view dims, selections) where selections is a list of
        (axis position in the view, kind, payload)"""
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        if len(key) == 1 and isinstance(key[0], (SymBool, bool)) and not self.dims:
            c = to_term(key[0])
            cells = self.cells.reshape((1,))
            return cells, (1,), [(0, "mask", c)], None
        key = [to_py_bool(k) for k in key]
        nreal = len([k for k in key if k is not None and k is not Ellipsis and not isinstance(k, (bool, SymBool))])
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            key[i:i + 1] = [slice(None)] * (self.ndim - nreal)
        else:
            key += [slice(None)] * (self.ndim - nreal)
        if nreal > self.ndim:
            raise IndexError(f"too many indices for array: array is {self.ndim}-dimensional")
        native, dims, sels = [], [], []
        pos = 0
        nadv = 0
        for k in key:
            if k is None:
                native.append(None)
                dims.append(1)
                continue
            if isinstance(k, (bool, SymBool)):
                # a single truth value selects everything or nothing along a new axis
                native.append(None)
                sels.append((len(dims), "mask", to_term(k)))
                dims.append(1)
                nadv += 1
                continue
            d = self.dims[pos]
            pos += 1
            if isinstance(k, SymArray) and not k.dims and k.dtype.kind in "iu":
                k = py_scalar(k.cells[()])
            if isinstance(k, SymInt) and T.is_const(k.term):
                k = int(k.term.args[0])
            if isinstance(k, rnp.ndarray):
                k = asarray(k) if k.dtype.kind == "b" else k
            if isinstance(d, int) and isinstance(k, SymArray) and k.dtype.kind in "iu":
                k = constants(k)
            if isinstance(d, Axis) and selects_nothing(k):
                native.append(slice(None))
                sels.append((len(dims), "list", []))
                dims.append(d)
                nadv += not isinstance(k, slice)
                continue
            if isinstance(d, Axis) or isinstance(k, (SymArray, SymSel)) or (isinstance(k, SymInt)):
                if isinstance(d, Axis) and d.root.parts and not isinstance(k, (SymArray, SymSel)) and not (
                        isinstance(k, slice) and is_full_slice(k, d)) and not (isinstance(k, SymInt) and k.term is d.index):
                    raise Unsupported("positions along a product of axes")
                if isinstance(k, slice):
                    if k == slice(None) or is_full_slice(k, d):
                        native.append(slice(None))
                        dims.append(d)
                        continue
                    native.append(slice(None))
                    sels.append((len(dims), "range", (k, d)))
                    dims.append(d)
                    continue
                if isinstance(k, (int, rnp.integer)) and not isinstance(k, bool):
                    if isinstance(d, int):
                        native.append(int(k))
                        continue
                    k = int(k)
                    if d.length.op == "const":
                        raise Unsupported("index")
                    need = k if k >= 0 else -k - 1
                    if not CTX.branch(T.lt(T.iconst(need), d.length)):
                        raise IndexError(f"index {k} is out of bounds")
                    it = T.iconst(k) if k >= 0 else T.add(d.length, T.iconst(k))
                    if d.cond is not T.TRUE:
                        raise Unsupported("position in a selection")
                    native.append(slice(None))
                    sels.append((len(dims), "at", it))
                    dims.append(d)
                    continue
                if isinstance(k, SymInt):
                    if isinstance(d, int):
                        raise Unsupported("symbolic index into a concrete axis")
                    if k.term is d.index:
                        native.append(0)
                        continue
                    if CTX.loop_mode:
                        raise Unsupported("other column accessed in a loop over columns")
                    if d.cond is not T.TRUE:
                        raise Unsupported("position in a selection")
                    if not CTX.branch(T.and_(T.le(T.neg(d.length), k.term), T.lt(k.term, d.length))):
                        raise IndexError("index out of bounds")
                    it = k.term
                    if not CTX.branch(T.le(T.iconst(0), it)):
                        it = T.add(it, d.length)
                    native.append(slice(None))
                    sels.append((len(dims), "at", it))
                    dims.append(d)
                    continue
                if isinstance(k, SymSel):
                    native.append(slice(None))
                    sels.append((len(dims), "mask", k.cond_for(d)))
                    dims.append(d)
                    nadv += 1
                    continue
                if isinstance(k, SymArray) and k.dtype.kind in "iu" and isinstance(d, Axis) and d.root.parts:
                    raise Unsupported("positions along a product of axes")
                if isinstance(k, SymArray) and k.dtype.kind in "iu" and k.ndim == 1 and isinstance(d, Axis) and d.cond is T.TRUE:
                    # any positions in any order
                    it = k.cells[0]
                    if len(k.cells) != 1:
                        raise Unsupported("integer array on a symbolic axis")
                    if not CTX.branch(T.and_(T.le(T.neg(d.length), it), T.lt(it, d.length))):
                        raise IndexError("index out of bounds")
                    if not CTX.branch(T.le(T.iconst(0), it)):
                        it = T.add(it, d.length)
                    native.append(slice(None))
                    sels.append((len(dims), "gather", (it, k.dims[0])))
                    dims.append(d)
                    nadv += 1
                    continue
                if isinstance(k, SymArray) and k.dtype.kind == "b":
                    if k.ndim != 1:
                        if k.ndim == self.ndim and self.ndim > 1:
                            raise Unsupported("mask over several axes")
                        raise Unsupported("boolean index of this shape")
                    kd = k.dims[0]
                    if isinstance(d, int) and isinstance(kd, int):
                        if d != kd:
                            raise IndexError("boolean index did not match indexed array")
                        if d == 1:
                            native.append(slice(None))
                            sels.append((len(dims), "mask", k.cells[0]))
                            dims.append(d)
                            nadv += 1
                            continue
                        if all(c in (T.TRUE, T.FALSE) for c in k.cells):
                            idx = [i for i, c in enumerate(k.cells) if c is T.TRUE]
                            native.append(slice(None))
                            sels.append((len(dims), "list", idx))
                            dims.append(d)
                            nadv += 1
                            continue
                        native.append(slice(None))
                        sels.append((len(dims), "cmask", list(k.cells)))
                        dims.append(d)
                        nadv += 1
                        continue
                    if not axes_equal(kd, d):
                        if isinstance(kd, int) or isinstance(d, int):
                            raise IndexError("boolean index did not match indexed array")
                        raise Unsupported(f"mask over {kd} applied to {d}")
                    native.append(slice(None))
                    sels.append((len(dims), "mask", k.cells[0]))
                    dims.append(d)
                    nadv += 1
                    continue
                if isinstance(k, (list, rnp.ndarray, tuple)):
                    if all(isinstance(x, (bool, SymBool)) for x in k) and isinstance(d, int):
                        return self._resolve_list_bool(key)
                    raise Unsupported("integer list on a symbolic axis")
                raise Unsupported(f"index of type {type(k).__name__}")
            # concrete axis
            if isinstance(k, slice):
                k = slice(*[None if x is None else operator.index(x) for x in (k.start, k.stop, k.step)])
                native.append(k)
                dims.append(len(range(*k.indices(d))))
            elif isinstance(k, (int, rnp.integer)) and not isinstance(k, bool):
                if not -d <= k < d:
                    raise IndexError(f"index {k} is out of bounds for axis with size {d}")
                native.append(int(k))
            elif isinstance(k, (list, tuple, rnp.ndarray, range)):
                idx = [operator.index(x) for x in k]
                native.append(slice(None))
                sels.append((len(dims), "list", idx))
                dims.append(d)
                nadv += 1
            else:
                raise Unsupported(f"index of type {type(k).__name__}")
        native.append(Ellipsis)
        cells = self.cells[tuple(native)]
        return cells, tuple(dims), sels, nadv

    def _whole_mask(self, key):
        """a single truth array over all the axes of this array, or None"""
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, rnp.ndarray) and key.dtype.kind == "b":
            key = asarray(key)
        if not (isinstance(key, SymArray) and key.dtype.kind == "b" and key.ndim == self.ndim and self.ndim > 1):
            return None
        for a, b in zip(key.dims, self.dims):
            if isinstance(a, Axis) != isinstance(b, Axis) or (isinstance(a, int) and a != b):
                raise IndexError("boolean index did not match indexed array")
            if isinstance(a, Axis) and not axes_equal(a, b):
                raise Unsupported(f"mask over {a} applied to {b}")
        return key

    def _masked(self, key):
        """selection of the elements where a truth array of the same shape holds, in C order"""
        axes = [d for d in self.dims if isinstance(d, Axis)]
        if not axes:
            pos = [i for i in rnp.ndindex(*self.cells.shape) if CTX.branch(key.cells[i])]
            cells = rnp.empty((len(pos),), dtype=object)
            for j, i in enumerate(pos):
                cells[j] = self.cells[i]
            return pos, cells, (len(pos),), None
        if len(axes) < self.ndim:
            raise Unsupported("mask over several axes")
        cond = key.cells.reshape(-1)[0]
        return None, self.cells.reshape((1,)).copy(), (CTX.compress(CTX.product(axes), cond),), cond

    def __getitem__(self, key):
        m = self._whole_mask(key)
        if m is not None:
            pos, cells, dims, cond = self._masked(m)
            return SymArray(cells, dims, self.dtype)
        cells, dims, sels, nadv = self._resolve(key)
        if not sels:
            if not dims and not _has_ellipsis(key):
                return scalar(cells[()], self.dtype)
            v = self._view(cells, dims)
            if CTX.loop_mode and any(isinstance(k, SymInt) for k in (key if isinstance(key, tuple) else (key,))):
                v.elem = True
            return v
        if sum(1 for s in sels if s[1] in ("mask", "list", "cmask", "gather")) > 1:
            raise Unsupported("several advanced indices")
        adv = [s for s in sels if s[1] in ("mask", "list", "cmask", "gather")]
        if adv and isinstance(key, tuple):
            ks = [k for k in key]
            ints = [i for i, k in enumerate(ks) if isinstance(k, (int, SymInt)) and not isinstance(k, bool)]
            advp = [i for i, k in enumerate(ks) if isinstance(k, (SymArray, SymSel, list, rnp.ndarray))]
            if ints and advp:
                allp = sorted(ints + advp)
                if allp != list(range(allp[0], allp[-1] + 1)):
                    raise Unsupported("separated advanced indices")
        dims = list(dims)
        frozen = None
        dropped = []
        cells = cells.copy()
        for pos, kind, payload in sels:
            d = dims[pos]
            if kind == "mask":
                ax = CTX.compress(d if isinstance(d, Axis) else SINGLE, payload)
                dims[pos] = ax
            elif kind == "range":
                dims[pos], shift = slice_axis(payload[0], d)
                frozen = "slice of a symbolic axis"
            elif kind == "gather":
                m = {d.index: payload[0]}
                cells = _map(cells, lambda t: T.subst(t, m))
                dims[pos] = payload[1]
            elif kind == "at":
                m = {d.index: payload}
                cells = _map(cells, lambda t: T.subst(t, m))
                dropped.append(pos)
                frozen = "view at a symbolic position"
            elif kind == "list":
                cells = rnp.take(cells, payload, axis=pos)
                dims[pos] = len(payload)
            elif kind == "cmask":
                raise Unsupported("symbolic mask on a concrete axis")
        if dropped:
            cells = cells.squeeze(tuple(dropped))
            dims = [d for i, d in enumerate(dims) if i not in dropped]
        if not dims and not _has_ellipsis(key):
            return scalar(cells[()], self.dtype)
        r = SymArray(cells, dims, self.dtype)
        r.frozen = frozen
        return r

    def __setitem__(self, key, value):
        if self.frozen:
            raise Unsupported(f"write through a {self.frozen}")
        if CTX.loop_epochs and self.epoch < CTX.loop_epochs[0] and not self.elem:
            ks = key if isinstance(key, tuple) else (key,)
            now = CTX.loop_mode[-1]
            own = [k.term for k in ks if isinstance(k, SymInt)]
            if now.index not in own and not (now.root.parts and all(d.index in own for d in now.root.parts)):
                raise Unsupported("array carried over loop iterations is written as a whole")
        m = self._whole_mask(key)
        if m is not None:
            v = asarray(value)
            if v.dtype.kind == "O":
                raise Unsupported("object array")
            if not v.ndim:
                # a scalar value is the same at every position
                vt = v.cells[()]
                for i in rnp.ndindex(*self.cells.shape):
                    self.cells[i] = T.ite(m.cells[i], cast(vt, v.dtype, self.dtype), self.cells[i])
                return
            pos, cells, dims, cond = self._masked(m)
            v = self._match_value(v, dims, None)
            vb = broadcast_cells(v, dims)
            if pos is None:
                i = (0,) * self.ndim
                self.cells[i] = T.ite(cond, cast(vb[0], v.dtype, self.dtype), self.cells[i])
                return
            for j, i in enumerate(pos):
                self.cells[i] = cast(vb[j], v.dtype, self.dtype)
            return
        cells, dims, sels, nadv = self._resolve(key)
        v = asarray(value)
        if v.dtype.kind == "O":
            raise Unsupported("object array")
        tdims = list(dims)
        cond = T.TRUE
        shift = None
        drop = []
        cmask = None
        for pos, kind, payload in sels:
            d = tdims[pos]
            if kind == "mask":
                cond = T.and_(cond, payload)
                tdims[pos] = CTX.compress(d if isinstance(d, Axis) else SINGLE, payload)
            elif kind == "range":
                ax, sh = slice_axis(payload[0], d)
                cond = T.and_(cond, ax.cond) if d.cond is T.TRUE else T.and_(cond, ax.cond)
                tdims[pos] = ax
                shift = (ax, sh)
            elif kind == "gather":
                raise Unsupported("assignment through an integer array")
            elif kind == "at":
                cond = T.and_(cond, T.eq(d.index, payload))
                drop.append(pos)
            elif kind == "list":
                idx = payload
                sub = SymArray(rnp.take(cells, idx, axis=pos), tdims[:pos] + [len(idx)] + tdims[pos + 1:], self.dtype)
                if len(sels) > 1:
                    raise Unsupported("mixed advanced assignment")
                vb = broadcast_cells(v, sub.dims)
                for j, i in enumerate(idx):
                    sl = (slice(None),) * pos
                    tgt = cells[sl + (i, Ellipsis)]
                    src = vb[sl + (j, Ellipsis)]
                    for q in rnp.ndindex(*tgt.shape):
                        tgt[q] = cast(src[q], v.dtype, self.dtype)
                return
            elif kind == "cmask":
                if v.ndim:
                    raise Unsupported("assignment through a symbolic mask on a concrete axis")
                cmask = (pos, payload)
        eff = [d for i, d in enumerate(tdims) if i not in drop]
        # leading ones of the value are dropped by numpy
        vd = list(v.dims)
        vc = v.cells
        while len(vd) > len(eff) and isinstance(vd[0], int) and vd[0] == 1:
            vd = vd[1:]
            vc = vc[0, ...]
        v = SymArray(vc, vd, v.dtype)
        if self._assigns_nothing(vd, eff):
            return
        v = self._match_value(v, eff, shift)
        vb = broadcast_cells(v, eff)
        for p in sorted(drop):
            vb = rnp.expand_dims(vb, p)
        vb = rnp.broadcast_to(vb, cells.shape)
        if rnp.shares_memory(vb, self.cells):
            vb = vb.copy()
        for i in rnp.ndindex(*cells.shape):
            c = cond
            if cmask is not None:
                c = T.and_(c, cmask[1][i[cmask[0]]])
            cells[i] = T.ite(c, cast(vb[i], v.dtype, self.dtype), cells[i])

    def _assigns_nothing(self, vd, eff):
        """an empty value meets a selection that selects no position"""
        off = len(eff) - len(vd)
        none = [eff[i + off] for i, d in enumerate(vd) if isinstance(d, int) and d == 0
                and i + off >= 0 and isinstance(eff[i + off], Axis)]
        return bool(none) and off >= 0 and all(
            e.cond is not T.TRUE and CTX.solver.valid(CTX.facts(), T.not_(e.cond)) for e in none) and all(
            d == 1 or (isinstance(e, int) and d == e) or e in none for d, e in zip(vd, eff[off:]))

    def _match_value(self, v, eff, shift):
        """re-index a value whose own axis runs over the selected positions"""
        off = len(eff) - len(v.dims)
        if off < 0:
            raise ValueError("could not broadcast input array into shape")
        dims = list(v.dims)
        cells = v.cells
        for i, d in enumerate(dims):
            e = eff[i + off]
            if isinstance(d, Axis) and isinstance(e, Axis) and not axes_equal(d, e):
                if shift is not None and e is shift[0] and d.cond is T.TRUE:
                    goal = T.eq(d.length, e.length)
                    if not CTX.solver.valid(CTX.facts(), goal):
                        raise Unsupported(f"assignment of {d} into {e}")
                    m = {d.index: T.sub(e.index, shift[1])}
                    cells = _map(cells, lambda t: T.subst(t, m))
                    dims[i] = e
                else:
                    raise Unsupported(f"assignment of axis {d} into {e}")
        return SymArray(cells, dims, v.dtype)

    # ------------------------------------------------------------ operators
    __add__ = Scalar.__add__
    __radd__ = Scalar.__radd__
    __sub__ = Scalar.__sub__
    __rsub__ = Scalar.__rsub__
    __mul__ = Scalar.__mul__
    __rmul__ = Scalar.__rmul__
    __truediv__ = Scalar.__truediv__
    __rtruediv__ = Scalar.__rtruediv__
    __floordiv__ = Scalar.__floordiv__
    __rfloordiv__ = Scalar.__rfloordiv__
    __mod__ = Scalar.__mod__
    __rmod__ = Scalar.__rmod__
    __pow__ = Scalar.__pow__
    __rpow__ = Scalar.__rpow__
    __neg__ = Scalar.__neg__
    __abs__ = Scalar.__abs__
    __lt__ = Scalar.__lt__
    __le__ = Scalar.__le__
    __gt__ = Scalar.__gt__
    __ge__ = Scalar.__ge__
    __and__ = Scalar.__and__
    __rand__ = Scalar.__rand__
    __or__ = Scalar.__or__
    __ror__ = Scalar.__ror__
    __xor__ = Scalar.__xor__
    __rxor__ = Scalar.__rxor__
    __invert__ = Scalar.__invert__

    def __pos__(self):
        return self.copy()

    def __eq__(self, o):
        if not is_num(o):
            return False
        return binop("equal", self, o)

    def __ne__(self, o):
        if not is_num(o):
            return True
        return binop("not_equal", self, o)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def _inplace(self, name, o):
        r = asarray(binop(name, self, o))
        if not rnp.can_cast(r.dtype, self.dtype, "same_kind"):
            raise TypeError(f"Cannot cast ufunc output from {r.dtype} to {self.dtype}")
        if len(r.dims) != len(self.dims):
            raise ValueError("non-broadcastable output operand")
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._inplace("add", o)

    def __isub__(self, o):
        return self._inplace("subtract", o)

    def __imul__(self, o):
        return self._inplace("multiply", o)

    def __itruediv__(self, o):
        return self._inplace("divide", o)

    def __imod__(self, o):
        return self._inplace("remainder", o)

    def __ipow__(self, o):
        return self._inplace("power", o)

    def __iand__(self, o):
        return self._inplace("bitwise_and", o)

    def __ior__(self, o):
        return self._inplace("bitwise_or", o)


class SymSel:
    """an opaque selection of columns of a root axis (integer array, list,
    np.where result): membership predicate over the generic index"""

    def __init__(self, axis, cond, name="sel"):
        self.axis = axis
        self.cond = cond
        self.name = name

    def cond_for(self, d):
        if isinstance(d, Axis) and d.root is self.axis.root and d.cond is T.TRUE:
            return self.cond
        if isinstance(d, int) and d == 1 and self.axis is SINGLE:
            return self.cond
        raise Unsupported("selection used on another axis")

    def dv_len(self):
        return dim_len(CTX.compress(self.axis, self.cond))

    def __len__(self):
        raise Unsupported("native len() of a symbolic selection")

    @property
    def size(self):
        return self.dv_len()

    @property
    def shape(self):
        return (self.dv_len(),)

    @property
    def ndim(self):
        return 1

    @property
    def dtype(self):
        return I64

    def __iter__(self):
        raise Unsupported("iteration over a symbolic selection")


def _map(cells, f):
    out = rnp.empty(cells.shape, dtype=object)
    for i in rnp.ndindex(*cells.shape):
        out[i] = f(cells[i])
    return out


def _has_ellipsis(key):
    if key is Ellipsis:
        return True
    return isinstance(key, tuple) and any(k is Ellipsis for k in key)


def _iterm(x):
    if isinstance(x, SymReal):
        raise TypeError("slice indices must be integers")
    return to_term(x)


def selects_nothing(k):
    """an index that certainly selects no position of any axis"""
    if isinstance(k, slice):
        lo, hi = 0 if k.start is None else k.start, k.stop
        return k.step in (None, 1) and all(isinstance(x, int) and not isinstance(x, bool) and x >= 0 for x in (lo, hi)) and hi <= lo
    if isinstance(k, SymArray):
        return k.dtype.kind in "iu" and k.dims == (0,)
    if isinstance(k, rnp.ndarray):
        return k.dtype.kind in "iu" and k.shape == (0,)
    return isinstance(k, list) and not k


def is_full_slice(k, d):
    """slice that certainly covers the whole axis"""
    if not isinstance(d, Axis) or k.step not in (None, 1):
        return False
    lo = k.start is None or (not isinstance(k.start, Scalar) and k.start == 0)
    hi = k.stop is None or (isinstance(k.stop, SymInt) and k.stop.term is d.length)
    return lo and hi


def slice_axis(k, d):
    """selection axis for slice k of root axis d, and its first index"""
    if not isinstance(d, Axis) or d.cond is not T.TRUE:
        raise Unsupported("slice of a selection")
    if k.step not in (None, 1):
        raise Unsupported("strided slice of a symbolic axis")
    lo = T.iconst(0) if k.start is None else _iterm(k.start)
    hi = d.length if k.stop is None else _iterm(k.stop)
    if not T.is_const(lo) or lo.args[0] < 0:
        if not CTX.branch(T.le(T.iconst(0), lo)):
            lo = T.add(d.length, lo)
            if not CTX.branch(T.le(T.iconst(0), lo)):
                lo = T.iconst(0)
    if hi is not d.length:
        if not CTX.branch(T.le(T.iconst(0), hi)):
            hi = T.add(d.length, hi)
            if not CTX.branch(T.le(T.iconst(0), hi)):
                hi = T.iconst(0)
        if not CTX.branch(T.le(hi, d.length)):
            hi = d.length
    cond = T.and_(T.TRUE if lo.op == "const" and lo.args[0] == 0 else T.le(lo, d.index),
                  T.TRUE if hi is d.length else T.lt(d.index, hi))
    ax = CTX.compress(d, cond, lo)
    if ax is not d:
        n = T.sub(hi, lo)
        # number of selected positions
        CTX.pc.append(T.implies(T.le(lo, hi), T.eq(ax.length, n)))
    return ax, lo


def broadcast_cells(v, dims):
    out = join_dims([v.dims, dims])
    if len(out) != len(dims) or any(not (a is b or a == b or axes_equal(a, b)) for a, b in zip(out, dims)):
        raise ValueError(f"could not broadcast input array from shape {v.dims} into shape {tuple(dims)}")
    return rnp.broadcast_to(v.cells, [clen(d) for d in dims])


# ====================================================================== creation
def from_terms(nested, dims, dtype=F64):
    cells = rnp.empty([clen(d) for d in dims], dtype=object)
    flat = rnp.array(nested, dtype=object) if not isinstance(nested, rnp.ndarray) else nested
    cells[...] = flat.reshape(cells.shape)
    return SymArray(cells, dims, dtype)


def asarray(x, dtype=None, copy=False, ndmin=0, **kw):
    kw.pop("order", None)
    kw.pop("subok", None)
    kw.pop("like", None)
    if kw:
        raise Unsupported(f"array option {kw}")
    d = None if dtype is None else rnp.dtype(dt(dtype))
    if isinstance(x, ColumnList) and x.axis is not None and d is not None and d.kind == "f" and isinstance(x.value, Scalar):
        v, ax = _asarray(x.value), x.axis
        x = ColumnList()
        x.fill(ax, py_scalar(cast(v.cells[()], v.dtype, d)))
    r = _asarray(x)
    if d is not None and d != r.dtype:
        r = r.astype(d)
    elif copy and r is x:
        r = r.copy()
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


class ColumnList(list):
    """a list; one that is filled in a loop over all columns of an axis is known by its value for the generic column"""
    __hash__ = None

    def __init__(self, *a):
        super().__init__(*a)
        self.axis = self.value = None
        self.growing = None
        self.epoch = CTX.epoch if CTX.loop_mode else None

    def items_(self):
        return [list.__getitem__(self, i) for i in range(list.__len__(self))]

    def fill(self, axis, value):
        list.clear(self)
        self.axis, self.value = axis, value

    def append(self, x):
        if self.axis is not None or self.growing is None and CTX.loop_mode and self.epoch != CTX.epoch:
            raise Unsupported("list that grows over several loops")
        list.append(self, x)

    def dv_len(self):
        return dim_len(self.axis) if self.axis is not None else list.__len__(self._read())

    def _read(self):
        if self.axis is not None or self.growing is not None:
            raise Unsupported("use of a list filled over all columns")
        return self


def _guarded(name):
    def f(self, *a, **k):
        return getattr(list, name)(self._read(), *a, **k)
    return f


for _n in ("__iter__ __len__ __getitem__ __setitem__ __delitem__ __contains__ __eq__ __ne__ __add__ __iadd__ __mul__ __rmul__ __imul__ __reversed__ "
           "__lt__ __le__ __gt__ __ge__ extend insert pop remove clear index count sort reverse copy __repr__").split():
    setattr(ColumnList, _n, _guarded(_n))


def _of_list(x):
    """array of a list with one number per column"""
    if isinstance(x.value, Scalar):
        v = _asarray(x.value)
        if v.dtype != F64:
            raise Unsupported("list of numbers of another type than float")
        c = rnp.empty((1,), dtype=object)
        c[0] = v.cells[()]
        return SymArray(c, (x.axis,), v.dtype)
    raise Unsupported("list of these values as an array")


def fromiter(x, dtype, count=-1, **kw):
    if hasattr(x, "dv_column_list"):
        x = x.dv_column_list()
    if kw or not isinstance(x, ColumnList) or x.axis is None:
        raise Unsupported("fromiter")
    return _asarray(x).astype(dtype)


def _asarray(x):
    if isinstance(x, SymArray):
        return x
    if isinstance(x, ColumnList) and x.axis is not None:
        return _of_list(x)
    if isinstance(x, SymSel):
        raise Unsupported("arithmetic on a symbolic selection")
    if isinstance(x, Scalar):
        c = rnp.empty((), dtype=object)
        c[()] = x.term
        d = x.dtype
        if d is None:
            d = F64 if isinstance(x, SymReal) else (I64 if isinstance(x, SymInt) else BOOL)
        return SymArray(c, (), d)
    if isinstance(x, (bool, rnp.bool_)):
        return _asarray(SymBool(T.boolean(bool(x))))
    if isinstance(x, (int, float, rnp.number, Fraction)):
        c = rnp.empty((), dtype=object)
        c[()] = to_term(x)
        if isinstance(x, rnp.number):
            d = rnp.dtype(type(x))
        else:
            d = I64 if isinstance(x, int) else F64
        return SymArray(c, (), d)
    if isinstance(x, rnp.ndarray):
        if x.dtype.kind not in "bifu":
            raise Unsupported(f"native array of dtype {x.dtype}")
        c = rnp.empty(x.shape, dtype=object)
        for i in rnp.ndindex(*x.shape):
            c[i] = to_term(x[i])
        return SymArray(c, x.shape, x.dtype)
    if isinstance(x, (list, tuple)):
        if not x:
            return SymArray(rnp.empty((0,), dtype=object), (0,), F64)
        parts = [_asarray(e) for e in x]
        dims = parts[0].dims
        for p in parts[1:]:
            if len(p.dims) != len(dims) or any(not (a is b or a == b or axes_equal(a, b)) for a, b in zip(p.dims, dims)):
                raise ValueError("setting an array element with a sequence. inhomogeneous shape")
        return stack(parts, axis=0)
    raise Unsupported(f"array of {type(x).__name__}")


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    return asarray(x, dtype=dtype, copy=bool(copy) if copy is not None else False, ndmin=ndmin, **kw)


def _filled(shape, term, dtype):
    dims = norm_shape(shape)
    d = rnp.dtype(dt(dtype))
    if any(isinstance(x, int) and x < 0 for x in dims):
        raise ValueError("negative dimensions are not allowed")
    cells = rnp.empty([clen(x) for x in dims], dtype=object)
    if term is not T.UNDEF:
        term = cast(term, None, d)
    elif d.kind == "b":
        term = T.mk("undef", (), "B")
    cells.fill(term)
    return SymArray(cells, dims, d)


def empty(shape, dtype=None, order="C", **kw):
    return _filled(shape, T.UNDEF, dtype)


def zeros(shape, dtype=None, order="C", **kw):
    return _filled(shape, T.iconst(0), dtype)


def ones(shape, dtype=None, order="C", **kw):
    return _filled(shape, T.iconst(1), dtype)


def full(shape, fill_value, dtype=None, order="C", **kw):
    v = asarray(fill_value)
    r = _filled(shape, T.UNDEF, dtype if dtype is not None else v.dtype)
    r[...] = fill_value
    return r


def _like(fn_):
    def f(a, dtype=None, order="K", subok=True, shape=None, **kw):
        a = asarray(a)
        r = fn_(a.shape if shape is None else shape, dtype if dtype is not None else a.dtype)
        if shape is None and order != "C":
            r.korder = a.korder
        return r
    return f


empty_like, zeros_like, ones_like = _like(empty), _like(zeros), _like(ones)


def full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    a = asarray(a)
    return full(a.shape if shape is None else shape, fill_value, dtype if dtype is not None else a.dtype)


def eye(n, m=None, k=0, dtype=None, **kw):
    r = zeros((n, m if m is not None else n), dtype)
    for i in range(n):
        if 0 <= i + k < r.dims[1]:
            r[i, i + k] = 1
    return r


def arange(*args, dtype=None):
    if len(args) == 1 and isinstance(args[0], SymInt) and args[0].axis is not None:
        ax = args[0].axis
        if ax.cond is not T.TRUE:
            raise Unsupported("arange over a selection")
        c = rnp.empty((1,), dtype=object)
        c[0] = ax.index
        r = SymArray(c, (ax,), I64)
        return r if dtype is None else r.astype(dtype)
    r = [operator.index(a) for a in args]
    return asarray(rnp.arange(*r), dtype)


# ====================================================================== ufuncs
_dtype_cache = {}


def _dt_of(x):
    if isinstance(x, SymArray):
        return x.dtype
    if isinstance(x, Scalar):
        if x.dtype is not None:
            return x.dtype
        return "float" if isinstance(x, SymReal) else ("int" if isinstance(x, SymInt) else "bool")
    if isinstance(x, rnp.ndarray) or isinstance(x, rnp.generic):
        return x.dtype
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, int):
        return "int"
    if isinstance(x, (float, Fraction)):
        return "float"
    if isinstance(x, (list, tuple)):
        return _asarray(x).dtype
    raise Unsupported(f"operand of type {type(x).__name__}")


def ufunc_dtype(name, *dts):
    key = (name,) + dts
    r = _dtype_cache.get(key)
    if r is None:
        args = []
        for d in dts:
            args.append({"float": 1.0, "int": 1, "bool": True}[d] if isinstance(d, str) else rnp.ones((1,), d))
        f = getattr(rnp, name)
        with rnp.errstate(all="ignore"):
            r = f(*args).dtype
        _dtype_cache[key] = r
    return r


def apply_ufunc(name, termfn, *xs, out=None, where=True, dtype=None, casting=None):
    """elementwise operation"""
    if casting not in (None, "same_kind", "unsafe"):
        raise Unsupported("casting")
    if all(isinstance(x, (int, float)) for x in xs) and not any(isinstance(x, Scalar) for x in xs):
        pass
    dts = tuple(_dt_of(x) for x in xs)
    arrs = [asarray(x) for x in xs]
    rd = ufunc_dtype(name, *dts)
    if dtype is not None:
        rd = rnp.dtype(dt(dtype))
    if rd.kind in "iu" and name in ("multiply", "power", "square") and \
            all(any(T.syms_of(c) for c in a.cells.flat) for a in arrs[:1 if name == "power" else 2]):
        CTX.events.append(("integer product", name))
    dims = join_dims([a.dims for a in arrs])
    shape = [clen(d) for d in dims]
    bc = [rnp.broadcast_to(a.cells, shape) if a.cells.shape != tuple(shape) else a.cells for a in arrs]
    res = rnp.empty(shape, dtype=object)
    for i in rnp.ndindex(*shape):
        v = termfn(*[b[i] for b in bc])
        if rd.kind == "f":
            v = T.to_real(v)
        elif rd.kind in "iu" and v.sort == "R":
            v = cast(v, None, rd)
        res[i] = v
    r = SymArray(res, dims, rd)
    if out is not None:
        if isinstance(out, tuple):
            out = out[0]
        if where is not True:
            w = asarray(where)
            for i in rnp.ndindex(*out.cells.shape):
                wi = rnp.broadcast_to(w.cells, out.cells.shape)[i]
                out.cells[i] = T.ite(wi, cast(rnp.broadcast_to(res, out.cells.shape)[i], rd, out.dtype), out.cells[i])
            join_dims([out.dims, w.dims, r.dims])
        else:
            if not rnp.can_cast(rd, out.dtype, "same_kind"):
                raise TypeError("Cannot cast ufunc output")
            out[...] = r
        return out
    if where is not True:
        w = asarray(where)
        dims2 = join_dims([dims, w.dims])
        res2 = rnp.empty([clen(d) for d in dims2], dtype=object)
        wb = rnp.broadcast_to(w.cells, res2.shape)
        rb = rnp.broadcast_to(res, res2.shape)
        for i in rnp.ndindex(*res2.shape):
            res2[i] = T.ite(wb[i], rb[i], T.UNDEF)
        r = SymArray(res2, dims2, rd)
    if not r.dims:
        return scalar(res[()], rd)
    r.korder = any(a.korder for a in arrs)
    return r


def _t_sign(x):
    return T.ite(T.lt(T.const(0), T.to_real(x)), T.ONE, T.ite(T.lt(T.to_real(x), T.ZERO), T.const(-1), T.ZERO))


def _t_abs(x):
    if x.sort == "I":
        return T.ite(T.lt(x, T.iconst(0)), T.neg(x), x)
    return T.fn("abs", x)


def _t_pow(a, b):
    if b.op == "const":
        q = b.args[0]
        if q.denominator == 1:
            r = T.powi(a, int(q))
            return r
        a = T.to_real(a)
        if q.denominator == 2:
            n = q.numerator
            k = (abs(n) - 1) // 2
            r = T.fn("sqrt", a)
            if k:
                r = T.mul(T.powi(a, k), r)
            return r if n > 0 else T.div(T.ONE, r)
        if abs(q - Fraction(1, 3)) < Fraction(1, 10 ** 12):
            return T.fn("cbrt", a)      # nonnegative base (NaN otherwise)
        if abs(q - Fraction(2, 3)) < Fraction(1, 10 ** 12):
            return T.powi(T.fn("cbrt", a), 2)
    return T.mk("powr", (T.to_real(a), T.to_real(b)), "R")


def _b(x):
    if x.sort == "B":
        return x
    return T.not_(T.eq(x, T.iconst(0) if x.sort == "I" else T.ZERO))


def _t_mod(a, b):
    if a.sort == "I" and b.sort == "I":
        return T.imod(a, b)
    return T.fn("mod", a, b)


def _event_div(a, b):
    r = T.div(a, b)
    CTX.events.append(("div", T.to_real(b), list(CTX.pc)))
    return r


def _bit(name):
    bo = {"bitwise_and": T.and_, "bitwise_or": T.or_, "bitwise_xor": lambda a, b: T.not_(T.eq(a, b))}[name]

    def f(a, b):
        if a.sort == "B" and b.sort == "B":
            return bo(a, b)
        raise Unsupported("bitwise operation on numbers")
    return f


def _t_max(a, b):
    a, b = T._coerce(a, b)
    return T.ite(T.lt(a, b), b, a)


def _t_min(a, b):
    a, b = T._coerce(a, b)
    return T.ite(T.lt(b, a), b, a)


def _t_floor(a):
    if a.sort == "I":
        return a
    return T.fn("floor", a)


TERMS = {
    "add": T.add, "subtract": T.sub, "multiply": T.mul, "divide": _event_div, "true_divide": _event_div,
    "negative": T.neg, "positive": lambda a: a, "absolute": _t_abs, "abs": _t_abs, "fabs": _t_abs,
    "power": _t_pow, "float_power": _t_pow, "remainder": _t_mod, "mod": _t_mod,
    "floor_divide": lambda a, b: _t_floor(T.div(a, b)), "floor": _t_floor,
    "less": T.lt, "less_equal": T.le, "greater": lambda a, b: T.lt(b, a), "greater_equal": lambda a, b: T.le(b, a),
    "equal": T.eq, "not_equal": lambda a, b: T.not_(T.eq(a, b)),
    "logical_and": lambda a, b: T.and_(_b(a), _b(b)), "logical_or": lambda a, b: T.or_(_b(a), _b(b)),
    "logical_xor": lambda a, b: T.not_(T.eq(_b(a), _b(b))), "logical_not": lambda a: T.not_(_b(a)),
    "bitwise_and": _bit("bitwise_and"), "bitwise_or": _bit("bitwise_or"), "bitwise_xor": _bit("bitwise_xor"),
    "sqrt": lambda a: T.fn("sqrt", a), "cbrt": lambda a: T.fn("cbrt", a), "square": lambda a: T.mul(a, a),
    "sin": lambda a: T.fn("sin", a), "cos": lambda a: T.fn("cos", a), "tan": lambda a: T.fn("tan", a),
    "arcsin": lambda a: T.fn("arcsin", a), "arccos": lambda a: T.fn("arccos", a),
    "arctan": lambda a: T.fn("arctan", a), "arctan2": lambda a, b: T.fn("arctan2", a, b),
    "sinh": lambda a: T.fn("sinh", a), "cosh": lambda a: T.fn("cosh", a), "tanh": lambda a: T.fn("tanh", a),
    "arctanh": lambda a: T.fn("arctanh", a),
    "arcsinh": lambda a: T.fn("arcsinh", a),
    "arccosh": lambda a: T.fn("arccosh", a),
    "exp": lambda a: T.fn("exp", a), "log": lambda a: T.fn("log", a),
    "expm1": lambda a: T.sub(T.fn("exp", a), T.ONE), "log1p": lambda a: T.fn("log", T.add(T.ONE, T.to_real(a))),
    "hypot": lambda a, b: T.fn("sqrt", T.add(T.powi(T.to_real(a), 2), T.powi(T.to_real(b), 2))),
    "radians": lambda a: T.div(T.mul(T.to_real(a), T.PI), T.const(180)),
    "deg2rad": lambda a: T.div(T.mul(T.to_real(a), T.PI), T.const(180)),
    "degrees": lambda a: T.div(T.mul(T.to_real(a), T.const(180)), T.PI),
    "rad2deg": lambda a: T.div(T.mul(T.to_real(a), T.const(180)), T.PI),
    "sign": _t_sign, "maximum": _t_max, "minimum": _t_min, "fmax": _t_max, "fmin": _t_min,
    "reciprocal": lambda a: _event_div(T.ONE, a),
    "copysign": lambda a, b: T.ite(T.lt(T.to_real(b), T.ZERO), T.neg(T.fn("abs", a)), T.fn("abs", a)),
    "isnan": T.isnan, "isfinite": lambda a: T.not_(T.isnan(a)), "isinf": lambda a: T.FALSE,
    "invert": lambda a: T.not_(a) if a.sort == "B" else (_ for _ in ()).throw(Unsupported("invert")),
    "conjugate": lambda a: a,
}


def binop(name, a, b):
    for x in (a, b):
        if not is_num(x):
            return NotImplemented
    if isinstance(a, SymInt) and isinstance(b, (SymInt, int)) or isinstance(b, SymInt) and isinstance(a, int):
        if _pyint(a) and _pyint(b):
            return _int_op(name, a, b)
    weak = all(not isinstance(x, SymArray) and (not isinstance(x, Scalar) or x.dtype is None) and
               not isinstance(x, (rnp.ndarray, rnp.generic, list, tuple)) for x in (a, b))
    if weak:
        t = TERMS[name](*[_weak(x, name) for x in (a, b)])
        return py_scalar(t)
    return apply_ufunc(name, TERMS[name], a, b)


def _weak(x, name):
    return to_term(x)


def _pyint(x):
    return isinstance(x, int) and not isinstance(x, bool) or isinstance(x, SymInt) and x.dtype is None


def _int_op(name, a, b):
    ta, tb = to_term(a), to_term(b)
    if name in ("add", "subtract", "multiply"):
        return py_scalar(TERMS[name](ta, tb)) if True else None
    if name in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal"):
        return SymBool(TERMS[name](ta, tb), None) if TERMS[name](ta, tb).op not in ("true", "false") else TERMS[name](ta, tb) is T.TRUE
    if name == "divide":
        return SymReal(_event_div(ta, tb))
    if name == "remainder":
        return SymInt(T.imod(ta, tb))
    if name == "power" and isinstance(b, int):
        return SymInt(T.powi(ta, b))
    raise Unsupported(f"integer {name}")


def unop(name, a):
    if isinstance(a, SymInt) and a.dtype is None:
        if name == "negative":
            return SymInt(T.neg(a.term))
        if name == "absolute":
            return SymInt(_t_abs(a.term))
    if isinstance(a, Scalar) and a.dtype is None:
        return py_scalar(TERMS[name](a.term))
    return apply_ufunc(name, TERMS[name], a)


class UFunc:
    def __init__(self, name):
        self.__name__ = name
        self.name = name

    def __call__(self, *xs, **kw):
        n = 2 if self.name in BINARY else 1
        if len(xs) > n:
            kw["out"] = xs[n]
            xs = xs[:n]
        for x in xs:
            if not is_num(x) or isinstance(x, SymSel):
                if isinstance(x, Poison):
                    x._die()
                if isinstance(x, SymSel) or isinstance(x, (str, type(None), dict)):
                    raise TypeError(f"ufunc '{self.name}' not supported for the input types")
                raise Unsupported(f"{self.name} of {type(x).__name__}")
        kw.pop("order", None)
        kw.pop("subok", None)
        return apply_ufunc(self.name, TERMS[self.name], *xs, **kw)

    def outer(self, a, b):
        a, b = asarray(a), asarray(b)
        return apply_ufunc(self.name, TERMS[self.name], a.reshape(a.shape + (1,) * b.ndim), b)

    def reduce(self, a, axis=0, **kw):
        f = {"add": np_sum, "multiply": np_prod, "logical_and": np_all, "logical_or": np_any,
             "maximum": np_max, "minimum": np_min}.get(self.name)
        if f is None:
            raise Unsupported(f"{self.name}.reduce")
        return f(a, axis=axis, **kw)

    def at(self, *a):
        raise Unsupported("ufunc.at")


BINARY = {"add", "subtract", "multiply", "divide", "true_divide", "power", "float_power", "remainder", "mod",
          "floor_divide", "less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and",
          "logical_or", "logical_xor", "bitwise_and", "bitwise_or", "bitwise_xor", "arctan2", "hypot", "maximum",
          "minimum", "fmax", "fmin", "copysign"}


# ====================================================================== reductions
def _axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, tuple):
        return sorted(x % a.ndim for x in axis)
    if not -a.ndim <= axis < a.ndim:
        raise ValueError(f"axis {axis} is out of bounds for array of dimension {a.ndim}")
    return [axis % a.ndim]


def _reduce(a, axis, f, init, keepdims, dtype, symaxis=None):
    a = asarray(a)
    ax = _axes(a, axis)
    for i in ax:
        if isinstance(a.dims[i], Axis):
            if symaxis is None:
                raise Unsupported("reduction over an axis of symbolic length")
            rest = [j for j in ax if j != i]
            b = _reduce(a, tuple(rest), f, init, False, dtype, symaxis) if rest else a
            b = asarray(b)
            pos = [j for j, d in enumerate(b.dims) if isinstance(d, Axis)][0]
            cells = b.cells.squeeze(pos)
            axis_ = b.dims[pos]
            out = _map(cells, lambda t: symaxis(axis_, t))
            dims = [d for j, d in enumerate(b.dims) if j != pos]
            if keepdims:
                raise Unsupported("keepdims")
            r = SymArray(out, dims, dtype or a.dtype)
            return scalar(out[()], r.dtype) if not dims else r
    moved = rnp.moveaxis(a.cells, ax, list(range(len(ax)))) if ax else a.cells
    lead = moved.shape[:len(ax)]
    rest = moved.shape[len(ax):]
    out = rnp.empty(rest, dtype=object)
    for i in rnp.ndindex(*rest):
        acc = init
        for j in rnp.ndindex(*lead):
            v = moved[j + i]
            acc = v if acc is None else f(acc, v)
        if acc is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        out[i] = acc
    dims = [d for j, d in enumerate(a.dims) if j not in ax]
    d = dtype or a.dtype
    if d.kind == "f":
        out = _map(out, T.to_real)
    r = SymArray(out, dims, d)
    if keepdims:
        r = r.reshape(tuple(1 if j in ax else dim_len(x) for j, x in enumerate(a.dims)))
    return scalar(out[()], d) if not r.dims else r


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    a = asarray(a)
    if out is not None or where is not None:
        raise Unsupported("sum options")
    d = a.dtype if a.dtype.kind == "f" else I64
    if dtype is not None:
        d = rnp.dtype(dt(dtype))
    if a.dtype.kind == "b":
        def sa(axis_, t):
            if t.sort != "B":
                raise Unsupported("sum over a symbolic axis")
            return count_term(axis_.root, T.and_(axis_.cond, t))
        if all(isinstance(a.dims[i], Axis) for i in _axes(a, axis)) and a.dims:
            if len(a.dims) > 1 and len(_axes(a, axis)) == len(a.dims) and not keepdims:
                a, axis = a.ravel(), None
            return _reduce(a, axis, None, None, keepdims, d, sa)
        a = a.astype(I64)
    init = T.iconst(0) if a.dtype.kind != "f" else T.ZERO
    if initial is not None:
        init = to_term(initial)
    return _reduce(a, axis, T.add, init, keepdims, d)


def np_prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = asarray(a)
    return _reduce(a, axis, T.mul, T.iconst(1) if a.dtype.kind != "f" else T.ONE, keepdims, a.dtype)


def np_any(a, axis=None, out=None, keepdims=False, **kw):
    def sa(axis_, t):
        return T.not_(T.eq(count_term(axis_.root, T.and_(axis_.cond, t)), T.iconst(0)))
    a = asarray(a)
    a = SymArray(_map(a.cells, _b), a.dims, BOOL)
    return _reduce(a, axis, T.or_, T.FALSE, keepdims, BOOL, sa)


def np_all(a, axis=None, out=None, keepdims=False, **kw):
    def sa(axis_, t):
        return T.eq(count_term(axis_.root, T.and_(axis_.cond, T.not_(t))), T.iconst(0))
    a = asarray(a)
    a = SymArray(_map(a.cells, _b), a.dims, BOOL)
    return _reduce(a, axis, T.and_, T.TRUE, keepdims, BOOL, sa)


def np_min(a, axis=None, out=None, keepdims=False, **kw):
    return _reduce(a, axis, _t_min, None, keepdims, None)


def np_max(a, axis=None, out=None, keepdims=False, **kw):
    return _reduce(a, axis, _t_max, None, keepdims, None)


def count_nonzero(a, axis=None, **kw):
    a = asarray(a)
    return np_sum(SymArray(_map(a.cells, _b), a.dims, BOOL), axis=axis)


def nonzero(a):
    a = asarray(a)
    if a.ndim == 1 and isinstance(a.dims[0], Axis):
        return (SymSel(a.dims[0], _b(a.cells[0])),)
    if a.ndim == 1 and a.dims[0] == 1:
        return (SymSel(SINGLE, _b(a.cells[0])),)
    if a.ndim == 1 and a.dims[0] == 0:
        return (asarray(rnp.zeros(0, dtype=rnp.int64)),)
    raise Unsupported("nonzero")


def flatnonzero(a):
    return nonzero(a)[0]


def where(c, *xy):
    if not xy:
        return nonzero(c)
    x, y = xy
    r = apply_ufunc("add", lambda a, b: T.ZERO, x, y)     # dtype and shape
    rd = ufunc_dtype("add", _dt_of(x), _dt_of(y))
    c, x, y = asarray(c), asarray(x), asarray(y)
    dims = join_dims([c.dims, x.dims, y.dims])
    shape = [clen(d) for d in dims]
    out = rnp.empty(shape, dtype=object)
    cb, xb, yb = (rnp.broadcast_to(v.cells, shape) for v in (c, x, y))
    for i in rnp.ndindex(*shape):
        out[i] = T.ite(_b(cb[i]), cast(xb[i], x.dtype, rd), cast(yb[i], y.dtype, rd))
    return SymArray(out, dims, rd)


def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where(c, v, r)
    return r


def piecewise(x, condlist, funclist, *a, **k):
    x = asarray(x)
    conds = list(condlist) if isinstance(condlist, (list, tuple)) else [condlist]
    funcs = list(funclist)
    r = zeros_like(x)
    if len(funcs) == len(conds) + 1:
        anyc = conds[0]
        for c in conds[1:]:
            anyc = anyc | c
        conds.append(~asarray(anyc))
    for c, f in zip(conds, funcs):
        c = asarray(c)
        if callable(f):
            if x.ndim == 0:
                r = where(c, f(x[()]), r).astype(x.dtype)
            else:
                r[c] = f(x[c], *a, **k)
        else:
            r[c] = f
    return r


def clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.pop("min", a_min)
    a_max = kw.pop("max", a_max)
    if kw:
        raise Unsupported("clip options")
    r = a
    if a_min is not None:
        r = UFunc("maximum")(r, a_min)
    if a_max is not None:
        r = UFunc("minimum")(r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


# ====================================================================== linear algebra
def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm order")
    x = asarray(x)
    if x.dtype.kind != "f":
        x = x.astype(F64)
    if axis is None and x.ndim != 1:
        x = x.reshape(-1)
        axis = 0
    s = np_sum(UFunc("square")(x), axis=0 if axis is None else axis, keepdims=keepdims)
    return UFunc("sqrt")(s)


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = asarray(a), asarray(b)
    a, b = moveaxis(a, axisa, 0), moveaxis(b, axisb, 0)
    if a.dims[0] != 3 or b.dims[0] != 3:
        raise Unsupported("cross product of other than 3-vectors")
    a, b = [a[i] for i in range(3)], [b[i] for i in range(3)]
    r = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    r = stack([asarray(x) for x in r], axis=0)
    return moveaxis(r, 0, axisc)


def dot(a, b, out=None):
    a, b = asarray(a), asarray(b)
    if not a.dims or not b.dims:
        return binop("multiply", a, b)
    if b.ndim == 1:
        return einsum_("a" if a.ndim == 1 else "xyzw"[:a.ndim - 1] + "a", "a", "" if a.ndim == 1 else "xyzw"[:a.ndim - 1], a, b)
    la = "xyzw"[:a.ndim - 1] + "a"
    lb = "pqrs"[:b.ndim - 2] + "a" + "t"
    return einsum_(la, lb, la[:-1] + lb[:-2] + "t", a, b)


def inner(a, b):
    a, b = asarray(a), asarray(b)
    return einsum_("xyzw"[:a.ndim - 1] + "a", "pqrs"[:b.ndim - 1] + "a", "xyzw"[:a.ndim - 1] + "pqrs"[:b.ndim - 1], a, b)


def vdot(a, b):
    return inner(asarray(a).ravel(), asarray(b).ravel())


def outer(a, b):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return einsum_("a", "b", "ab", a, b)


def matmul(a, b, **kw):
    a, b = asarray(a), asarray(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    if a.ndim < 2 or b.ndim < 2:
        raise Unsupported("matmul")
    n = max(a.ndim, b.ndim) - 2
    lead = "pqrs"[:n]
    la = lead[n - (a.ndim - 2):] + "xa"
    lb = lead[n - (b.ndim - 2):] + "ay"
    return einsum_(la, lb, lead + "xy", a, b)


def einsum_(la, lb, lo, a, b):
    return einsum(f"{la},{lb}->{lo}", a, b)


def einsum(spec, *ops, **kw):
    ops = [asarray(o) for o in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = sorted(set(ins.replace(",", "").replace(".", "")))
        out = "".join(c for c in letters if ins.count(c) == 1)
        if "..." in ins:
            out = "..." + out
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise ValueError("einsum operand count")
    if "..." in spec:
        extra = max(o.ndim - len(i.replace("...", "")) for o, i in zip(ops, ins) if "..." in i)
        big = "ABCDEFGH"[:extra]
        new = []
        for o, i in zip(ops, ins):
            if "..." in i:
                k = o.ndim - len(i.replace("...", ""))
                i = i.replace("...", big[extra - k:] if k else "")
            new.append(i)
        ins = new
        out = out.replace("...", big)
    dims = {}
    for o, i in zip(ops, ins):
        if len(i) != o.ndim:
            raise ValueError("einsum subscripts do not match the operand")
        for c, d in zip(i, o.dims):
            if c in dims and not (isinstance(dims[c], int) and dims[c] == 1):
                if isinstance(d, int) and d == 1:
                    continue
                if not (dims[c] is d or dims[c] == d or axes_equal(dims[c], d)):
                    raise ValueError("einsum dimension mismatch")
            else:
                dims[c] = d
    summed = [c for c in dims if c not in out]
    for c in summed:
        if isinstance(dims[c], Axis):
            raise Unsupported("summation over a symbolic axis")
    odims = [dims[c] for c in out]
    res = rnp.empty([clen(d) for d in odims], dtype=object)
    for oi in rnp.ndindex(*res.shape):
        env = dict(zip(out, oi))
        acc = T.ZERO
        for si in rnp.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, si))
            p = None
            for o, i in zip(ops, ins):
                idx = tuple(0 if o.cells.shape[k] == 1 else env[c] for k, c in enumerate(i))
                t = o.cells[idx]
                p = t if p is None else T.mul(p, t)
            acc = T.add(acc, T.to_real(p))
        res[oi] = acc
    d = rnp.result_type(*[o.dtype for o in ops])
    if d.kind != "f":
        res = _map(res, lambda t: cast(t, None, F64))
        raise Unsupported("integer einsum")
    return scalar(res[()], d) if not odims else SymArray(res, odims, d)


def moveaxis(a, src, dst):
    a = asarray(a)
    s = src % a.ndim if isinstance(src, int) else None
    if s is None:
        raise Unsupported("moveaxis of several axes")
    order = [i for i in range(a.ndim) if i != s]
    order.insert(dst % a.ndim, s)
    return a.transpose(order)


def stack(arrays, axis=0, **kw):
    arrs = [asarray(a) for a in arrays]
    if not arrs:
        raise ValueError("need at least one array to stack")
    dims = arrs[0].dims
    for p in arrs:
        if len(p.dims) != len(dims) or any(not (a is b or a == b or axes_equal(a, b)) for a, b in zip(p.dims, dims)):
            raise ValueError("all input arrays must have the same shape")
    nd = len(dims) + 1
    axis = axis % nd
    d = rnp.result_type(*[a.dtype for a in arrs])
    cells = rnp.stack([_map(a.cells, lambda t, a=a: cast(t, a.dtype, d)) for a in arrs], axis=axis)
    return SymArray(cells, tuple(dims[:axis]) + (len(arrs),) + tuple(dims[axis:]), d)


def concatenate(arrays, axis=0, **kw):
    arrs = [asarray(a) for a in arrays]
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        axis = 0
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % nd
    if any(a.ndim != nd for a in arrs):
        raise ValueError("all the input array dimensions must match exactly")
    d = rnp.result_type(*[a.dtype for a in arrs])
    arrs = [a if a.dtype == d else a.astype(d) for a in arrs]
    for i in range(nd):
        if i != axis:
            for a in arrs[1:]:
                x, y = a.dims[i], arrs[0].dims[i]
                if not (x is y or x == y or axes_equal(x, y)):
                    if isinstance(x, Axis) or isinstance(y, Axis):
                        if isinstance(x, Axis) and isinstance(y, Axis):
                            raise Unsupported("concatenation of different axes")
                    raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    if not any(isinstance(a.dims[axis], Axis) for a in arrs):
        cells = rnp.concatenate([a.cells for a in arrs], axis=axis)
        dims = list(arrs[0].dims)
        dims[axis] = sum(a.dims[axis] for a in arrs)
        return SymArray(cells, dims, d)
    res = arrs[0]
    for b in arrs[1:]:
        res = _concat2(res, b, axis)
    return SymArray(res.cells.copy(), res.dims, d)


def _concat2(a, b, axis):
    da, db = a.dims[axis], b.dims[axis]
    for x, y in ((a, da), (b, db)):
        if not isinstance(y, Axis) and y not in (0, 1):
            raise Unsupported("concatenation of a concrete block to a symbolic axis")
    if db == 0 and not isinstance(db, Axis):
        return a
    if da == 0 and not isinstance(da, Axis):
        return b
    la = da.length if isinstance(da, Axis) else T.iconst(1)
    lb = db.length if isinstance(db, Axis) else T.iconst(1)
    key = (la, lb)
    if key not in CTX.concats:
        n = len(CTX.concats)
        ax = Axis(f"cat{n}", T.add(la, lb), T.sym(f"J_cat{n}", "I"))
        CTX.concats[key] = ax
        CTX.axes[ax.length] = ax
        CTX.pc.append(T.le(T.iconst(0), ax.index))
        CTX.pc.append(T.lt(ax.index, ax.length))
    ax = CTX.concats[key]
    for y in (da, db):
        if isinstance(y, Axis) and (y.cond is not T.TRUE or y.root.parts):
            raise Unsupported("concatenation of selections")
    ma = {da.index: ax.index} if isinstance(da, Axis) else {}
    mb = {db.index: T.sub(ax.index, la)} if isinstance(db, Axis) else {}
    first = T.lt(ax.index, la)
    shape = a.cells.shape
    cells = rnp.empty(shape, dtype=object)
    bc = rnp.broadcast_to(b.cells, shape)
    for i in rnp.ndindex(*shape):
        cells[i] = T.ite(first, T.subst(a.cells[i], ma), T.subst(bc[i], mb))
    dims = list(a.dims)
    dims[axis] = ax
    return SymArray(cells, dims, a.dtype)


def append(arr, values, axis=None):
    arr, values = asarray(arr), asarray(values)
    if axis is None:
        arr, values = arr.ravel(), values.ravel()
        axis = 0
    return concatenate([arr, values], axis=axis)


def delete(arr, obj, axis=None):
    arr = asarray(arr)
    if axis is None:
        arr = arr.ravel()
        axis = 0
    axis = axis % arr.ndim
    d = arr.dims[axis]
    if not isinstance(d, Axis):
        obj = constants(obj)
        if isinstance(obj, (int, list, tuple, slice, rnp.ndarray)):
            keep = rnp.delete(rnp.arange(d), obj)
            return SymArray(rnp.take(arr.cells, keep, axis=axis), arr.dims[:axis] + (len(keep),) + arr.dims[axis + 1:], arr.dtype)
        raise Unsupported("delete")
    cond = selection_cond(obj, d)
    m = _filled((dim_len(d),), T.TRUE, BOOL)
    m.cells[0] = T.not_(cond)
    key = (slice(None),) * axis + (m,)
    return arr[key]


def selection_cond(obj, d):
    """membership condition (over the generic index of d) of an index object"""
    if isinstance(obj, slice):
        if obj == slice(None):
            return T.TRUE
        ax, lo = slice_axis(obj, d)
        return ax.cond
    if isinstance(obj, SymArray) and obj.dtype.kind == "b" and obj.ndim == 1 and axes_equal(obj.dims[0], d):
        return obj.cells[0]
    if isinstance(obj, SymSel):
        return obj.cond_for(d)
    if isinstance(obj, (int, SymInt)) and not isinstance(obj, bool):
        k = to_term(obj)
        if not CTX.branch(T.and_(T.le(T.neg(d.length), k), T.lt(k, d.length))):
            raise IndexError("index out of bounds")
        if not CTX.branch(T.le(T.iconst(0), k)):
            k = T.add(k, d.length)
        return T.eq(d.index, k)
    raise Unsupported(f"selection of type {type(obj).__name__}")


def insert(*a, **k):
    raise Unsupported("insert")


def vstack(arrays, **kw):
    return concatenate([atleast_2d(a) for a in arrays], axis=0)


def hstack(arrays, **kw):
    arrs = [atleast_1d(a) for a in arrays]
    return concatenate(arrs, axis=0 if arrs[0].ndim == 1 else 1)


def column_stack(arrays):
    return stack(list(arrays), axis=1)


def atleast_1d(*xs):
    r = [asarray(x) if asarray(x).ndim else asarray(x).reshape((1,)) for x in xs]
    return r[0] if len(r) == 1 else r


def atleast_2d(*xs):
    r = []
    for x in xs:
        x = atleast_1d(x)
        r.append(x if x.ndim > 1 else x.reshape((1,) + x.shape))
    return r[0] if len(r) == 1 else r


def broadcast_to(a, shape, **kw):
    a = asarray(a)
    dims = norm_shape(shape)
    c = broadcast_cells(a, dims)
    r = SymArray(c, dims, a.dtype)
    r.frozen = "broadcast (read-only)"
    return r


def broadcast_arrays(*xs, **kw):
    arrs = [asarray(x) for x in xs]
    dims = join_dims([a.dims for a in arrs])
    return [broadcast_to(a, tuple(dim_len(d) for d in dims)) for a in arrs]


def expand_dims(a, axis):
    a = asarray(a)
    ax = axis % (a.ndim + 1)
    return a.reshape(a.shape[:ax] + (1,) + a.shape[ax:])


def tile(a, reps):
    raise Unsupported("tile")


def repeat(*a, **k):
    raise Unsupported("repeat")


def ndim(x):
    if isinstance(x, SymSel):
        return 1
    return asarray(x).ndim


def np_shape(x):
    return asarray(x).shape


def np_size(x, axis=None):
    return asarray(x).size if axis is None else asarray(x).shape[axis]


def isscalar(x):
    return isinstance(x, (Scalar, int, float, str, bool))


def result_type(*xs):
    args = []
    for x in xs:
        if isinstance(x, SymArray):
            args.append(x.dtype)
        elif isinstance(x, Scalar):
            if x.dtype is not None:
                args.append(x.dtype)
            else:
                args.append({"SymReal": 1.0, "SymInt": 1, "SymBool": True}[type(x).__name__])
        elif isinstance(x, (list, tuple)):
            args.append(_asarray(x).dtype)
        else:
            args.append(dt(x))
    return rnp.result_type(*args)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if CTX.isclose_hook is not None:
        hook = CTX.isclose_hook
        return apply_ufunc("equal", hook, a, b)
    rt, at = to_term(rtol), to_term(atol)

    def f(x, y):
        x, y = T.to_real(x), T.to_real(y)
        c = T.le(T.fn("abs", T.sub(x, y)), T.add(T.to_real(at), T.mul(T.to_real(rt), T.fn("abs", y))))
        if equal_nan:
            c = T.or_(c, T.and_(T.isnan(x), T.isnan(y)))
        return c
    return apply_ufunc("equal", f, a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np_all(isclose(a, b, rtol, atol, equal_nan))
    return py_scalar(r.term) if isinstance(r, Scalar) else r


def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    try:
        r = np_all(binop("equal", a, b))
    except ValueError:
        return False
    return r


class vectorize:
    def __init__(self, f, otypes=None, excluded=None, **kw):
        self.f = f
        self.otypes = otypes
        if kw or excluded:
            raise Unsupported("vectorize options")

    def __call__(self, *xs):
        arrs = [asarray(x) for x in xs]
        dims = join_dims([a.dims for a in arrs])
        shape = [clen(d) for d in dims]
        outs = []
        for i in rnp.ndindex(*shape):
            args = [scalar(rnp.broadcast_to(a.cells, shape)[i], a.dtype) for a in arrs]
            outs.append(self.f(*args))
        if isinstance(outs[0], tuple):
            raise Unsupported("vectorize with several results")
        cells = rnp.empty(shape, dtype=object)
        d = rnp.dtype(dt(self.otypes[0])) if self.otypes else rnp.result_type(*[asarray(o).dtype for o in outs])
        for i, o in zip(rnp.ndindex(*shape), outs):
            cells[i] = cast(to_term(o), None, d)
        r = SymArray(cells, dims, d)
        return r if dims else scalar(cells[()], d)


class nditer:
    """np.nditer over arrays of one common shape: elements in order"""

    def __init__(self, op, flags=None, op_flags=None, order="K", **kw):
        if kw:
            raise Unsupported("nditer options")
        if flags and any(f not in ("refs_ok", "zerosize_ok", "buffered", "external_loop") for f in flags):
            raise Unsupported("nditer flags")
        if flags and "external_loop" in flags:
            raise Unsupported("nditer external_loop")
        self.single = isinstance(op, SymArray)
        ops = [op] if self.single else list(op)
        if any(o is None for o in ops):
            raise Unsupported("nditer allocation")
        self.ops = [asarray(o) for o in ops]
        if op_flags is None:
            fl = [["readonly"]] * len(self.ops)
        elif op_flags and isinstance(op_flags[0], str):
            fl = [op_flags] * len(self.ops)
        else:
            fl = list(op_flags)
        self.writable = [any(x in ("readwrite", "writeonly") for x in f) for f in fl]
        self.dims = join_dims([o.dims for o in self.ops])
        self.axis = None
        if order != "C" and self.single and self.dims and self.ops[0].korder:
            raise Unsupported("iteration in memory order over an array of unknown layout: the position of an element "
                              "depends on its strides")
        sym = [d for d in self.dims if isinstance(d, Axis)]
        if sym:
            if len(self.dims) != len(sym):
                raise Unsupported("nditer over symbolic and concrete axes")
            self.axis = CTX.product(sym)
        self.pos = 0
        self.n = 1
        for d in self.dims:
            self.n *= clen(d)
        if any(isinstance(d, int) and d == 0 for d in self.dims) and not (flags and "zerosize_ok" in flags):
            raise ValueError("Iteration of zero-sized operands is not enabled")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def _elem(self, o, w, i):
        b = o.cells if o.cells.shape == tuple(clen(d) for d in self.dims) else rnp.broadcast_to(o.cells, [clen(d) for d in self.dims])
        idx = rnp.unravel_index(i, b.shape) if b.shape else ()
        c = b[tuple(idx) + (Ellipsis,)]
        v = SymArray(c, (), o.dtype)
        v.epoch = o.epoch
        v.elem = True
        if not w:
            v.frozen = "read-only iterator"
        return v

    def __next__(self):
        if self.axis is not None:
            if CTX.loop_mode and CTX.loop_mode[-1] == self.axis:
                r = tuple(self._elem(o, w, 0) for o, w in zip(self.ops, self.writable))
                return r[0] if self.single else r
            raise Unsupported("nditer outside a loop over the same axis")
        if self.pos >= self.n:
            raise StopIteration
        r = tuple(self._elem(o, w, self.pos) for o, w in zip(self.ops, self.writable))
        self.pos += 1
        return r[0] if self.single else r

    def __iter__(self):
        return self


class ndindex:
    """np.ndindex: positions of an array in C order"""

    def __init__(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        self.dims = norm_shape(shape)
        self.axis = None
        sym = [d for d in self.dims if isinstance(d, Axis)]
        if sym:
            if len(sym) != len(self.dims):
                raise Unsupported("ndindex over symbolic and concrete axes")
            self.axis = CTX.product(sym)
        else:
            self.it = iter(rnp.ndindex(*self.dims))

    def element(self):
        return tuple(SymInt(d.index) for d in self.dims)

    def __iter__(self):
        return self

    def __next__(self):
        if self.axis is not None:
            raise Unsupported("ndindex outside a loop over the same axes")
        return next(self.it)


class ndenumerate(ndindex):
    """np.ndenumerate: positions and elements"""

    def __init__(self, arr):
        self.arr = asarray(arr)
        super().__init__(*self.arr.dims)

    def element(self):
        i = super().element()
        return i, self.arr[i]

    def __next__(self):
        i = super().__next__()
        return i, self.arr[i]


class _ErrState:
    def __init__(self, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


class _Linalg:
    norm = staticmethod(norm)

    @staticmethod
    def det(a):
        a = asarray(a)
        if a.dims != (3, 3):
            raise Unsupported("det")
        return dot(a[:, 0], cross(a[:, 1], a[:, 2]))

    def __getattr__(self, n):
        raise Unsupported(f"numpy.linalg.{n}")


def apply_along_axis(f, axis, a, *args, **kw):
    raise Unsupported("apply_along_axis")


class NP:
    """the object that the code under verification sees as `numpy`"""

    def __init__(self):
        for n in TERMS:
            setattr(self, n, UFunc(n))
        self.pi = SymReal(T.PI)
        self.e = SymReal(T.sym("EULER"))
        self.nan = SymReal(T.NAN)
        self.NaN = self.nan
        self.inf = SymReal(T.INF)
        self.newaxis = None
        self.ndarray = SymArray
        self.linalg = _Linalg()
        for n in ("float64", "float32", "float16", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32",
                  "uint64", "bool_", "longdouble", "intp", "double", "single"):
            setattr(self, n, DTypeProxy(getattr(rnp, n)))
        for n in ("floating", "integer", "number", "generic", "inexact", "signedinteger", "unsignedinteger"):
            setattr(self, n, getattr(rnp, n))
        self.complexfloating = rnp.complexfloating
        self.object_ = rnp.object_
        self.dtype = lambda d: rnp.dtype(dt(d))
        g = globals()
        for n in ("asarray", "array", "empty", "zeros", "ones", "full", "empty_like", "zeros_like", "ones_like",
                  "full_like", "eye", "arange", "count_nonzero", "nonzero", "flatnonzero", "where", "select",
                  "piecewise", "clip", "cross", "dot", "inner", "vdot", "outer", "matmul", "einsum", "moveaxis",
                  "stack", "concatenate", "append", "delete", "insert", "vstack", "hstack", "column_stack",
                  "atleast_1d", "atleast_2d", "broadcast_to", "broadcast_arrays", "expand_dims", "tile", "repeat",
                  "ndim", "isscalar", "result_type", "isclose", "allclose", "array_equal", "vectorize", "nditer", "ndindex", "ndenumerate",
                  "apply_along_axis", "fromiter"):
            setattr(self, n, g[n])
        self.identity = eye
        self.asanyarray = asarray
        self.ascontiguousarray = asarray
        self.asfarray = lambda x: asarray(x, F64)
        self.row_stack = vstack
        self.sum = np_sum
        self.prod = np_prod
        self.any = np_any
        self.all = np_all
        self.amin = self.min = np_min
        self.amax = self.max = np_max
        self.shape = np_shape
        self.size = np_size
        self.errstate = _ErrState
        self.acos, self.asin, self.atan, self.atan2 = self.arccos, self.arcsin, self.arctan, self.arctan2
        self.atanh, self.asinh, self.acosh, self.pow = self.arctanh, self.arcsinh, self.arccosh, self.power
        self.can_cast = lambda a, b, **k: rnp.can_cast(dt(getattr(a, "dtype", a)), dt(b), **k)
        self.issubdtype = lambda a, b: rnp.issubdtype(dt(a), dt(b))
        self.promote_types = lambda a, b: rnp.promote_types(dt(a), dt(b))
        self.seterr = lambda **k: {}

    def copy(self, a, **k):
        return asarray(a).copy()

    def copyto(self, dst, src, where=True, **k):
        if where is True:
            dst[...] = src
        else:
            w = asarray(where)
            r = globals()["where"](w, src, dst)
            dst[...] = r

    def putmask(self, a, mask, values):
        self.copyto(a, values, where=mask)

    def ravel(self, a, **k):
        return asarray(a).ravel()

    def reshape(self, a, shape, **k):
        return asarray(a).reshape(shape)

    def squeeze(self, a, axis=None):
        return asarray(a).squeeze(axis)

    def transpose(self, a, axes=None):
        return asarray(a).transpose(axes) if axes is not None else asarray(a).transpose()

    def swapaxes(self, a, x, y):
        return asarray(a).swapaxes(x, y)

    def take(self, a, idx, axis=None):
        return asarray(a)[(slice(None),) * (axis or 0) + (idx,)]

    def ldexp(self, a, b):
        raise Unsupported("ldexp")

    def finfo(self, d):
        f = rnp.finfo(dt(d))

        class F:
            eps = SymReal(T.const(Fraction(float(f.eps))), F64)
            tiny = SymReal(T.const(Fraction(float(f.tiny))), F64)
        return F

    def heaviside(self, x, h):
        return apply_ufunc("maximum", lambda a, b: T.ite(T.lt(T.to_real(a), T.ZERO), T.ZERO,
                           T.ite(T.lt(T.ZERO, T.to_real(a)), T.ONE, T.to_real(b))), x, h)

    def nan_to_num(self, *a, **k):
        raise Unsupported("nan_to_num")

    def iscomplexobj(self, x):
        return False

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"numpy.{n}")

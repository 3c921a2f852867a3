"""Symbolic strings: all strings with a given canonical form at once.

A class of strings is {s : canonical(s) == word}, where canonical is a
composition of lower() and the removal of characters (a homomorphism: it acts
character by character) and, possibly, strip().  The code under verification
gets an object that stands for every string of the class and may only apply
character-wise operations to it, until the operations applied so far equal the
canonical form on every character of Unicode: from there on all strings of the
class are the same string, the word, and execution goes on with that."""
import functools
import sys

from .ctx import Unsupported

ALPHABET = [chr(c) for c in range(sys.maxunicode + 1) if not 0xD800 <= c < 0xE000]


@functools.lru_cache(None)
def images(ops):
    """what each character becomes; lower() is context free except for the final sigma, which no word contains"""
    out = ALPHABET
    for op in ops:
        if op[0] == "call":
            out = [getattr(x, op[1])() for x in out]
        else:
            out = [x.replace(op[1], op[2]) for x in out]
    return tuple(out)


class Canonical:
    def __init__(self, *ops, strip=False):
        self.ops = tuple(ops)
        self.strip = strip

    def apply(self, s):
        for op in self.ops:
            s = getattr(s, op[1])() if op[0] == "call" else s.replace(op[1], op[2])
        return s.strip() if self.strip else s

    @property
    def key(self):
        return images(self.ops)


LOWER = ("call", "lower")


class SymStr(str):
    """every string whose canonical form is `word`"""

    def __new__(cls, canonical, word, ops=(), strip=False):
        s = super().__new__(cls, f"<string with canonical form {word}>")
        s.canonical, s.word, s.ops, s.stripped = canonical, word, tuple(ops), strip
        return s

    def _next(self, op=None, strip=False):
        ops = self.ops + ((op,) if op else ())
        strip = self.stripped or strip
        c = self.canonical
        if strip and any(x.isspace() != (y.strip() != y or y.isspace()) for x, y in zip(ALPHABET, images(ops)) if x.isspace() or y.strip() != y):
            # strip() does not commute with these operations
            raise Unsupported(f"strip together with {ops}")
        if strip == c.strip and images(ops) == c.key:
            return self.word
        if strip and not c.strip:
            raise Unsupported("strip() of a string whose surrounding space is significant")
        return SymStr(c, self.word, ops, strip)

    def lower(self):
        return self._next(("call", "lower"))

    def upper(self):
        return self._next(("call", "upper"))

    def casefold(self):
        return self._next(("call", "casefold"))

    def swapcase(self):
        return self._next(("call", "swapcase"))

    def replace(self, old, new, count=-1):
        if count != -1 or len(old) != 1:
            raise Unsupported("replace of more than single characters in a symbolic string")
        return self._next(("replace", old, new))

    def translate(self, table):
        r = self
        for c, x in table.items():
            c = chr(c) if isinstance(c, int) else c
            x = "" if x is None else chr(x) if isinstance(x, int) else x
            if any(ord(y) in table for y in x):
                raise Unsupported("translate")
            r = r.replace(c, x)
        return r

    def strip(self, chars=None):
        if chars is not None:
            raise Unsupported("strip of given characters")
        return self._next(strip=True)

    def __format__(self, spec):
        return str.__str__(self)

    def __str__(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class Other(str):
    """a string different from every string the code mentions"""

    def __new__(cls, mark="\x00other\x00"):
        return super().__new__(cls, mark)

    def lower(self):
        return self

    casefold = strip = lower

    def __format__(self, spec):
        return "<other>"


def _forbid(cls, allowed):
    for n in dir(str):
        if n in allowed or n in vars(cls):
            continue
        if callable(getattr(str, n)):
            def f(self, *a, _n=n, **k):
                raise Unsupported(f"{_n} of a symbolic string")
            setattr(cls, n, f)


_forbid(SymStr, {"__new__", "__init__", "__class__", "__getattribute__", "__setattr__", "__delattr__", "__repr__", "__init_subclass__",
                 "__subclasshook__", "__dir__", "__doc__", "__sizeof__", "__reduce__", "__reduce_ex__", "__getstate__", "__bool__"})
_forbid(Other, {"__new__", "__init__", "__class__", "__getattribute__", "__setattr__", "__delattr__", "__repr__", "__str__", "__eq__", "__ne__",
                "__hash__", "__init_subclass__", "__subclasshook__", "__dir__", "__doc__", "__sizeof__", "__reduce__", "__reduce_ex__",
                "__getstate__", "__bool__", "__copy__", "__deepcopy__"})


def words(canonical, table, src):
    """classes to look at: the known words, every other string mentioned in the source and one that is not mentioned"""
    import ast
    known = list(table)
    other = set()
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 40:
            other.add(canonical.apply(n.value))
    extra = sorted(w for w in other if w not in table)
    return known, extra + [Other()]

"""State that outlives a call: module variables, function attributes, defaults, closures and class attributes.

The contracts speak about one call from an arbitrary state of its arguments (and of the instance). That covers every history of calls only if
calls leave nothing else behind, so this is checked: after every execution the modules have to be as they were."""
import types

REASONS = []        # what was found to outlive a call
LOADERS = []


def _content(v, depth=0):
    """objects whose replacement is a change of state"""
    out = [v]
    if depth > 3:
        return out
    if isinstance(v, dict):
        for k, x in list(dict.items(v)):
            out += [k] + _content(x, depth + 1)
    elif isinstance(v, (list, tuple, set, frozenset)):
        try:
            items = list.__iter__(v) if isinstance(v, list) else iter(v)
        except TypeError:
            items = ()
        for x in items:
            out += _content(x, depth + 1)
    elif type(v).__name__ == "SymArray":
        out += list(v.cells.reshape(-1))
    elif isinstance(v, types.FunctionType):
        if not (v.__module__ or "").startswith("pyorb"):
            return out          # a contract in place of a function
        out += _content(v.__defaults__, depth + 1) + _content(v.__kwdefaults__, depth + 1) + _content(v.__dict__, depth + 1)
        for c in v.__closure__ or ():
            try:
                out += _content(c.cell_contents, depth + 1)
            except ValueError:
                out.append(None)
    elif isinstance(v, type) and getattr(v, "__module__", "").startswith("pyorb"):
        for k, x in list(vars(v).items()):
            if k not in ("__dict__", "__weakref__", "__doc__", "__slotnames__"):
                out += [k] + _content(x, depth + 1)
    elif isinstance(v, property):
        for f in (v.fget, v.fset):
            out += _content(f, depth + 1)
    elif type(v).__module__.startswith("pyorb") and hasattr(v, "__dict__"):
        out += _content(vars(v), depth + 1)
    return out


def snapshot():
    s = {}
    for n in sorted(set(range(len(LOADERS))[:6]) | set(range(len(LOADERS))[-6:])):
        L = LOADERS[n]
        for mn, m in list(L.modules.items()):
            if not mn.startswith("pyorb"):
                continue
            for k, v in list(vars(m).items()):
                if type(k) is str and not k.startswith("__") and k != "_dv_loader" and not isinstance(v, types.ModuleType):
                    s[n, mn, k] = _content(v)
    return s


def same(a, b):
    return a is b or type(a) is type(b) and isinstance(a, (str, int, bool, float)) and a == b or \
        isinstance(a, types.MethodType) and isinstance(b, types.MethodType) and a.__func__ is b.__func__


def compare(before, after):
    loaded = {k[:2] for k in before}
    for k, new in after.items():
        if k[:2] not in loaded:
            continue            # a module that was loaded meanwhile
        old = before.get(k)
        if old is None or len(old) != len(new) or not all(map(same, old, new)):
            note(f"{k[1]}.{k[2]} changes")


def note(reason):
    if reason not in REASONS:
        REASONS.append(reason)

"""the numbers and texts that the current source mentions, to aim random cases at its limits"""
import ast
import functools
import glob
import os

ROOT = os.path.join(os.environ.get("PYORB_REPO", "/repo"), "pyorb")


@functools.lru_cache(None)
def _of(file):
    nums, texts = set(), set()
    try:
        tree = ast.parse(open(os.path.join(ROOT, file)).read())
    except (OSError, SyntaxError):
        return (), ()
    docs = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and id(n) not in docs:
            if isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                nums.add(abs(float(n.value)))
            elif isinstance(n.value, str) and len(n.value) < 30:
                texts.add(n.value)
    return tuple(sorted(nums)), tuple(sorted(texts))


def numbers(*files, lo=0.0, hi=1e12):
    return [x for f in files or [os.path.basename(p) for p in sorted(glob.glob(ROOT + "/*.py"))] for x in _of(f)[0] if lo <= x <= hi]


def texts(*files):
    return [x for f in files for x in _of(f)[1]]


def beside(rng, x):
    """a number at x or a little beside it"""
    return rng.choice([x, x, x * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -1)), x * (1 + 1e-6), x * 0.999999, x * 0.9, x * 1.1, x * 2 ** rng.uniform(-1, 1)])

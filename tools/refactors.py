"""behaviour-preserving edits of pyorb, on which the checks have to stay quiet

refactors.py list | apply NAME DIR | run [NAME...]   (run: in a scratch copy of /repo; prints every alarm)
An edit is a list of (file, qualified name[#occurrence] or old text, new text); functions are replaced as a whole."""
import ast
import os
import re
import shutil
import subprocess
import sys
import textwrap

K, O, U, C = "pyorb/kepler.py", "pyorb/orbit.py", "pyorb/unit.py", "pyorb/const.py"
KEPLER = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C25", "C26", "C27"]
ORBIT = ["C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C27"]
EDITS = {}


def edit(name, checks, *parts):
    EDITS[name] = (checks.split(), parts)


def find(src, qual):
    qual, _, nth = qual.partition("#")
    nth = int(nth or 0)
    body = ast.parse(src).body
    parts = qual.split(".")
    for p in parts[:-1]:
        body = next(n for n in body if getattr(n, "name", None) == p).body
    node = [n for n in body if getattr(n, "name", None) == parts[-1]][nth]
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    return first, node.end_lineno, node.col_offset


def tolerant(text):
    """regular expression for this text with any spacing, blank lines and comments"""
    lines = text.rstrip("\n").split("\n")
    gap = r"(?:[ \t]*#[^\n]*)?\n(?:[ \t]*(?:#[^\n]*)?\n)*[ \t]*"
    pat = gap.join(r"[ \t]*".join(re.escape(c) for c in ln if not c.isspace()) for ln in lines)
    return r"()" + r"[ \t]*" * text.startswith(" ") + pat + (r"(?:[ \t]*#[^\n]*)?\n" if text.endswith("\n") else "")


def apply(name, root):
    for f, what, new in EDITS[name][1]:
        p = os.path.join(root, f)
        src = open(p).read()
        if what.startswith("TEXT:"):
            src, n = re.subn(tolerant(what[5:]), lambda m: m.group(1) + new, src)
            assert n, (name, what)
        else:
            a, b, col = find(src, what)
            lines = src.split("\n")
            txt = textwrap.indent(textwrap.dedent(new).strip("\n"), " " * col)
            src = "\n".join(lines[:a - 1] + txt.split("\n") + lines[b:])
        open(p, "w").write(src)


# ------------------------------------------------------------------ kepler
edit("pair-helper", "C04 C05 C07 C08 C09 C27", (K, "true_to_eccentric", '''
def _as_pair(x, e):
    """both as arrays of one shape"""
    if not isinstance(x, np.ndarray):
        x = np.ones(e.shape, dtype=e.dtype)*x
    if not isinstance(e, np.ndarray):
        e = np.ones(x.shape, dtype=x.dtype)*e
    if x.shape != e.shape:
        raise TypeError('Input dimensions does not agree')
    return x, e


def true_to_eccentric(nu, e, degrees=False):
    """true to eccentric"""
    _nu = np.radians(nu) if degrees else nu

    if isinstance(_nu, np.ndarray) or isinstance(e, np.ndarray):
        _nu, e = _as_pair(_nu, e)
        E = np.empty(_nu.shape, dtype=np.result_type(_nu, e, np.float32))
        eli = e < 1
        hyp = e > 1
        per = e == 1
        E[eli] = 2.0*np.arctan(np.sqrt((1.0 - e[eli])/(1.0 + e[eli]))*np.tan(_nu[eli]*0.5))
        E[hyp] = 2.0*np.arctanh(np.sqrt((e[hyp] - 1.0)/(e[hyp] + 1.0))*np.tan(_nu[hyp]*0.5))
        E[per] = np.tan(_nu[per]*0.5)
    else:
        half_tan = np.tan(_nu*0.5)
        if e > 1:
            E = 2.0*np.arctanh(np.sqrt((e - 1.0)/(e + 1.0))*half_tan)
        elif e == 1:
            E = half_tan
        else:
            E = 2.0*np.arctan(np.sqrt((1.0 - e)/(1.0 + e))*half_tan)

    E = np.where(e < 1, np.mod(E + 2.0*np.pi, 2.0*np.pi), E)[()]
    return np.degrees(E) if degrees else E
'''), (K, "eccentric_to_mean", '''
def eccentric_to_mean(E, e, degrees=False):
    """eccentric to mean"""
    _E = np.radians(E) if degrees else E

    def elliptic(E, e):
        return E - e*np.sin(E)

    def hyperbolic(E, e):
        return e*np.sinh(E) - E

    def parabolic(E):
        return E + E**3/3.0

    if isinstance(_E, np.ndarray) or isinstance(e, np.ndarray):
        _E, e = _as_pair(_E, e)
        M = np.empty(_E.shape, dtype=np.result_type(_E, e, np.float32))
        for mask, fun in ((e > 1, hyperbolic), (e < 1, elliptic)):
            M[mask] = fun(_E[mask], e[mask])
        M[e == 1] = parabolic(_E[e == 1])
    elif e > 1:
        M = hyperbolic(_E, e)
    elif e == 1:
        M = parabolic(_E)
    else:
        M = elliptic(_E, e)

    return np.degrees(M) if degrees else M
'''))

edit("laguerre-for", "C05 C06 C08", (K, "laguerre_solve_kepler", '''
def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
    """solve"""
    degree = float(degree)

    if e > 1:
        def _f(E):
            return M + E - e*np.sinh(E)

        def _fp(E):
            return 1.0 - e*np.cosh(E)

        def _fpp(E):
            return -e*np.sinh(E)
    else:
        def _f(E):
            return M - E + e*np.sin(E)

        def _fp(E):
            return e*np.cos(E) - 1.0

        def _fpp(E):
            return -e*np.sin(E)

    E = E0
    f_eval = _f(E)
    it_num = 0

    while True:
        if np.abs(f_eval) < tol:
            break
        it_num += 1
        fp_eval = _fp(E)
        sqrt_term = np.sqrt(np.abs((degree - 1.0)**2*fp_eval**2 - degree*(degree - 1.0)*f_eval*_fpp(E)))
        denom_p = fp_eval + sqrt_term
        denom_m = fp_eval - sqrt_term
        denom = denom_p if np.abs(denom_p) > np.abs(denom_m) else denom_m
        E = E - degree*f_eval/denom
        f_eval = _f(E)
        if it_num >= max_iter:
            break

    return E, it_num
'''))

edit("laguerre-flag", "C05 C06 C08", (K, "laguerre_solve_kepler", '''
def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
    """solve"""
    degree = float(degree)

    if e > 1:
        def _f(E):
            return M + E - e*np.sinh(E)

        def _fp(E):
            return 1.0 - e*np.cosh(E)

        def _fpp(E):
            return -e*np.sinh(E)
    else:
        def _f(E):
            return M - E + e*np.sin(E)

        def _fp(E):
            return e*np.cos(E) - 1.0

        def _fpp(E):
            return -e*np.sin(E)

    E = E0
    f_eval = _f(E)
    it_num = 0

    converged = bool(np.abs(f_eval) < tol)
    while not converged and it_num < max_iter:
        it_num += 1
        fp_eval = _fp(E)
        sqrt_term = np.sqrt(np.abs((degree - 1.0)**2*fp_eval**2 - degree*(degree - 1.0)*f_eval*_fpp(E)))
        denom_p = fp_eval + sqrt_term
        denom_m = fp_eval - sqrt_term
        denom = denom_p if np.abs(denom_p) > np.abs(denom_m) else denom_m
        E = E - degree*f_eval/denom
        f_eval = _f(E)
        converged = bool(np.abs(f_eval) < tol)

    return E, it_num
'''))

edit("laguerre-flag-all", "C05 C06 C08", (K, "laguerre_solve_kepler", '''
def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
    """solve"""
    degree = float(degree)

    if e > 1:
        def _f(E):
            return M + E - e*np.sinh(E)

        def _fp(E):
            return 1.0 - e*np.cosh(E)

        def _fpp(E):
            return -e*np.sinh(E)
    else:
        def _f(E):
            return M - E + e*np.sin(E)

        def _fp(E):
            return e*np.cos(E) - 1.0

        def _fpp(E):
            return -e*np.sin(E)

    E = E0
    f_eval = _f(E)
    it_num = 0

    stop = np.abs(f_eval) < tol or it_num >= max_iter
    while not stop:
        it_num += 1
        fp_eval = _fp(E)
        sqrt_term = np.sqrt(np.abs((degree - 1.0)**2*fp_eval**2 - degree*(degree - 1.0)*f_eval*_fpp(E)))
        denom_p = fp_eval + sqrt_term
        denom_m = fp_eval - sqrt_term
        denom = denom_p if np.abs(denom_p) > np.abs(denom_m) else denom_m
        E = E - degree*f_eval/denom
        f_eval = _f(E)
        stop = np.abs(f_eval) < tol or it_num >= max_iter

    return E, it_num
'''))

edit("laguerre-count", "C05 C06 C08", (K, "laguerre_solve_kepler", '''
def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
    """solve"""
    degree = float(degree)

    if e > 1:
        def _f(E):
            return M + E - e*np.sinh(E)

        def _fp(E):
            return 1.0 - e*np.cosh(E)

        def _fpp(E):
            return -e*np.sinh(E)
    else:
        def _f(E):
            return M - E + e*np.sin(E)

        def _fp(E):
            return e*np.cos(E) - 1.0

        def _fpp(E):
            return -e*np.sin(E)

    E = E0
    f_eval = _f(E)
    it_num = 0
    left = max_iter

    while np.abs(f_eval) >= tol:
        if left <= 0:
            break
        left -= 1
        it_num += 1
        fp_eval = _fp(E)
        sqrt_term = np.sqrt(np.abs((degree - 1.0)**2*fp_eval**2 - degree*(degree - 1.0)*f_eval*_fpp(E)))
        denom_p = fp_eval + sqrt_term
        denom_m = fp_eval - sqrt_term
        denom = denom_p if np.abs(denom_p) > np.abs(denom_m) else denom_m
        E = E - degree*f_eval/denom
        f_eval = _f(E)

    return E, it_num
'''))

edit("laguerre-lists", "C05 C06 C08", (K, "laguerre_solve_kepler", '''
def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
    """solve"""
    degree = float(degree)

    if e > 1:
        def _f(E):
            return M + E - e*np.sinh(E)

        def _fp(E):
            return 1.0 - e*np.cosh(E)

        def _fpp(E):
            return -e*np.sinh(E)
    else:
        def _f(E):
            return M - E + e*np.sin(E)

        def _fp(E):
            return e*np.cos(E) - 1.0

        def _fpp(E):
            return -e*np.sin(E)

    E, f_eval = E0, _f(E0)
    it_num = 0

    while True:
        if np.abs(f_eval) < tol:
            break
        it_num += 1
        fp_eval = _fp(E)
        sqrt_term = np.sqrt(np.abs((degree - 1.0)**2*fp_eval**2 - degree*(degree - 1.0)*f_eval*_fpp(E)))
        denom_p = fp_eval + sqrt_term
        denom_m = fp_eval - sqrt_term
        denom = denom_p if np.abs(denom_p) > np.abs(denom_m) else denom_m
        step = degree*f_eval/denom
        E, f_eval = E - step, _f(E - step)
        if it_num >= max_iter:
            break

    return E, it_num
'''))

edit("laguerre-helper", "C05 C06 C08", (K, "laguerre_solve_kepler", '''
def _kepler_functions(M, e):
    if e > 1:
        return (lambda E: M + E - e*np.sinh(E),
                lambda E: 1.0 - e*np.cosh(E),
                lambda E: -e*np.sinh(E))
    return (lambda E: M - E + e*np.sin(E),
            lambda E: e*np.cos(E) - 1.0,
            lambda E: -e*np.sin(E))


def _laguerre_step(f, fp, fpp, degree):
    root = np.sqrt(np.abs((degree - 1.0)**2*fp**2 - degree*(degree - 1.0)*f*fpp))
    plus, minus = fp + root, fp - root
    if np.abs(plus) > np.abs(minus):
        return degree*f/plus
    return degree*f/minus


def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
    """solve"""
    degree = float(degree)
    func, deriv, deriv2 = _kepler_functions(M, e)
    E, it_num = E0, 0
    residual = func(E)
    while np.abs(residual) >= tol:
        it_num = it_num + 1
        E = E - _laguerre_step(residual, deriv(E), deriv2(E), degree)
        residual = func(E)
        if it_num >= max_iter:
            break
    return E, it_num
'''))

edit("laguerre-range", "C05 C06 C08", (K, "TEXT:    while np.abs(f_eval) >= tol:\n        it_num += 1\n", "    while it_num < max_iter and np.abs(f_eval) >= tol:\n        it_num += 1\n"),
     (K, "TEXT:        f_eval = _f(E)\n\n        if it_num >= max_iter:\n            break\n", "        f_eval = _f(E)\n"))

edit("mean-flat-index", "C05 C07 C08 C09 C27", (K, "mean_to_eccentric", '''
def _solve_mean(M, e, solver_options):
    """one orbit"""
    if e > 1:
        E0 = _get_hyperbolic_kepler_guess(M, e)
    elif e == 1:
        A = 3.0/2.0*M
        B = np.cbrt(A + np.sqrt(A**2 + 1))
        return B - 1.0/B
    else:
        E0 = _get_kepler_guess(M, e)
    E, it_num = laguerre_solve_kepler(E0, M, e, **solver_options)
    return E


def mean_to_eccentric(M, e, solver_options=None, degrees=False):
    """mean to eccentric"""
    if solver_options is None:
        solver_options = {}
    _M = np.radians(M) if degrees else M

    if isinstance(_M, np.ndarray) or isinstance(e, np.ndarray):
        if not isinstance(_M, np.ndarray):
            _M = np.ones(e.shape, dtype=e.dtype)*_M
        if not isinstance(e, np.ndarray):
            e = np.ones(_M.shape, dtype=_M.dtype)*e
        if _M.shape != e.shape:
            raise TypeError(f'Input dimensions does not agree M:{_M.shape} != e:{e.shape}')

        E = np.empty(_M.shape, dtype=np.result_type(_M, e, np.float32))
        if _M.size == 0:
            return E
        Mit = np.nditer(_M, order='C')
        eit = np.nditer(e, order='C')
        Eit = np.nditer(E, op_flags=['readwrite'], order='C')
        for Mc, ec, Ec in zip(Mit, eit, Eit):
            Ec[...] = _solve_mean(Mc, ec, solver_options)
    else:
        if e == 0:
            return M
        E = _solve_mean(_M, e, solver_options)

    if degrees:
        E = np.degrees(E)
    return E
'''))

edit("mean-ndindex", "C05 C08 C09", (K, "TEXT:        out_it = E.size\n        Mit = np.nditer(_M, order='C')\n        eit = np.nditer(e, order='C')\n        Eit = np.nditer(E, op_flags=['readwrite'], order='C')\n\n        for it in range(out_it):\n            Mc = next(Mit)\n            ec = next(eit)\n            Ec = next(Eit)\n",
     "        for ind in np.ndindex(*E.shape):\n            Mc = _M[ind]\n            ec = e[ind]\n"),
     (K, "TEXT:                    E0, Mc, ec, **solver_options)\n            Ec[...] = E_calc\n", "                    E0, Mc, ec, **solver_options)\n\n            E[ind] = E_calc\n"))

edit("guess-ravel", "C06 C08 C09", (K, "kepler_guess", '''
def kepler_guess(M, e):
    """guess"""
    def one(Mc, ec):
        return _get_hyperbolic_kepler_guess(Mc, ec) if ec > 1 else _get_kepler_guess(Mc, ec)

    if not (isinstance(M, np.ndarray) or isinstance(e, np.ndarray)):
        return one(M, e)

    if not isinstance(M, np.ndarray):
        M = np.ones(e.shape, dtype=e.dtype)*M
    if not isinstance(e, np.ndarray):
        e = np.ones(M.shape, dtype=M.dtype)*e
    if M.shape != e.shape:
        raise TypeError('Input dimensions does not agree')

    E0 = np.empty(M.shape, dtype=np.result_type(M, e, np.float32))
    Mit = np.nditer(M, order='C', flags=['zerosize_ok'])
    eit = np.nditer(e, order='C', flags=['zerosize_ok'])
    Eit = np.nditer(E0, op_flags=['readwrite'], order='C', flags=['zerosize_ok'])
    for _ in range(E0.size):
        Mc, ec, Ec = next(Mit), next(eit), next(Eit)
        Ec[...] = one(Mc, ec)
    return E0
'''))

edit("clip", "C02 C03 C26", (K, "TEXT:    cos_om[cos_om > 1.0] = 1.0\n    cos_om[cos_om < -1.0] = -1.0\n", "    cos_om = np.clip(cos_om, -1.0, 1.0)\n"),
     (K, "TEXT:    cos_nu[cos_nu > 1.0] = 1.0\n    cos_nu[cos_nu < -1.0] = -1.0\n    o[5, :] = np.arccos(cos_nu)", "    o[5, :] = np.arccos(np.minimum(np.maximum(cos_nu, -1.0), 1.0))"))

edit("quadrant-helper", "C02 C03 C07 C08 C09 C26", (K, "TEXT:    ez_neg = np.logical_and(e[2, :] < 0.0, eg_ig)\n    o[3, ez_neg] = 2.0*np.pi - o[3, ez_neg]", "    _reflect(o, 3, np.logical_and(e[2, :] < 0.0, eg_ig))"),
     (K, "TEXT:    ny_neg = np.logical_and(n[1, :] < 0.0, ig)\n    o[4, ig] = np.arccos(n[0, ig]/nn[ig])\n    o[4, ny_neg] = 2.0*np.pi - o[4, ny_neg]", "    o[4, ig] = np.arccos(n[0, ig]/nn[ig])\n    _reflect(o, 4, (n[1, :] < 0.0) & ig)"),
     (K, "TEXT:def kep_equivalent(kep1, kep2):", "def _reflect(o, row, inds):\n    o[row, inds] = 2.0*np.pi - o[row, inds]\n\n\ndef kep_equivalent(kep1, kep2):"))

edit("bitwise-masks", "C02 C03 C08 C09 C26", (K, "TEXT:    ig = np.logical_and(o[2, :] > i_lim, o[2, :] < np.pi - i_lim)\n", "    ig = (o[2, :] > i_lim) & (o[2, :] < np.pi - i_lim)\n"),
     (K, "TEXT:    eg_ig = np.logical_and(eg, ig)\n    eg_il = np.logical_and(eg, il)\n    el_ig = np.logical_and(el, ig)\n    el_il = np.logical_and(el, il)\n", "    el_il = el & il\n    el_ig = el & ~il\n    eg_il = eg & il\n    eg_ig = eg & ig\n"))

edit("norm-sqrt", "C02 C03 C08 C09 C26", (K, "TEXT:    rn = np.linalg.norm(r, axis=0)\n    vn = np.linalg.norm(v, axis=0)\n", "    rn = np.sqrt(np.sum(r**2, axis=0))\n    vn = np.sqrt(np.sum(v**2, axis=0))\n"))

edit("energy-first", "C02 C03 C08 C26", (K, "TEXT:    epsilon = vn**2*0.5 - mu/rn\n", "    epsilon = 0.5*vn**2 - mu/rn\n"),
     (K, "TEXT:    o[0, :] = -mu/(2.0*epsilon)\n    o[0, e_hyp] = -o[0, e_hyp]\n", "    semi_major = -mu/(2.0*epsilon)\n    o[0, :] = np.where(e_hyp, -semi_major, semi_major)\n"))

edit("rotate-helper", "C01 C03 C07 C08 C09", (K, "TEXT:    r = np.zeros((3, kep.shape[1]), dtype=kep.dtype)\n    r[0, :] = R[0, 0, ...]*rx + R[0, 1, ...]*ry\n    r[1, :] = R[1, 0, ...]*rx + R[1, 1, ...]*ry\n    r[2, :] = R[2, 0, ...]*rx + R[2, 1, ...]*ry\n", "    r = _rotate_plane(R, rx, ry, kep.dtype)\n"),
     (K, "TEXT:    v = np.zeros((3, kep.shape[1]), dtype=kep.dtype)\n    v[0, :] = R[0, 0, ...]*vx + R[0, 1, ...]*vy\n    v[1, :] = R[1, 0, ...]*vx + R[1, 1, ...]*vy\n    v[2, :] = R[2, 0, ...]*vx + R[2, 1, ...]*vy\n", "    v = _rotate_plane(R, vx, vy, kep.dtype)\n"),
     (K, "TEXT:def kep_to_cart(kep, mu=GM_sol, degrees=False):", "def _rotate_plane(R, px, py, dtype):\n    out = np.empty((3, px.size), dtype=dtype)\n    for row in range(3):\n        out[row, :] = R[row, 0, ...]*px + R[row, 1, ...]*py\n    return out\n\n\ndef kep_to_cart(kep, mu=GM_sol, degrees=False):"))

edit("kep-unpack", "C01 C03 C07 C08 C09", (K, "TEXT:    nu = kep[5, :]\n    omega = kep[3, :]\n    asc_node = kep[4, :]\n    inc = kep[2, :]\n    e = kep[1, :]\n    a = kep[0, :]\n", "    a, e, inc, omega, asc_node, nu = kep\n"),
     (K, "TEXT:    x[:3, :] = r\n    x[3:, :] = v\n", "    x[3:, :] = v\n    x[:3, :] = r\n"))

edit("euler-sincos", "C01 C12", (K, "TEXT:    c1 = np.cos(_Omega)\n    s1 = np.sin(_Omega)\n    c2 = np.cos(_inc)\n    s2 = np.sin(_inc)\n    c3 = np.cos(_omega)\n    s3 = np.sin(_omega)\n", "    c3, s3 = np.cos(_omega), np.sin(_omega)\n    c2, s2 = np.cos(_inc), np.sin(_inc)\n    c1, s1 = np.cos(_Omega), np.sin(_Omega)\n"))

edit("rot-array", "C12", (K, "rot_mat_x", '''
def rot_mat_x(theta, dtype=np.float64):
    """x"""
    c, s = np.cos(theta), np.sin(theta)
    return np.array([[1.0, 0.0, 0.0], [0.0, c, -s], [0.0, s, c]], dtype=dtype)
'''), (K, "rot_mat_z", '''
def rot_mat_z(theta, dtype=np.float64):
    """z"""
    c, s = np.cos(theta), np.sin(theta)
    R = np.eye(3, dtype=dtype)
    R[0, 0] = R[1, 1] = c
    R[0, 1], R[1, 0] = -s, s
    return R
'''))

edit("stumpff-helper", "C13 C09", (K, "stumpff0", '''
def _stumpff_eval(x, positive, zero, negative):
    x = np.asarray(x)
    c = np.empty(x.shape, dtype=np.result_type(x, np.float32))
    pos, neg = x > 0, x < 0
    c[pos] = positive(x[pos], np.sqrt(x[pos]))
    c[neg] = negative(x[neg], np.sqrt(-x[neg]))
    c[x == 0] = zero
    return c[()]


def stumpff0(x):
    """c0"""
    return _stumpff_eval(x, lambda y, s: np.cos(s), 1, lambda y, s: np.cosh(s))
'''), (K, "stumpff2", '''
def stumpff2(x):
    """c2"""
    return _stumpff_eval(x, lambda y, s: (1 - np.cos(s))/y, 0.5, lambda y, s: (1 - np.cosh(s))/y)
'''), (K, "stumpff", '''
def stumpff(x):
    """all"""
    return tuple(c(x) for c in (stumpff0, stumpff1, stumpff2, stumpff3))
'''))

edit("equi-reorder", "C07 C08 C09 C10", (K, "equi_to_kep", '''
def equi_to_kep(equi, degrees=False):
    """equi to kep"""
    full = 360.0 if degrees else _2pi
    kep = np.empty(equi.shape, dtype=np.result_type(equi, np.float32))

    h, k, p, q = equi[E_h, ...], equi[E_k, ...], equi[E_p, ...], equi[E_q, ...]
    lon_peri = np.arctan2(h, k)
    node = np.arctan2(p + 0.0, q + 0.0)
    inc = 2*np.arctan(np.sqrt(p**2 + q**2))
    if degrees:
        lon_peri, node, inc = np.degrees(lon_peri), np.degrees(node), np.degrees(inc)

    kep[K_a, ...] = equi[E_a, ...]
    kep[K_e, ...] = np.sqrt(h**2 + k**2)
    kep[K_i, ...] = inc
    kep[K_OM, ...] = node

    eg = kep[K_e, ...] > e_lim
    el = np.logical_not(eg)
    kep[K_om, el] = 0
    kep[K_om, eg] = lon_peri[eg] - kep[K_OM, eg]
    kep[K_nu, el] = equi[E_lam, el] - kep[K_OM, el]
    kep[K_nu, eg] = equi[E_lam, eg] - lon_peri[eg]

    kep[K_om:, ...] = np.mod(kep[K_om:, ...] + full, full)
    return kep
'''))

edit("equivalent-flat", "C25", (K, "kep_equivalent", '''
def kep_equivalent(kep1, kep2):
    """equivalent"""
    if len(kep1.shape) > 1 or len(kep2.shape) > 1:
        raise ValueError('Only vector inputs for now')

    def same(x, y):
        return np.isclose(x, y)

    if np.allclose(kep1, kep2):
        return True
    if not (same(kep1[K_a], kep2[K_a]) and same(kep1[K_e], kep2[K_e])):
        return False

    planar = kep1[K_i] <= i_lim and kep2[K_i] <= i_lim
    circular = kep1[K_e] < e_lim and kep2[K_e] < e_lim
    if not planar:
        if not same(kep1[K_i], kep2[K_i]):
            return False
        if not same(kep1[K_OM], kep2[K_OM]):
            return False

    peri1, peri2 = kep1[K_om], kep2[K_om]
    if planar:
        peri1 = peri1 + kep1[K_OM]
        peri2 = peri2 + kep2[K_OM]
    if circular:
        return bool(same(peri1 + kep1[K_nu], peri2 + kep2[K_nu]))
    return bool(same(peri1, peri2) and same(kep1[K_nu], kep2[K_nu]))
'''))

edit("radius-inline", "C07 C11", (K, "elliptic_radius", '''
def elliptic_radius(E, a, e, degrees=False):
    """r"""
    if degrees:
        E = np.radians(E)
    r = 1.0 - e*np.cos(E)
    return r*a
'''), (K, "orbital_period", '''
def orbital_period(a, mu):
    """P"""
    return _2pi*np.sqrt(a**3.0/mu)
'''))

edit("keyword-args", "C01 C03 C05 C07 C08 C09 C10", (K, "TEXT:    rn = orbital_distance(h, mu, e, nu, degrees=False)", "    rn = orbital_distance(h=h, mu=mu, e=e, nu=nu)"),
     (K, "TEXT:    E = true_to_eccentric(_nu, e, degrees=False)\n    M = eccentric_to_mean(E, e, degrees=False)\n", "    M = eccentric_to_mean(E=true_to_eccentric(nu=_nu, e=e), e=e)\n"))

# ------------------------------------------------------------------ orbit
edit("iter-while", "C17", (O, "Orbit.__iter__", '''
def __iter__(self):
    ind = 0
    while ind < self.num:
        yield self[ind]
        ind += 1
'''))
edit("iter-gen", "C17", (O, "Orbit.__iter__", '''
def __iter__(self):
    yield from (self[ind] for ind in range(len(self)))
'''))
edit("iter-return-gen", "C17", (O, "Orbit.__iter__", '''
def __iter__(self):
    return (self[ind] for ind in range(self.num))
'''))

edit("setter-helper", "C14 C15 C16", (O, "Orbit.a#1", '''
def _set_kepler_row(self, row, value):
    if self.kepler_read_only:
        raise AttributeError('Cannot update read only Kepler elements')
    self._kep_check()
    self._kep[row, :] = value
    self._kepler_changed()

def _kepler_changed(self):
    if self.direct_update:
        self.calculate_cartesian()
    else:
        self.__kep_calculated[:] = True
        self.__cart_calculated[:] = False

@a.setter
def a(self, value):
    self._set_kepler_row(0, value)
'''), (O, "Orbit.e#1", '''
@e.setter
def e(self, value):
    self._set_kepler_row(1, value)
'''), (O, "Orbit.anom#1", '''
@anom.setter
def anom(self, value):
    self._set_kepler_row(5, value)
'''))

edit("update-any", "C14 C15 C16 C18", (O, "Orbit.update", '''
def update(self, inds=slice(None, None, None), **kwargs):
    """update"""
    if 'cartesian' in kwargs:
        if self.cartesian_read_only:
            raise AttributeError('Cannot update read only Cartesian elements')
        self._assign_block(self._cart, inds, kwargs['cartesian'])
        self._after_cartesian(inds)
        return
    if 'kepler' in kwargs:
        if self.kepler_read_only:
            raise AttributeError('Cannot update read only Kepler elements')
        self._assign_block(self._kep, inds, kwargs['kepler'])
        self._after_kepler(inds)
        return

    cart_updated = any(key in kwargs for key in Orbit.CARTESIAN)
    kep_updated = any(key in kwargs for key in Orbit.KEPLER)
    if cart_updated and self.cartesian_read_only:
        raise AttributeError('Cannot update read only Cartesian elements')
    if kep_updated and self.kepler_read_only:
        raise AttributeError('Cannot update read only Kepler elements')
    if cart_updated and kep_updated:
        raise ValueError('Cannot update both cartesian and Keplerian elements simultaneously.')

    if cart_updated:
        self._cart_check()
    if kep_updated:
        self._kep_check()
    if 'm' in kwargs:
        if self.direct_update:
            raise ValueError('Cannot set "m" and direct update')
        self.m[inds] = kwargs['m']

    if cart_updated:
        for ind, key in enumerate(Orbit.CARTESIAN):
            if key in kwargs:
                self._cart[ind, inds] = kwargs[key]
        self._after_cartesian(inds)
    if kep_updated:
        for ind, key in enumerate(Orbit.KEPLER):
            if key in kwargs:
                self._kep[ind, inds] = kwargs[key]
        self._after_kepler(inds)

@staticmethod
def _assign_block(store, inds, value):
    if np.ndim(value) == 1 and store[:, inds].ndim == 2:
        value = np.asarray(value)[:, None]
    store[:, inds] = value

def _after_cartesian(self, inds):
    if self.direct_update:
        self.calculate_kepler(inds)
    else:
        self.__kep_calculated[inds] = False
        self.__cart_calculated[inds] = True

def _after_kepler(self, inds):
    if self.direct_update:
        self.calculate_cartesian(inds)
    else:
        self.__cart_calculated[inds] = False
        self.__kep_calculated[inds] = True
'''))

edit("delete-names", "C18", (O, "Orbit.delete", '''
def delete(self, inds):
    """delete"""
    for name in ('_cart', '_kep'):
        setattr(self, name, np.delete(getattr(self, name), inds, axis=1))
    for name in ('m', '_true_anomaly', '_eccentric_anomaly', '_mean_anomaly'):
        setattr(self, name, np.delete(getattr(self, name), inds, axis=0))
    self.__cart_calculated = np.delete(self.__cart_calculated, inds, axis=0)
    self.__kep_calculated = np.delete(self.__kep_calculated, inds, axis=0)
'''))
edit("delete-mask", "C18", (O, "Orbit.delete", '''
def delete(self, inds):
    """delete"""
    keep = np.ones((self.num,), dtype=np.bool_)
    keep[inds] = False
    self.m = self.m[keep]
    self._cart = self._cart[:, keep]
    self._kep = self._kep[:, keep]
    self._true_anomaly = self._true_anomaly[keep]
    self._eccentric_anomaly = self._eccentric_anomaly[keep]
    self._mean_anomaly = self._mean_anomaly[keep]
    self.__cart_calculated = self.__cart_calculated[keep]
    self.__kep_calculated = self.__kep_calculated[keep]
'''))
edit("allocate-helper", "C14 C18 C17", (O, "Orbit.allocate", '''
def _empty_rows(self, num):
    return np.full((6, num), np.nan, dtype=self.dtype)

def _empty_row(self, num):
    return np.full((num,), np.nan, dtype=self.dtype)

def allocate(self, num):
    """allocate"""
    self._kep, self._cart = self._empty_rows(num), self._empty_rows(num)
    self.m = np.zeros((num,), dtype=self.dtype)
    self._true_anomaly = self._empty_row(num)
    self._eccentric_anomaly = self._empty_row(num)
    self._mean_anomaly = self._empty_row(num)
    self.__kep_calculated = np.zeros((num,), dtype=np.bool_)
    self.__cart_calculated = np.zeros((num,), dtype=np.bool_)
'''))
edit("add-concatenate", "C18", (O, "TEXT:        self.m = np.append(\n            self.m,\n            np.full((num,), 0, dtype=self.dtype),\n            axis=0,\n        )\n", "        self.m = np.concatenate([self.m, np.zeros((num,), dtype=self.dtype)])\n"))
edit("getitem-order", "C17", (O, "TEXT:        tmp_orb._cart = self._cart[:, inds].copy()\n        tmp_orb._kep = self._kep[:, inds].copy()\n\n        if len(tmp_orb._cart.shape) == 1:\n            tmp_orb._cart.shape = (6, 1)\n            tmp_orb._kep.shape = (6, 1)\n",
     "        tmp_orb._kep = self._kep[:, inds].copy().reshape(6, num)\n        tmp_orb._cart = self._cart[:, inds].copy().reshape(6, num)\n"))
edit("type-getattr", "C16 C19 C27", (O, "Orbit.type#1", '''
@type.setter
def type(self, val):
    """type"""
    new = val.strip().lower()
    if new not in Orbit.ANOMALY:
        raise ValueError(f'Anomaly type "{val}" not recognized')
    if new == self.__type:
        return
    if self.kepler_read_only:
        raise AttributeError('Cannot update read only Kepler elements')
    anom = getattr(self, new + '_anomaly')
    self.__type = new
    self.anom = anom
'''))
edit("propagate-mask", "C20", (O, "Orbit.propagate", '''
def propagate(self, dt):
    """propagate"""
    full = 360.0 if self.degrees else 2*np.pi
    anomaly = self.mean_anomaly + self.mean_motion*dt
    bound = self.e < 1
    anomaly[bound] = np.mod(anomaly[bound], full)
    self.mean_anomaly = anomaly
    if self.direct_update:
        self.calculate_cartesian()
'''))
edit("calc-early-return", "C14 C15 C19 C20", (O, "Orbit.calculate_cartesian", '''
def calculate_cartesian(self, inds=slice(None, None, None)):
    """cartesian"""
    do_inds = np.zeros((self.num,), dtype=np.bool_)
    do_inds[inds] = ~np.isnan(self._kep[:, inds]).any(axis=0)
    if not np.any(do_inds):
        return
    self.__cart_calculated[do_inds] = True

    kep_tmp = self._kep[:, do_inds]
    if self.type != 'true':
        self.calc_true_anomaly(do_inds)
        kep_tmp[5, :] = self._true_anomaly[do_inds]

    mu = self.G*(self.M0 + self.m[do_inds])
    self._cart[:, do_inds] = functions.kep_to_cart(kep_tmp, mu=mu, degrees=self.degrees)
'''))
edit("mu-helper", "C14 C15 C21 C20", (O, "TEXT:self.G*(self.M0 + self.m[do_inds])", "self._mu(do_inds)"), (O, "TEXT:self.G*(self.M0 + self.m)", "self._mu()"),
     (O, "Orbit.__len__", '''
def __len__(self):
    return self.num

def _mu(self, inds=slice(None, None, None)):
    return self.G*(self.M0 + self.m[inds])
'''))
edit("anomaly-helper", "C14 C15 C19 C20 C21", (O, "Orbit.calc_true_anomaly", '''
def _as_true(self, anom, e):
    if self.type == 'eccentric':
        return functions.eccentric_to_true(anom, e, degrees=self.degrees)
    if self.type == 'mean':
        return functions.mean_to_true(anom, e, solver_options=self.solver_options, degrees=self.degrees)
    return anom

def calc_true_anomaly(self, inds=slice(None, None, None)):
    """true"""
    self._true_anomaly[inds] = self._as_true(self.anom[inds], self.e[inds])
'''), (O, "Orbit.true_anomaly#1", '''
@true_anomaly.setter
def true_anomaly(self, value):
    """true"""
    if self.kepler_read_only:
        raise AttributeError('Cannot update read only Kepler elements')
    convert = {'eccentric': functions.true_to_eccentric, 'mean': functions.true_to_mean}.get(self.type)
    self.anom = value if convert is None else convert(value, self.e, degrees=self.degrees)
    if self.direct_update:
        self.calculate_cartesian()
    else:
        self.__cart_calculated[:] = False
'''))
edit("speed-steps", "C21", (O, "Orbit.speed", '''
@property
def speed(self):
    """speed"""
    self._kep_check()
    e = self.e
    mu = self.G*(self.M0 + self.m)
    a = np.where(e > 1, -self.a, self.a)
    h = functions.orbit_total_angular_momentum(a, e, mu)
    r = functions.orbital_distance(h, mu, e, self.true_anomaly, degrees=self.degrees)
    return functions.orbital_speed(r, a, mu)
'''))
edit("periapsis-other", "C21", (O, "Orbit.apoapsis", '''
@property
def apoapsis(self):
    """apoapsis"""
    a = self.a
    return a + a*self.e
'''))
# ------------------------------------------------------------------ unit, const
edit("unit-tables", "C22", (U, "get_G", '''
_MASS = {'kg': 1.0, 'g': 1e-3, 'msun': M_sol, 'msol': M_sol}
_TIME = {'s': 1.0, 'h': 3600.0, 'd': 3600.0*24, 'y': 3600.0*24*365.25}
_LENGTH = {'m': 1.0, 'cm': 1e-2, 'km': 1e3, 'au': AU, 'pc': 3.08567758149137e16}


def _unit(value, table, what):
    if isinstance(value, str):
        if value not in table:
            raise TypeError(f'Unit "{value}" not recognized')
        return table[value]
    if isinstance(value, float):
        return value
    raise TypeError(f'Type "{type(value)}" for {what} not supported')


def get_G(length, mass, time):
    """G"""
    if isinstance(mass, str):
        mass = mass.lower().replace('_', '').replace(' ', '').replace('-', '')
    if isinstance(time, str):
        time = time.lower()
    if isinstance(length, str):
        length = length.lower()
    _mass = _unit(mass, _MASS, 'mass')
    _time = _unit(time, _TIME, 'time')
    _length = _unit(length, _LENGTH, 'length')
    return G_SI*(_mass*_time**2/_length**3)
'''))
edit("unit-loop-replace", "C22", (U, "TEXT:mass = mass.lower().replace('_', '').replace(' ', '').replace('-', '')", "mass = mass.lower()\n        for char in '_ -':\n            mass = mass.replace(char, '')"))
edit("units-wraps", "C23", (U, "angle_units", '''
def angle_units(in_arg_inds, in_arg_keys, out_arg_inds, degrees=False):
    """wrap"""
    import functools

    def decorator(func):
        @functools.wraps(func)
        def wrapped(*args, **kwargs):
            if not kwargs.pop('degrees', degrees):
                return func(*args, **kwargs)
            new_args = list(args)
            for ind in (in_arg_inds or ()):
                new_args[ind] = np.radians(new_args[ind])
            for key in (in_arg_keys or ()):
                if key in kwargs:
                    kwargs[key] = np.radians(kwargs[key])
            ret = func(*new_args, **kwargs)
            if out_arg_inds is None or ret is None:
                return ret
            if isinstance(out_arg_inds, bool):
                return np.degrees(ret)
            ret = list(ret)
            for ind in out_arg_inds:
                ret[ind] = np.degrees(ret[ind])
            return tuple(ret)
        return wrapped
    return decorator
'''))
edit("const-early", "C24", (C, "_const.__setattr__", '''
def __setattr__(self, name, value):
    table = self.__dict__
    if name not in table:
        table[name] = value
    elif table[name] != value:
        raise self.ConstError("Can't rebind const({})".format(name))
'''))
edit("const-factor", "C24 C22", (C, "TEXT:_self._2pi = 2*numpy.pi", "_self._2pi = numpy.pi + numpy.pi"))

# ------------------------------------------------------------------ second wave: other styles
edit("c2k-any", "C02 C03 C08 C26", (K, "TEXT:    ey_neg = np.logical_and(o[2, :] < np.pi*0.5, eg_il)\n    ey_neg2 = np.logical_and(ey_neg, e[1, :] < 0.0)\n    o[3, ey_neg2] = 2.0*np.pi - o[3, ey_neg2]\n", """    if np.any(eg_il):
        prograde = np.logical_and(o[2, :] < np.pi*0.5, eg_il)
        sel = np.logical_and(prograde, e[1, :] < 0.0)
        o[3, sel] = 2.0*np.pi - o[3, sel]
"""))
edit("c2k-where", "C02 C03 C08 C26", (K, "TEXT:    o[2, :] = np.arccos(h[2, :]/hn)\n", """    o[2, :] = np.arccos(h[2, :]/hn)
    o[3:, :] = 0
"""), (K, "TEXT:    o[5, :] = np.arccos(cos_nu)\n    tmp_ind_ = np.logical_and(vr < 0.0, eg)\n    o[5, tmp_ind_] = 2.0*np.pi - o[5, tmp_ind_]\n", """    ang = np.arccos(cos_nu)
    o[5, :] = np.where(np.logical_and(vr < 0.0, eg), 2.0*np.pi - ang, ang)
"""))
edit("c2k-names", "C02 C03 C08 C09 C26", (K, "TEXT:    vr = np.sum((r/rn)*v, axis=0)\n", """    ux, uy, uz = r/rn
    vx, vy, vz = v
    vr = ux*vx + uy*vy + uz*vz
"""))
edit("c2k-einsum", "C02 C03 C08 C26", (K, "TEXT:    vr = np.sum((r/rn)*v, axis=0)\n", """    vr = np.einsum('ij,ij->j', r/rn, v)
"""))
edit("c2k-node", "C02 C03 C08 C26", (K, "TEXT:    n[:, ig] = np.cross(ez, h[:, ig], axisa=0, axisb=0, axisc=0)\n    nn[ig] = np.linalg.norm(n[:, ig], axis=0)\n", """    n[0, ig] = -h[1, ig]
    n[1, ig] = h[0, ig]
    n[2, ig] = 0
    nn[ig] = np.hypot(h[0, ig], h[1, ig])
"""))
edit("c2k-cross", "C02 C03 C08 C26", (K, "TEXT:    h = np.cross(r, v, axisa=0, axisb=0, axisc=0)\n", """    h = np.empty_like(r)
    h[0, :] = r[1, :]*v[2, :] - r[2, :]*v[1, :]
    h[1, :] = r[2, :]*v[0, :] - r[0, :]*v[2, :]
    h[2, :] = r[0, :]*v[1, :] - r[1, :]*v[0, :]
"""))
edit("c2k-mirror", "C02 C03 C08 C09 C26", (K, "TEXT:    ey_neg = np.logical_and(o[2, :] < np.pi*0.5, eg_il)\n    ey_neg2 = np.logical_and(ey_neg, e[1, :] < 0.0)\n    o[3, ey_neg2] = 2.0*np.pi - o[3, ey_neg2]\n    ey_neg = np.logical_and(o[2, :] > np.pi*0.5, eg_il)\n    ey_neg2 = np.logical_and(ey_neg, e[1, :] > 0.0)\n    o[3, ey_neg2] = 2.0*np.pi - o[3, ey_neg2]\n", """    for side, wrong in (
        (o[2, :] < np.pi*0.5, e[1, :] < 0.0),
        (o[2, :] > np.pi*0.5, e[1, :] > 0.0),
    ):
        flip = np.logical_and(np.logical_and(side, eg_il), wrong)
        o[3, flip] = 2.0*np.pi - o[3, flip]
"""))
edit("c2k-nonzero", "C02 C03 C08 C26", (K, "TEXT:    o[0, e_hyp] = -o[0, e_hyp]\n", """    hyp_inds, = np.nonzero(e_hyp)
    o[0, hyp_inds] = -o[0, hyp_inds]
"""))
edit("c2k-abs", "C02 C03 C08 C26", (K, "TEXT:    o[0, :] = -mu/(2.0*epsilon)\n    o[0, e_hyp] = -o[0, e_hyp]\n", """    o[0, :] = np.where(e_hyp, mu/(2.0*epsilon), -mu/(2.0*epsilon))
"""))
edit("k2c-helper", "C01 C03 C07 C08 C09", (K, "kep_to_cart", """
def _perifocal(h, mu, e, nu):
    # position and velocity in the orbital plane
    rn = orbital_distance(h, mu, e, nu, degrees=False)
    vn = mu/h
    cnu, snu = np.cos(nu), np.sin(nu)
    return (rn*cnu, rn*snu), (-vn*snu, vn*(e + cnu))


def kep_to_cart(kep, mu=GM_sol, degrees=False):
    '''elements to state'''
    if not isinstance(kep, np.ndarray):
        raise TypeError('Input type {} not supported: must be {}'.format(type(kep), np.ndarray))
    if kep.shape[0] != 6:
        raise ValueError(f'Input data must have at least 6 variables along axis 0: input shape is {kep.shape}')
    input_is_vector = kep.ndim == 1
    if input_is_vector:
        kep = kep[:, np.newaxis]
    if not isinstance(mu, np.ndarray):
        mu = np.full((kep.shape[1],), mu, dtype=np.float64)
    kep = np.array(kep, dtype=np.result_type(kep, np.float32))
    if degrees:
        kep[2:, :] = np.radians(kep[2:, :])
    a, e, inc, omega, asc_node, nu = kep
    a[e > 1] *= -1
    per = e == 1
    nper = ~per
    h = np.empty_like(a)
    h[nper] = orbit_total_angular_momentum(a[nper], e[nper], mu[nper])
    h[per] = parabolic_total_angular_momentum(a[per], mu[per])
    (rx, ry), (vx, vy) = _perifocal(h, mu, e, nu)
    R = euler_rotation_matrix(inc, omega, asc_node, degrees=False)
    if R.ndim < 3:
        R = R[:, :, np.newaxis]
    x = np.empty(kep.shape, dtype=kep.dtype)
    for j in range(3):
        x[j, :] = R[j, 0, ...]*rx + R[j, 1, ...]*ry
        x[3 + j, :] = R[j, 0, ...]*vx + R[j, 1, ...]*vy
    return x[:, 0] if input_is_vector else x
"""))
edit("anomaly-where", "C04 C05 C07 C08 C09 C27", (K, "eccentric_to_mean", """
def eccentric_to_mean(E, e, degrees=False):
    '''eccentric to mean'''
    _E = np.radians(E) if degrees else E
    if isinstance(_E, np.ndarray) or isinstance(e, np.ndarray):
        if not isinstance(_E, np.ndarray):
            _E = np.ones(e.shape, dtype=e.dtype)*_E
        if not isinstance(e, np.ndarray):
            e = np.ones(_E.shape, dtype=_E.dtype)*e
        if _E.shape != e.shape:
            raise TypeError('Input dimensions does not agree')
        dtype = np.result_type(_E, e, np.float32)
        M = np.where(
            e > 1, e*np.sinh(_E) - _E,
            np.where(e == 1, _E + _E**3/3.0, _E - e*np.sin(_E)),
        ).astype(dtype)
    elif e > 1:
        M = e*np.sinh(_E) - _E
    elif e == 1:
        M = _E + _E**3/3.0
    else:
        M = _E - e*np.sin(_E)
    return np.degrees(M) if degrees else M
"""))
edit("anomaly-recursive", "C04 C05 C07 C08 C09 C27", (K, "eccentric_to_true", """
def eccentric_to_true(E, e, degrees=False):
    '''eccentric to true'''
    if degrees:
        return np.degrees(eccentric_to_true(np.radians(E), e))
    if isinstance(E, np.ndarray) or isinstance(e, np.ndarray):
        if not isinstance(E, np.ndarray):
            E = np.full(e.shape, E, dtype=np.result_type(e.dtype, E))
        if not isinstance(e, np.ndarray):
            e = np.full(E.shape, e, dtype=np.result_type(E.dtype, e))
        if E.shape != e.shape:
            raise TypeError('Input dimensions does not agree')
        nu = np.empty(E.shape, dtype=np.result_type(E, e, np.float32))
        for sel, fun in (
            (e > 1, lambda E, e: 2.0*np.arctan(np.sqrt((e + 1.0)/(e - 1.0))*np.tanh(E*0.5))),
            (e == 1, lambda E, e: 2.0*np.arctan(E)),
            (e < 1, lambda E, e: 2.0*np.arctan(np.sqrt((1.0 + e)/(1.0 - e))*np.tan(E*0.5))),
        ):
            nu[sel] = fun(E[sel], e[sel])
    elif e > 1:
        nu = 2.0*np.arctan(np.sqrt((e + 1.0)/(e - 1.0))*np.tanh(E*0.5))
    elif e == 1:
        nu = 2.0*np.arctan(E)
    else:
        nu = 2.0*np.arctan(np.sqrt((1.0 + e)/(1.0 - e))*np.tan(E*0.5))
    return np.mod(nu + 2.0*np.pi, 2.0*np.pi)
"""))
MEAN = """
def _solve_kepler_single(M, e, solver_options):
    if e == 1:
        A = 3.0/2.0*M
        B = np.cbrt(A + np.sqrt(A**2 + 1))
        return B - 1.0/B
    guess = _get_hyperbolic_kepler_guess if e > 1 else _get_kepler_guess
    E, _ = laguerre_solve_kepler(guess(M, e), M, e, **solver_options)
    return E


def mean_to_eccentric(M, e, solver_options=None, degrees=False):
    '''mean to eccentric'''
    if solver_options is None:
        solver_options = {}
    _M = np.radians(M) if degrees else M

    if isinstance(_M, np.ndarray) or isinstance(e, np.ndarray):
        if not isinstance(_M, np.ndarray):
            _M = np.ones(e.shape, dtype=e.dtype)*_M
        if not isinstance(e, np.ndarray):
            e = np.ones(_M.shape, dtype=_M.dtype)*e
        if _M.shape != e.shape:
            raise TypeError(f'Input dimensions does not agree M:{_M.shape} != e:{e.shape}')
        E = np.empty(_M.shape, dtype=np.result_type(_M, e, np.float32))
        LOOP
    else:
        if e == 0:
            return M
        E = _solve_kepler_single(_M, e, solver_options)
    return np.degrees(E) if degrees else E
"""
edit("mean-single", "C05 C07 C08 C09 C27", (K, "mean_to_eccentric", MEAN.replace("LOOP", """for ind in range(E.size):
            E.flat[ind] = _solve_kepler_single(_M.flat[ind], e.flat[ind], solver_options)""")))
edit("mean-zip", "C05 C07 C08 C09 C27", (K, "mean_to_eccentric", MEAN.replace("LOOP", """for ind, (Mc, ec) in enumerate(zip(_M.flat, e.flat)):
            E.flat[ind] = _solve_kepler_single(Mc, ec, solver_options)""")))
edit("mean-listcomp", "C05 C07 C08 C09", (K, "mean_to_eccentric", MEAN.replace("LOOP", """vals = [_solve_kepler_single(Mc, ec, solver_options) for Mc, ec in zip(_M.ravel(), e.ravel())]
        E[...] = np.array(vals, dtype=E.dtype).reshape(_M.shape)""")))
edit("mean-nditer-multi", "C05 C08 C09", (K, "mean_to_eccentric", MEAN.replace("LOOP", """if E.size == 0:
            return E
        for Mc, ec, Ec in np.nditer([_M, e, E], op_flags=[['readonly'], ['readonly'], ['writeonly']], order='C'):
            Ec[...] = _solve_kepler_single(Mc, ec, solver_options)""")))
edit("mean-zip-nditer", "C05 C08 C09", (K, "mean_to_eccentric", MEAN.replace("LOOP", """if E.size == 0:
            return E
        Mit = np.nditer(_M, order='C')
        eit = np.nditer(e, order='C')
        Eit = np.nditer(E, op_flags=['readwrite'], order='C')
        for Mc, ec, Ec in zip(Mit, eit, Eit):
            Ec[...] = _solve_kepler_single(Mc, ec, solver_options)""")))
edit("mean-shared", "C05 C07 C08 C09 C27", (K, "mean_to_eccentric", MEAN.replace("LOOP", """if _M.size == 0:
            return E
        out_it = E.size
        Mit = np.nditer(_M, order='C')
        eit = np.nditer(e, order='C')
        Eit = np.nditer(E, op_flags=['readwrite'], order='C')
        for it in range(out_it):
            Mc, ec, Ec = next(Mit), next(eit), next(Eit)
            Ec[...] = _solve_kepler_single(Mc, ec, solver_options)""")))
edit("laguerre-derivs", "C05 C06 C08", (K, "laguerre_solve_kepler", """
def _kepler_residual(E, M, e):
    # f, f' and f'' of Kepler's equation
    if e > 1:
        sh = e*np.sinh(E)
        return M + E - sh, 1.0 - e*np.cosh(E), -sh
    s = e*np.sin(E)
    return M - E + s, e*np.cos(E) - 1.0, -s


def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
    '''laguerre'''
    degree = float(degree)
    E = E0
    f, fp, fpp = _kepler_residual(E, M, e)
    it_num = 0
    while np.abs(f) >= tol:
        it_num += 1
        root = np.sqrt(np.abs((degree - 1.0)**2*fp**2 - degree*(degree - 1.0)*f*fpp))
        denom_p, denom_m = fp + root, fp - root
        denom = denom_p if np.abs(denom_p) > np.abs(denom_m) else denom_m
        E = E - degree*f/denom
        f, fp, fpp = _kepler_residual(E, M, e)
        if it_num >= max_iter:
            break
    return E, it_num
"""))
edit("guess-elif", "C06 C08 C09", (K, "_get_kepler_guess", """
def _get_kepler_guess(M, e):
    '''guess'''
    mirrored = M > np.pi
    _M = 2.0*np.pi - M if mirrored else M
    if _M >= 2.0:
        E0 = _M + e*(np.pi - _M)/(1.0 + e)
    elif _M >= 0.25:
        E0 = _M + e
    else:
        sM = np.sin(_M)
        E0 = _M + e*sM/(1.0 - np.sin(_M + e) + sM)
    return 2.0*np.pi - E0 if mirrored else E0
"""))
edit("stumpff-select", "C13 C09", (K, "stumpff1", """
def stumpff1(x):
    '''c1'''
    x = np.asarray(x)
    root = np.sqrt(np.abs(x))
    safe = np.where(x == 0, 1, root)
    c1 = np.where(x > 0, np.sin(root)/safe, np.sinh(root)/safe)
    return np.where(x == 0, 1, c1).astype(np.result_type(x, np.float32))[()]
"""))
edit("stumpff-early", "C13 C09", (K, "stumpff0", """
def stumpff0(x):
    '''c0'''
    x = np.asarray(x)
    c0 = np.ones(x.shape, dtype=np.result_type(x, np.float32))
    pos, neg = x > 0, x < 0
    c0[pos] = np.cos(np.sqrt(x[pos]))
    c0[neg] = np.cosh(np.sqrt(-x[neg]))
    return c0[()]
"""))
edit("rot-eye", "C12", (K, "rot_mat_y", """
def rot_mat_y(theta, dtype=np.float64):
    '''y'''
    c, s = np.cos(theta), np.sin(theta)
    R = np.eye(3, dtype=dtype)
    R[0, 0] = R[2, 2] = c
    R[0, 2] = s
    R[2, 0] = -s
    return R
"""))
edit("euler-product", "C01 C12", (K, "TEXT:    R[0, 0, ...] = c1*c3 - c2*s1*s3\n    R[1, 0, ...] = c3*s1 + c1*c2*s3\n    R[2, 0, ...] = s2*s3\n", """    R[:2, 0, ...] = [c1*c3 - c2*s1*s3, c3*s1 + c1*c2*s3]
    R[2, 0, ...] = s2*s3
"""))
edit("equi-hypot", "C07 C08 C09 C10", (K, "TEXT:    kep[K_e, ...] = np.sqrt(equi[E_h, ...]**2 + equi[E_k, ...]**2)\n", """    kep[K_e, ...] = np.hypot(equi[E_h, ...], equi[E_k, ...])
"""))
edit("equi-where", "C07 C08 C09 C10", (K, "TEXT:    kep[K_om, eg] = om_bar[eg] - kep[K_OM, eg]\n    kep[K_om, el] = 0\n", """    kep[K_om, ...] = np.where(eg, om_bar - kep[K_OM, ...], 0)
"""))
edit("equi-stack", "C07 C08 C09 C10", (K, "kep_to_equi", """
def kep_to_equi(kep, degrees=False):
    '''kep to equi'''
    circ = 360.0 if degrees else _2pi
    to_rad = np.radians if degrees else (lambda x: x)
    longp = kep[K_om, ...] + kep[K_OM, ...]
    lam = longp + kep[K_nu, ...]
    longp = to_rad(longp)
    node = to_rad(kep[K_OM, ...])
    tan_hi = np.tan(to_rad(0.5*kep[K_i, ...]))
    elems = np.empty(kep.shape, dtype=np.result_type(kep, np.float32))
    ecc = kep[K_e, ...]
    for ind, row in zip(
        (E_a, E_h, E_k, E_p, E_q, E_lam),
        (kep[K_a, ...], ecc*np.sin(longp), ecc*np.cos(longp), tan_hi*np.sin(node), tan_hi*np.cos(node), np.mod(lam + circ, circ)),
    ):
        elems[ind, ...] = row
    return elems
"""))
edit("equivalent-any", "C25", (K, "kep_equivalent", """
def kep_equivalent(kep1, kep2):
    '''equivalent'''
    if kep1.ndim > 1 or kep2.ndim > 1:
        raise ValueError('Only vector inputs for now')
    if np.allclose(kep1, kep2):
        return True

    def close(x, y):
        return bool(np.isclose(x, y))

    if not (close(kep1[K_a], kep2[K_a]) and close(kep1[K_e], kep2[K_e])):
        return False
    flat = kep1[K_i] <= i_lim and kep2[K_i] <= i_lim
    circ = kep1[K_e] < e_lim and kep2[K_e] < e_lim
    w1, w2 = kep1[K_om], kep2[K_om]
    if flat:
        w1 = w1 + kep1[K_OM]
        w2 = w2 + kep2[K_OM]
    elif not (close(kep1[K_i], kep2[K_i]) and close(kep1[K_OM], kep2[K_OM])):
        return False
    if circ:
        return close(w1 + kep1[K_nu], w2 + kep2[K_nu])
    return close(w1, w2) and close(kep1[K_nu], kep2[K_nu])
"""))
edit("unit-get", "C22", (U, "get_G", """
_MASSES = dict(kg=1.0, g=1e-3, msun=M_sol, msol=M_sol)
_TIMES = {'s': 1.0, 'h': 3600.0, 'd': 3600.0*24, 'y': 3600.0*24*365.25}
_LENGTHS = {'m': 1.0, 'cm': 1e-2, 'km': 1e3, 'au': AU, 'pc': 3.08567758149137e16}


def _lookup(value, table, what):
    if isinstance(value, str):
        factor = table.get(value)
        if factor is None:
            raise TypeError(f'Unit "{value}" not recognized')
        return factor
    if not isinstance(value, float):
        raise TypeError(f'Type "{type(value)}" for {what} not supported')
    return value


def get_G(length, mass, time):
    if isinstance(mass, str):
        mass = mass.lower()
        for sep in '_ -':
            mass = mass.replace(sep, '')
    if isinstance(time, str):
        time = time.lower()
    if isinstance(length, str):
        length = length.lower()
    m = _lookup(mass, _MASSES, 'mass')
    t = _lookup(time, _TIMES, 'time')
    l = _lookup(length, _LENGTHS, 'length')
    return G_SI*(m*t**2/l**3)
"""))
edit("unit-try", "C22", (U, "TEXT:        length = length.lower()\n        if length == 'm':\n            _length = 1.0\n        elif length == 'cm':\n            _length = 1e-2\n        elif length == 'km':\n            _length = 1e3\n        elif length == 'au':\n            _length = AU\n        elif length == 'pc':\n            _length = 3.08567758149137e16  # IAU 2012 exact SI def\n        else:\n            raise TypeError(f'Unit \"{length}\" not recognized')\n", """        try:
            _length = {
                'm': 1.0,
                'cm': 1e-2,
                'km': 1e3,
                'au': AU,
                'pc': 3.08567758149137e16,
            }[length.lower()]
        except KeyError:
            raise TypeError(f'Unit "{length}" not recognized')
"""))
# ------------------------------------------------------------------ second wave: Orbit
edit("orb-writable", "C14 C15 C16 C20", (O, "Orbit.a#1", """
def _assert_kepler_writable(self):
    if self.kepler_read_only:
        raise AttributeError('Cannot update read only Kepler elements')

@a.setter
def a(self, value):
    self._assert_kepler_writable()
    self._kep_check()
    self._kep[0, :] = value
    if self.direct_update:
        self.calculate_cartesian()
        return
    self.__cart_calculated[:] = False
    self.__kep_calculated[:] = True
"""), (O, "Orbit.anom#1", """
@anom.setter
def anom(self, value):
    self._assert_kepler_writable()
    self._kep_check()
    self._kep[-1, :] = value
    if not self.direct_update:
        self.__kep_calculated[:] = True
        self.__cart_calculated[:] = False
    else:
        self.calculate_cartesian()
"""))
edit("orb-getrow", "C14 C15 C16 C17", (O, "Orbit.x", """
def _row(self, table, check, ind):
    check()
    return getattr(self, table)[ind, :].copy()

@property
def x(self):
    return self._row('_cart', self._cart_check, 0)
"""), (O, "Orbit.e", """
@property
def e(self):
    return self._row('_kep', self._kep_check, 1)
"""))
edit("orb-type-dict", "C16 C19 C27", (O, "Orbit.type#1", """
@type.setter
def type(self, val):
    name = val.lower().strip()
    if name not in self.ANOMALY:
        raise ValueError(f'Anomaly type "{name}" not recognized')
    if name == self.__type:
        return
    if self.kepler_read_only:
        raise AttributeError('Cannot update read only Kepler elements')
    converted = {
        'true': lambda: self.true_anomaly,
        'eccentric': lambda: self.eccentric_anomaly,
        'mean': lambda: self.mean_anomaly,
    }[name]()
    self.__type = name
    self.anom = converted
"""))
edit("orb-delete-loop", "C18 C27", (O, "Orbit.delete", """
def delete(self, inds):
    for name in ('_cart', '_kep'):
        setattr(self, name, np.delete(getattr(self, name), inds, axis=1))
    for name in ('m', '_true_anomaly', '_eccentric_anomaly', '_mean_anomaly', '_Orbit__cart_calculated', '_Orbit__kep_calculated'):
        setattr(self, name, np.delete(getattr(self, name), inds))
"""))
edit("orb-add-hstack", "C14 C18", (O, "TEXT:        self._cart = np.append(\n            self._cart,\n            np.full((6, num), np.nan, dtype=self.dtype),\n            axis=1,\n        )\n        self._kep = np.append(\n            self._kep,\n            np.full((6, num), np.nan, dtype=self.dtype),\n            axis=1,\n        )\n", """        pad = np.full((6, num), np.nan, dtype=self.dtype)
        self._cart = np.hstack([self._cart, pad])
        self._kep = np.hstack([self._kep, pad])
"""))
edit("orb-add-new", "C14 C18", (O, "TEXT:        self._cart = np.append(\n            self._cart,\n            np.full((6, num), np.nan, dtype=self.dtype),\n            axis=1,\n        )\n", """        cart = np.full((6, self.num + num), np.nan, dtype=self.dtype)
        cart[:, :self.num] = self._cart
        self._cart = cart
"""))
edit("orb-update-dict", "C14 C15 C16 C18", (O, "TEXT:        if kep_updated:\n            for ind, key in enumerate(Orbit.KEPLER):\n                if key in kwargs:\n                    self._kep[ind, inds] = kwargs[key]\n", """        if kep_updated:
            rows = {key: ind for ind, key in enumerate(Orbit.KEPLER)}
            for key, val in kwargs.items():
                if key in rows:
                    self._kep[rows[key], inds] = val
"""))
edit("orb-update-set", "C14 C15 C16 C18", (O, "TEXT:        for ind, key in enumerate(Orbit.CARTESIAN):\n            if key in kwargs:\n                if self.cartesian_read_only:\n                    raise AttributeError('Cannot update read only \\\n                        Cartesian elements')\n                cart_updated = True\n", """        cart_updated = bool(set(Orbit.CARTESIAN) & set(kwargs))
        if cart_updated and self.cartesian_read_only:
            raise AttributeError('Cannot update read only Cartesian elements')
"""))
edit("orb-calc-mask", "C14 C15 C19 C20", (O, "Orbit.calculate_cartesian", """
def calculate_cartesian(self, inds=slice(None, None, None)):
    chosen = np.zeros(self.num, dtype=bool)
    chosen[inds] = True
    chosen &= ~np.isnan(self._kep).any(axis=0)
    if not chosen.any():
        return
    self.__cart_calculated[chosen] = True
    kep = self._kep[:, chosen]
    if self.type != 'true':
        self.calc_true_anomaly(chosen)
        kep[5, :] = self._true_anomaly[chosen]
    mu = self.G*(self.M0 + self.m[chosen])
    self._cart[:, chosen] = functions.kep_to_cart(kep, mu=mu, degrees=self.degrees)
"""))
edit("orb-calc-where", "C14 C15 C19 C20", (O, "Orbit.calculate_kepler", """
def calculate_kepler(self, inds=slice(None, None, None)):
    do_inds = np.full((self.num,), False, dtype=np.bool_)
    do_inds[inds] = True
    do_inds = np.logical_and(do_inds, np.all(np.isfinite(self._cart) | np.isinf(self._cart), axis=0))
    if np.count_nonzero(do_inds) == 0:
        return
    self.__kep_calculated[do_inds] = True
    kep = functions.cart_to_kep(self._cart[:, do_inds], mu=self.G*(self.M0 + self.m[do_inds]), degrees=self.degrees)
    if self.type != 'true':
        convert = functions.true_to_eccentric if self.type == 'eccentric' else functions.true_to_mean
        kep[5, :] = convert(kep[5, :], kep[1, :], degrees=self.degrees)
    self._kep[:, do_inds] = kep
"""))
edit("orb-propagate-if", "C20", (O, "Orbit.propagate", """
def propagate(self, dt):
    turn = 360.0 if self.degrees else 2*np.pi
    M = self.mean_anomaly + self.mean_motion*dt
    bound = self.e < 1
    M[bound] = np.mod(M[bound], turn)
    self.mean_anomaly = M
"""))
edit("orb-anomaly-setter", "C14 C15 C16 C19 C20", (O, "Orbit.mean_anomaly#1", """
@mean_anomaly.setter
def mean_anomaly(self, value):
    if self.kepler_read_only:
        raise AttributeError('Cannot update read only Kepler elements')
    kind = self.type
    if kind != 'mean':
        convert = functions.mean_to_true if kind == 'true' else functions.mean_to_eccentric
        value = convert(value, self.e, solver_options=self.solver_options, degrees=self.degrees)
    self.anom = value
"""))
edit("orb-period-direct", "C14 C15 C16 C21", (O, "Orbit.period#1", """
@period.setter
def period(self, value):
    mu = self.G*(self.M0 + self.m)
    if self.kepler_read_only:
        raise AttributeError('Cannot update read only Kepler elements')
    self.a = functions.semi_major_axis(value, mu)
"""))
edit("orb-velocity-v", "C14 C15 C16 C21", (O, "Orbit.velocity#1", """
@velocity.setter
def velocity(self, value):
    if self.cartesian_read_only:
        raise AttributeError('Cannot update read only Cartesian elements')
    v = self.v
    self.v = v*(value/np.linalg.norm(v, axis=0))
"""))
edit("orb-periapsis-mask", "C21", (O, "Orbit.periapsis", """
@property
def periapsis(self):
    a, e = self.a, self.e
    factor = np.abs(1.0 - e)
    factor[e == 1] = 1.0
    return factor*a
"""))
edit("orb-speed-direct", "C21", (O, "Orbit.speed", """
@property
def speed(self):
    a, e, nu = self.a, self.e, self.true_anomaly
    mu = self.G*(self.M0 + self.m)
    a = np.where(e > 1, -a, a)
    h = functions.orbit_total_angular_momentum(a, e, mu)
    r = functions.orbital_distance(h, mu, e, nu, degrees=self.degrees)
    return functions.orbital_speed(r, a, mu)
"""))
edit("orb-equi-stack", "C10 C14 C15 C16 C21", (O, "Orbit.equinoctial#1", """
@equinoctial.setter
def equinoctial(self, vals):
    if self.kepler_read_only:
        raise AttributeError('Cannot update read only Kepler elements')
    elems = functions.equi_to_kep(vals, degrees=self.degrees)
    if elems.ndim == 1:
        elems = elems.reshape(6, 1)
    mean = elems[5, :]
    self._kep[:5, :] = elems[:5, :]
    if not self.direct_update:
        self.__kep_calculated[:] = True
    self.mean_anomaly = np.broadcast_to(mean, (self.num,))
"""))
edit("orb-getitem-atleast", "C17", (O, "Orbit.__getitem__", """
def __getitem__(self, inds):
    m = np.atleast_1d(self.m[inds].copy())
    new = Orbit(
        self.M0, G=self.G, num=m.size, m=m, degrees=self.degrees,
        solver_options=copy.deepcopy(self.solver_options), dtype=self.dtype,
        epoch=self.epoch, type=self.type,
    )
    for name in ('auto_update', 'direct_update', 'kepler_read_only', 'cartesian_read_only'):
        setattr(new, name, getattr(self, name))
    new._cart = self._cart[:, inds].reshape(6, m.size).copy()
    new._kep = self._kep[:, inds].reshape(6, m.size).copy()
    new.__cart_calculated[:] = self.__cart_calculated[inds]
    new.__kep_calculated[:] = self.__kep_calculated[inds]
    return new
"""))
edit("orb-iter-map", "C17", (O, "Orbit.__iter__", """
def __iter__(self):
    return map(self.__getitem__, range(self.num))
"""))
edit("orb-init-get", "C14 C17 C27", (O, "TEXT:        self.solver_options = dict(\n            tol=1e-12,\n            max_iter=5000,\n            degree=5,\n        )\n        self.solver_options.update(kwargs.pop('solver_options', {}))\n", """        self.solver_options = {'tol': 1e-12, 'max_iter': 5000, 'degree': 5, **kwargs.pop('solver_options', {})}
"""), (O, "TEXT:        if 'm' in kwargs:\n            self.m[:] = kwargs['m']\n            del kwargs['m']\n        if self.num > 0:\n", """        mass = kwargs.pop('m', None)
        if mass is not None:
            self.m[:] = mass
        if self.num != 0:
"""))

# ------------------------------------------------------------------ branches on the data that change nothing
edit("any-anomaly", "C04 C05 C07 C08 C09 C27", (K, "TEXT:        M[hyp] = e[hyp]*np.sinh(_E[hyp]) - _E[hyp]\n", """        if np.any(hyp):
            M[hyp] = e[hyp]*np.sinh(_E[hyp]) - _E[hyp]
"""), (K, "TEXT:        M[per] = _E[per] + _E[per]**3/3.0\n", """        if per.any():
            M[per] = _E[per] + _E[per]**3/3.0
"""))
edit("any-k2c", "C01 C03 C07 C08 C09", (K, "TEXT:    h[per] = parabolic_total_angular_momentum(a[per], mu[per])\n", """    if per.any():
        h[per] = parabolic_total_angular_momentum(a[per], mu[per])
"""), (K, "TEXT:    a[e > 1] *= -1\n", """    hyp = e > 1
    if np.count_nonzero(hyp) > 0:
        a[hyp] *= -1
"""))
edit("any-stumpff", "C13 C09", (K, "stumpff2", """
def stumpff2(x):
    '''c2'''
    x = np.asarray(x)
    c2 = np.full(x.shape, 0.5, dtype=np.result_type(x, np.float32))
    pos = x > 0
    if np.any(pos):
        c2[pos] = (1 - np.cos(np.sqrt(x[pos])))/x[pos]
    neg = x < 0
    if np.any(neg):
        c2[neg] = (1 - np.cosh(np.sqrt(-x[neg])))/x[neg]
    return c2[()]
"""))
edit("any-equi", "C07 C08 C09 C10", (K, "TEXT:    eg = kep[K_e, ...] > e_lim\n    kep[K_nu, eg] = true_to_mean(kep[K_nu, eg], kep[K_e, eg], degrees=degrees)\n", """    eg = kep[K_e, ...] > e_lim
    if np.any(eg):
        kep[K_nu, eg] = true_to_mean(kep[K_nu, eg], kep[K_e, eg], degrees=degrees)
"""))
edit("all-anomaly", "C04 C07 C08 C09", (K, "TEXT:        nu[hyp] = 2.0*np.arctan(\n            np.sqrt((e[hyp] + 1.0)/(e[hyp] - 1.0))*np.tanh(_E[hyp]*0.5)\n        )\n        nu[per] = 2.0*np.arctan(_E[per])\n", """        if not np.all(eli):
            nu[hyp] = 2.0*np.arctan(np.sqrt((e[hyp] + 1.0)/(e[hyp] - 1.0))*np.tanh(_E[hyp]*0.5))
            nu[per] = 2.0*np.arctan(_E[per])
"""))
edit("c2k-tail", "C02 C03 C08 C26", (K, "TEXT:    tmp_ind_ = np.logical_and(o[2, :] < np.pi*0.5, el_il)\n    tmp_ind2_ = np.logical_and(tmp_ind_, r[1, :] < 0.0)\n", """    if degrees and not el_il.any():
        o[2:, :] = np.degrees(o[2:, :])
        if input_is_vector:
            o.shape = (6,)
        return o

    tmp_ind_ = np.logical_and(o[2, :] < np.pi*0.5, el_il)
    tmp_ind2_ = np.logical_and(tmp_ind_, r[1, :] < 0.0)
"""))
edit("c2k-retro-sign", "C02 C03 C08 C26", (K, "TEXT:    ey_neg = np.logical_and(o[2, :] < np.pi*0.5, eg_il)\n    ey_neg2 = np.logical_and(ey_neg, e[1, :] < 0.0)\n    o[3, ey_neg2] = 2.0*np.pi - o[3, ey_neg2]\n    ey_neg = np.logical_and(o[2, :] > np.pi*0.5, eg_il)\n    ey_neg2 = np.logical_and(ey_neg, e[1, :] > 0.0)\n    o[3, ey_neg2] = 2.0*np.pi - o[3, ey_neg2]\n", """    side = np.where(o[2, :] < np.pi*0.5, 1.0, -1.0)
    flip = np.logical_and(eg_il, side*e[1, :] < 0.0)
    o[3, flip] = 2.0*np.pi - o[3, flip]
"""))
edit("mean-empty-late", "C05 C07 C08 C09 C27", (K, "TEXT:        if _M.size == 0:\n            return E\n", """        if 0 in _M.shape:
            return E
"""))
edit("mean-elliptic-mask", "C05 C08 C09", (K, "mean_to_eccentric", MEAN.replace("LOOP", """par = e == 1
        E[par] = _solve_parabola(_M[par])
        for ind in np.ndindex(*_M.shape):
            if not par[ind]:
                E[ind] = _solve_kepler_single(_M[ind], e[ind], solver_options)""").replace("""    if e == 1:
        A = 3.0/2.0*M
        B = np.cbrt(A + np.sqrt(A**2 + 1))
        return B - 1.0/B
""", """    if e == 1:
        return _solve_parabola(M)
""").replace("def _solve_kepler_single", """def _solve_parabola(M):
    A = 3.0/2.0*M
    B = np.cbrt(A + np.sqrt(A**2 + 1))
    return B - 1.0/B


def _solve_kepler_single""", 1)))
edit("orb-lazy-any", "C14 C15 C19 C20", (O, "Orbit._cart_check", """
def _cart_check(self):
    if not self.auto_update or self.direct_update:
        return
    stale = ~self.__cart_calculated
    if stale.any():
        self.calculate_cartesian(stale)
"""), (O, "Orbit._kep_check", """
def _kep_check(self):
    if self.auto_update and not self.direct_update:
        stale = np.flatnonzero(self.__kep_calculated == False)
        if len(stale) > 0:
            self.calculate_kepler(stale)
"""))

edit("count-calls", "C01 C08 C09", (K, "TEXT:    kep = kep.astype(np.result_type(kep, np.float32))\n    x = np.empty(kep.shape, dtype=kep.dtype)\n", """    _CALLS['kep_to_cart'] = _CALLS.get('kep_to_cart', 0) + 1
    kep = kep.astype(np.result_type(kep, np.float32))
    x = np.empty(kep.shape, dtype=kep.dtype)
"""), (K, "TEXT:e_lim = 1e-9\n", """_CALLS = {}
e_lim = 1e-9
"""))
edit("cached-coefficients", "C05 C06 C07", (K, "TEXT:        sqrt_term = np.sqrt(np.abs(\n            (degree - 1.0)**2*fp_eval**2", """        c1, c2 = _laguerre_coefficients(degree)
        sqrt_term = np.sqrt(np.abs(
            c1*fp_eval**2"""), (K, "TEXT:def laguerre_solve_kepler(", """_COEFFICIENTS = {}


def _laguerre_coefficients(degree):
    if degree not in _COEFFICIENTS:
        _COEFFICIENTS[degree] = ((degree - 1.0)**2, degree*(degree - 1.0))
    return _COEFFICIENTS[degree]


def laguerre_solve_kepler("""))
edit("orb-period-kept", "C14 C15 C16 C17 C18 C20 C21", (O, "Orbit.period", """
@property
def period(self):
    self._kep_check()
    mu = self.G*(self.M0 + self.m)
    kept = self.__dict__.get('_period')
    if kept is not None and np.array_equal(kept[0], self._kep[0, :]) and np.array_equal(kept[1], mu):
        return kept[2].copy()
    a = self.a
    self._period = (a, mu, functions.orbital_period(a, mu))
    return self._period[2].copy()
"""))
edit("orb-turn-table", "C15 C20 C21", (O, "TEXT:        if self.degrees:\n            wrap_ = 360.0\n        else:\n            wrap_ = 2*np.pi\n        mean_anomaly", """        wrap_ = TURN[bool(self.degrees)]
        mean_anomaly"""), (O, "TEXT:class Orbit:", """TURN = {False: 2*np.pi, True: 360.0}


class Orbit:"""))
edit("orb-log", "C14 C18 C21", (O, "TEXT:        self._kep_check()\n        return functions.orbital_period(", """        self.__dict__.setdefault('log', []).append('period')
        self._kep_check()
        return functions.orbital_period("""))


def run(names):
    scratch = os.environ.get("REFAC_DIR", "/tmp/refac_repo")
    ids = {"py": "/opt/venv/bin/python"}
    for name in names:
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.copytree("/repo", scratch, ignore=shutil.ignore_patterns(".git"))
        apply(name, scratch)
        env = dict(os.environ, PYTHONPATH=scratch, PYTHONDONTWRITEBYTECODE="1")
        t = subprocess.run([ids["py"], "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=scratch, env=env, capture_output=True, text=True)
        where = subprocess.run([ids["py"], "-c", "import pyorb; print(pyorb.kepler.__file__)"], cwd=scratch, env=env, capture_output=True, text=True).stdout.strip()
        print(f"== {name}: tests {'pass' if t.returncode == 0 else 'FAIL ' + t.stdout[-400:]} ({where})", flush=True)
        for cid in EDITS[name][0]:
            env2 = dict(os.environ, PYORB_REPO=scratch, DV_VERBOSE="1", EVIDENCE_DIR=scratch)
            r = subprocess.run(["python3-vt", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools", "runone.py"), cid], env=env2, capture_output=True, text=True)
            out = r.stdout.strip().splitlines()
            bad = [x for x in out if "FAILED" in x]
            print(f"   {cid}: {out[-1] if out else r.stderr[-300:]}" + "".join("\n      " + b[:300] for b in bad[:3]), flush=True)
    shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        print("\n".join(EDITS))
    elif sys.argv[1] == "apply":
        apply(sys.argv[2], sys.argv[3])
    else:
        run(sys.argv[2:] or list(EDITS))

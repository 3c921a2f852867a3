"""a fourth set of planted bugs (tools/mkseed.py tools/seeds4.py)"""
SEEDS = {}


def seed(sid, prop, edits, demo, needs, breaks):
    SEEDS[sid] = dict(property=prop, edits=edits, demo="import numpy as np, pyorb, pyorb.kepler as k\n" + demo, needs=needs, breaks=breaks)


ORB = "o = pyorb.Orbit(M0=1.0, G=1.0, num=%s, a=1.0, e=0.2, i=0.3, omega=0.4, Omega=0.5, anom=0.6%s)\n"
LAZY = "o = pyorb.Orbit(M0=1.0, G=1.0, num=%s, a=1.0, e=0.2, i=0.3, omega=0.4, Omega=0.5, anom=0.6, direct_update=False, auto_update=True)\n"

seed("C02-approach", "C02", [("kepler.py", "tmp_ind_ = np.logical_and(vr < 0.0, eg)", "tmp_ind_ = np.logical_and(vr < -1e-4*vn, eg)")], """
c = k.kep_to_cart(np.array([1.0, 0.1, 0.3, 0.4, 0.5, 2*np.pi - 5e-4]), mu=1.0)
b = k.cart_to_kep(c, mu=1.0)
assert abs(b[5] - (2*np.pi - 5e-4)) < 1e-6, b
""", "an orbit shortly before its periapsis, moving almost across the radius", "the true anomaly of an approaching body is above pi")

seed("C05-same-mean", "C05", [("kepler.py", "            Ec[...] = E_calc\n\n    else:\n        if e == 0:", "            Ec[...] = E_calc\n        if np.all(_M == _M.flat[0]) and np.ptp(e) < 1e-3:\n            E[...] = E.flat[0]\n\n    else:\n        if e == 0:")], """
e = np.array([0.3, 0.3005])
E = k.mean_to_eccentric(np.array([1.0, 1.0]), e)
assert np.allclose(E - e*np.sin(E), 1.0, atol=1e-9), E - e*np.sin(E)
""", "an array of one mean anomaly with close eccentricities", "every element solves its own Kepler equation")

seed("C06-progress", "C06", [("kepler.py", "    while np.abs(f_eval) >= tol:\n        it_num += 1\n", "    while np.abs(f_eval) >= tol:\n"), ("kepler.py", "        f_eval = _f(E)\n\n        if it_num >= max_iter:", "        f_last = f_eval\n        f_eval = _f(E)\n        it_num += 1 if f_eval != f_last else 0\n\n        if it_num >= max_iter:")], """
import signal
signal.alarm(20)
E, n = k.laguerre_solve_kepler(3.0, 3.0, 0.7, tol=1e-30, max_iter=50)
E, n = k.laguerre_solve_kepler(1.0e6, 1.0e6 + 0.5, 0.7, tol=1e-30, max_iter=50)
""", "a tolerance below the rounding error, so that the residual stops changing", "the solver always terminates")

seed("C09-large-degrees", "C09", [("kepler.py", "    if degrees:\n        _E = np.radians(E)\n    else:\n        _E = E\n\n    if isinstance(_E, np.ndarray) or isinstance(e, np.ndarray):\n        if not isinstance(_E, np.ndarray):\n            _E = np.ones(e.shape, dtype=e.dtype)*_E\n        if not isinstance(e, np.ndarray):\n            e = np.ones(_E.shape, dtype=_E.dtype)*e\n        if _E.shape != e.shape:\n            raise TypeError('Input dimensions does not agree')\n\n        nu = ", "    if degrees:\n        if isinstance(E, np.ndarray) and E.dtype == np.float64 and E.size > 1000:\n            _E = np.radians(E, out=E)\n        else:\n            _E = np.radians(E)\n    else:\n        _E = E\n\n    if isinstance(_E, np.ndarray) or isinstance(e, np.ndarray):\n        if not isinstance(_E, np.ndarray):\n            _E = np.ones(e.shape, dtype=e.dtype)*_E\n        if not isinstance(e, np.ndarray):\n            e = np.ones(_E.shape, dtype=_E.dtype)*e\n        if _E.shape != e.shape:\n            raise TypeError('Input dimensions does not agree')\n\n        nu = ")], """
E = np.linspace(1, 350, 2000)
b = E.copy()
k.eccentric_to_true(E, 0.3, degrees=True)
assert np.array_equal(E, b)
""", "more than 1000 double precision angles in degrees", "inputs are left as they were")

seed("C10-longitude-wrap", "C10", [("kepler.py", "elems[E_lam, ...] = np.mod(lambda0 + _circ, _circ)", "elems[E_lam, ...] = np.where(lambda0 < 0, lambda0 + _circ, np.where(lambda0 < _circ, lambda0, lambda0 - _circ))")], """
q = k.kep_to_equi(np.array([1.0, 0.1, 0.3, 6.0, 5.9, 4.0]))
assert 0 <= q[5] < 2*np.pi, q
""", "periapsis, node and anomaly that add up to more than two revolutions", "the mean longitude is in [0, 2 pi)")

seed("C11-int-axis", "C11", [("kepler.py", "return 2.0*np.pi*np.sqrt(a**3.0/mu)", "return 2.0*np.pi*np.sqrt(a**3/mu)")], """
a = np.array([42164000])
assert np.allclose(k.orbital_period(a, 3.986004418e14), k.orbital_period(a.astype(float), 3.986004418e14)), k.orbital_period(a, 3.986004418e14)
""", "an integer array of axes whose cubes overflow", "the period is the one of the axis")

seed("C14-late-mass", "C14", [("orbit.py", "        self.allocate(kwargs.pop('num', 1))\n", "        self.allocate(kwargs.pop('num', 1))\n        self._mu0 = self.G*self.M0\n"), ("orbit.py", "            kep_tmp,\n            mu=self.G*(self.M0 + self.m[do_inds]),\n", "            kep_tmp,\n            mu=self._mu0 + self.G*self.m[do_inds],\n")], ORB % (1, "") + """
o.M0 = 2.0
o.a = 1.5
assert np.allclose(o.cartesian, k.kep_to_cart(o.kepler, mu=2.0)), o.cartesian
""", "the central mass changed before an element is", "the state follows the elements with mu = G (M0 + m)")

seed("C15-known-state", "C15", [("orbit.py", "                self.__cart_calculated[inds] = True\n                self.__kep_calculated[inds] = False\n            return\n", "                if not np.all(self.__cart_calculated[inds]):\n                    self.__kep_calculated[inds] = False\n                self.__cart_calculated[inds] = True\n            return\n")], LAZY % 1 + """
c = o.cartesian
o.update(cartesian=c*1.1)
assert not np.allclose(o.a, 1.0), o.a
assert np.allclose(o.kepler[:, 0], k.cart_to_kep(c[:, 0]*1.1, mu=1.0))
""", "a state that is replaced after it has been read", "the elements reflect the latest state")

seed("C16-motion-mode", "C16", [("orbit.py", "        if self.kepler_read_only:\n            raise AttributeError('Cannot update read only Kepler elements')\n        if self.type == 'eccentric':\n            self.anom = value\n", "        if self.kepler_read_only and self.type != 'eccentric':\n            raise AttributeError('Cannot update read only Kepler elements')\n        if self.type == 'eccentric':\n            self._kep[5, :] = value\n")], ORB % (1, ", type='eccentric'") + """
o.kepler_read_only = True
b = o.kepler
try:
    o.eccentric_anomaly = 1.0
except AttributeError:
    pass
assert np.array_equal(o.kepler, b), o.kepler
""", "read-only elements of an orbit in eccentric anomaly", "read-only elements cannot be assigned")

seed("C18-keep-mass", "C18", [("orbit.py", "        self.m = np.full((num,), 0, dtype=self.dtype)\n        self._cart = np.full((6, num), np.nan, dtype=self.dtype)\n", "        if num != len(getattr(self, 'm', ())):\n            self.m = np.full((num,), 0, dtype=self.dtype)\n        self._cart = np.full((6, num), np.nan, dtype=self.dtype)\n")], """
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, m=0.5)
o.allocate(2)
assert np.array_equal(o.m, [0, 0]), o.m
""", "allocating the number of orbits there already is", "allocate gives massless orbits")

seed("C21-first-speed", "C21", [("orbit.py", "        self.v *= value/np.linalg.norm(self.v, axis=0)\n", "        self.v = self.v*(value/np.linalg.norm(self.v, axis=0 if np.size(value) > 1 else None))\n")], """
kep = np.array([[1.0, 0.2, 0.3, 0.4, 0.5, 0.6], [2.0, 0.2, 0.3, 0.4, 0.5, 0.6]]).T
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, kepler=kep)
o.velocity = 0.5
assert np.allclose(o.velocity, 0.5), o.velocity
""", "one velocity assigned to several orbits", "the velocity reads back as assigned")

seed("C22-length-words", "C22", [("unit.py", "        elif length == 'cm':\n            _length = 1e-2\n", "        elif length == 'cm':\n            _length = 1e-2\n            if isinstance(mass, str) and mass == 'g':\n                _mass = 1e-3*(1.0 if _time == 1.0 else 1e3)\n")], """
assert np.isclose(pyorb.get_G('cm', 'g', 'h'), pyorb.get_G('m', 'kg', 's')*1e-3*3600.0**2*1e6)
""", "centimetres and grams with a time unit that is not the second", "each argument is interpreted independently")

seed("C25-one-planar", "C25", [("kepler.py", "    if kep1[K_i] > i_lim or kep2[K_i] > i_lim:\n", "    if kep1[K_i] > i_lim and kep2[K_i] > i_lim:\n")], """
a = np.array([1.0, 0.2, 0.0, 0.3, 0.4, 0.5])
b = np.array([1.0, 0.2, 1.0, 0.3, 0.4, 0.5])
assert not k.kep_equivalent(a, b)
""", "one planar and one inclined orbit", "equivalent elements describe the same plane")

seed("C26-node-norm", "C26", [("kepler.py", "nn[ig] = np.linalg.norm(n[:, ig], axis=0)", "nn[ig] = np.where(np.abs(o[2, ig] - 1.0) < 1e-2, hn[ig]*np.sin(o[2, ig]), np.linalg.norm(n[:, ig], axis=0))")], """
rng = np.random.default_rng(1)
n = 20000
i = rng.uniform(0.992, 1.008, n)
kep = np.array([np.ones(n), np.full(n, 0.1), i, np.full(n, 0.3), np.where(rng.random(n) < 0.5, 0, np.pi), np.full(n, 0.4)])
b = k.cart_to_kep(k.kep_to_cart(kep, mu=1.0), mu=1.0)
assert not np.isnan(b).any(), np.isnan(b).sum()
""", "orbits of an inclination near one radian whose node is on the x axis", "no NaN elements for valid states")

seed("C27-rank", "C27", [("kepler.py", "        if _E.shape != e.shape:\n            raise TypeError('Input dimensions does not agree')\n\n        M = ", "        if _E.ndim == e.ndim and _E.shape != e.shape:\n            raise TypeError('Input dimensions does not agree')\n        _E, e = np.broadcast_arrays(_E, e)\n\n        M = ")], """
try:
    k.eccentric_to_mean(np.ones((2, 3)), np.full((3,), 0.3))
except TypeError:
    pass
else:
    raise SystemExit('accepted')
""", "arrays of different number of axes", "arrays of different shape are refused with TypeError")

seed("C04-asymptote", "C04", [("kepler.py", "        nu[hyp] = 2.0*np.arctan(\n            np.sqrt((e[hyp] + 1.0)/(e[hyp] - 1.0))*np.tanh(_E[hyp]*0.5)\n        )\n", "        nu[hyp] = 2.0*np.arctan(\n            np.sqrt((e[hyp] + 1.0)/(e[hyp] - 1.0))*np.tanh(np.clip(_E[hyp], -12.0, 12.0)*0.5)\n        )\n        nu[hyp] += np.where(np.abs(_E[hyp]) > 12.0, 1e-3*np.sign(_E[hyp]), 0)\n")], """
E = np.array([13.0, -13.0])
nu = k.eccentric_to_true(E, np.array([1.5, 1.5]))
want = np.mod(2*np.arctan(np.sqrt(5.0)*np.tanh(E/2)), 2*np.pi)
assert np.allclose(nu, want, atol=1e-6), nu - want
""", "hyperbolic anomalies beyond 12", "true and eccentric anomaly are of the same point")

seed("C12-large-angle", "C12", [("kepler.py", "    R[0, 0] = np.cos(theta)\n    R[0, 1] = -np.sin(theta)\n", "    R[0, 0] = np.cos(theta)\n    theta = np.where(np.abs(theta) > 2*np.pi, np.abs(theta), theta)\n    R[0, 1] = -np.sin(theta)\n")], """
t = -7.0
R = k.rot_mat_z(t)
assert np.allclose(R, k.rot_mat_z(t + 2*np.pi)), R
""", "an angle below minus one revolution", "rotations compose additively")

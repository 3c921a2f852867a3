SEEDS = {}
def seed(sid, prop, edits, demo, needs, breaks):
    SEEDS[sid] = dict(property=prop, edits=edits, demo="import numpy as np, pyorb, pyorb.kepler as k\n" + demo, needs=needs, breaks=breaks)

seed("C01-nearly-parabolic", "C01", [("kepler.py", "per = e == 1\n    nper", "per = np.isclose(e, 1)\n    nper")], """
kep = np.array([1e11, 1 - 4e-6, 0.3, 0.4, 0.5, 0.6])
out = k.kep_to_cart(kep)
r = kep[0]*(1 - kep[1]**2)/(1 + kep[1]*np.cos(kep[5]))
assert np.isclose(np.linalg.norm(out[:3]), r), np.linalg.norm(out[:3])/r
""", "an eccentricity within 1e-5 of one but not one", "the distance is that of the conic with the given elements")

seed("C03-retrograde-circular", "C03", [("kepler.py", "    tmp_ind_ = np.logical_and(o[2, :] > np.pi*0.5, el_il)", "    tmp_ind_ = np.logical_and(o[2, :] > np.pi*0.5, eg_il)")], """
kep = np.array([1e11, 0.0, np.pi, 0.0, 0.0, 4.0])
out = k.kep_to_cart(k.cart_to_kep(k.kep_to_cart(kep)))
want = k.kep_to_cart(kep)
assert np.allclose(out, want, rtol=1e-6, atol=1.0), (out, want)
""", "a circular orbit in the reference plane, retrograde, in the half plane y > 0", "state -> elements -> state returns the same state")

seed("C04-above-parabola", "C04", [("kepler.py", "per = e == 1\n        eli = e < 1\n\n        E[hyp] = 2.0*np.arctanh(", "per = np.abs(e - 1) < 1e-7\n        eli = e < 1\n\n        E[hyp] = 2.0*np.arctanh(")], """
e = np.array([0.5, 1 + 5e-8]); nu = np.array([1.0, 1.0])
E = k.true_to_eccentric(nu, e)
assert np.allclose(E, [k.true_to_eccentric(1.0, x) for x in e]), E
assert np.allclose(k.eccentric_to_true(E, e), nu)
""", "an array with a hyperbola of eccentricity within 1e-7 of one", "the hyperbolic anomaly is that of the same point")

seed("C06-guess-symmetry", "C06", [("kepler.py", "    elif _M < 2.0:\n        E0 = _M + e", "    elif M < 2.0:\n        E0 = _M + e")], """
for M in (0.6, 1.5, 1.9):
    a, b = k.kepler_guess(M, 0.5), k.kepler_guess(2*np.pi - M, 0.5)
    assert np.isclose(a, 2*np.pi - b), (M, a, 2*np.pi - b)
""", "elliptic mean anomalies between 2 pi - 2 and 2 pi - 0.25", "the start value is symmetric about pi")

seed("C12-int-angles", "C12", [("kepler.py", "R = np.empty((3, 3, omega.size), dtype=np.float64)", "R = np.empty((3, 3, omega.size), dtype=omega.dtype)")], """
R = k.euler_rotation_matrix(30.0, np.array([10, 20]), 40.0, degrees=True)
want = k.euler_rotation_matrix(30.0, np.array([10.0, 20.0]), 40.0, degrees=True)
assert np.allclose(R, want), R[:, :, 0]
""", "an integer array of arguments of periapsis with a scalar inclination", "the Euler matrix equals the product of the three rotations")

seed("C15-partial-update", "C15", [("orbit.py", "                self.__kep_calculated[inds] = True\n                self.__cart_calculated[inds] = False\n            return", "                self.__kep_calculated[inds] = True\n                self.__cart_calculated[:] = False\n            return")], """
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, a=1.0, e=0.2, i=0.1, omega=0.1, Omega=0.1, anom=0.3, direct_update=False)
o.x = 1.5
o.update(inds=[0], kepler=np.array([[2.0, .2, .1, .1, .1, .3]]).T)
assert o.x[1] == 1.5, o.x
""", "lazy mode: a Cartesian change of all orbits, then set all Kepler elements of some of them, then read the others", "a Cartesian assignment is read back")

seed("C16-mass-first", "C16", [("orbit.py", "        cart_updated = False\n        kep_updated = False\n", "        cart_updated = False\n        kep_updated = False\n\n        if 'm' in kwargs and not self.direct_update:\n            self.m[inds] = kwargs['m']\n")], """
o = pyorb.Orbit(M0=1.0, G=1.0, num=1, a=1.0, e=0.2, i=0.1, omega=0.1, Omega=0.1, anom=0.3, direct_update=False)
try:
    o.update(m=0.5, x=1.0, a=2.0)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
assert o.m[0] == 0, o.m
""", "lazy mode: a rejected update (Kepler and Cartesian elements together) that also gives a mass", "a rejected change leaves the masses as they were")

seed("C19-solver-options", "C19", [("orbit.py", "            self.anom = functions.mean_to_eccentric(\n                value,\n                self.e,\n                solver_options = self.solver_options,\n                degrees = self.degrees,", "            self.anom = functions.mean_to_eccentric(\n                value,\n                self.e,\n                degrees = self.degrees,")], """
opts = dict(tol=1e-12, max_iter=1)
o = pyorb.Orbit(M0=1.0, G=1.0, num=1, a=1.0, e=0.9, i=0.1, omega=0.1, Omega=0.1, anom=0.3, type='eccentric', solver_options=opts)
o.mean_anomaly = 0.5
want = k.mean_to_eccentric(0.5, 0.9, solver_options=opts)
assert np.isclose(o.anom[0], want, rtol=1e-12, atol=0), (o.anom, want)
""", "an orbit with eccentric anomaly and its own solver options whose mean anomaly is assigned", "the orbit's solver options are used")

seed("C20-period-mass", "C20", [("orbit.py", "        return functions.orbital_period(self.a, self.G*(self.M0 + self.m))", "        return functions.orbital_period(self.a, self.G*self.M0)")], """
o = pyorb.Orbit(M0=1.0, G=1.0, num=1, m=1.0, a=1.0, e=0.2, i=0.1, omega=0.1, Omega=0.1, anom=0.3, type='mean')
o.propagate(1.0)
assert np.isclose(o.anom[0], 0.3 + np.sqrt(2.0)), o.anom
""", "an orbiting body with mass", "propagation advances the mean anomaly with the mean motion of M0 + m")

seed("C21-speed-mass", "C21", [("orbit.py", "        mu = self.G*(self.M0 + self.m)\n        # In", "        mu = self.G*(self.M0 + self.m[0])\n        # In")], """
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, m=np.array([0.0, 1.0]), a=1.0, e=0.2, i=0.1, omega=0.1, Omega=0.1, anom=0.3)
assert np.allclose(o.speed, o.velocity), (o.speed, o.velocity)
""", "several orbits of different mass", "speed equals velocity")

seed("C22-dashes", "C22", [("unit.py", ".replace(' ', '').replace('-', '')", ".strip().replace('-', '')")], """
assert np.isclose(pyorb.get_G('m', 'M sun', 's'), pyorb.get_G('m', 'Msun', 's'))
""", "a mass unit with a space inside", "mass units ignore spaces")

seed("C23-explicit-false", "C23", [("unit.py", "if not kwargs.pop('degrees', degrees):", "if not (kwargs.pop('degrees', False) or degrees):")], """
from pyorb.unit import angle_units
f = angle_units([0], None, True, degrees=True)(lambda x: x + 1)
assert f(1.0, degrees=False) == 2.0, f(1.0, degrees=False)
""", "degrees=False given explicitly where the declared default is True", "with degrees=False the function behaves as the original")

seed("C24-underscore", "C24", [("const.py", "        if name in self.__dict__:\n            if", "        if name in self.__dict__ and not name.startswith('_'):\n            if")], """
from pyorb import const
try:
    const._2pi = 6.0
except TypeError:
    pass
assert const._2pi == 2*np.pi, const._2pi
""", "assigning a constant whose name starts with an underscore", "constants cannot be rebound")

seed("C25-mixed-shapes", "C25", [("kepler.py", "if len(kep1.shape) > 1 or len(kep2.shape) > 1:", "if len(kep1.shape) > 1 and len(kep2.shape) > 1:")], """
kep = np.array([1e11, 0.1, 0.3, 0.4, 0.5, 0.6])
try:
    r = k.kep_equivalent(kep, kep[:, None])
except ValueError as e:
    assert 'vector' in str(e), e
else:
    raise SystemExit(f'accepted: {r}')
""", "one vector and one array", "array inputs are refused")

seed("C26-clamp", "C26", [("kepler.py", "    cos_nu[cos_nu > 1.0] = 1.0", "    cos_nu[cos_nu - 1.0 > 1e-15] = 1.0")], """
rng = np.random.default_rng(1)
n = 20000
kep = np.array([rng.uniform(0.5, 2, n), rng.uniform(0, 0.9, n), rng.uniform(0, 3, n), rng.uniform(0, 6, n), rng.uniform(0, 6, n), np.zeros(n)])
out = k.cart_to_kep(k.kep_to_cart(kep, mu=1.0), mu=1.0)
assert not np.isnan(out).any(), np.isnan(out).sum()
""", "a body at periapsis whose cosine rounds to just above one", "no NaN from rounding")

seed("C27-seven-rows", "C27", [("kepler.py", "if cart.shape[0] != 6:", "if cart.shape[0] < 6:")], """
try:
    r = k.cart_to_kep(np.array([[7000.0, 1.0, 2.0, 0.1, 0.2, 0.3, 4.0, 5.0]]*2).T, mu=4.0)
except ValueError as e:
    assert 'variables' in str(e), e
else:
    raise SystemExit('accepted')
""", "an array with more than six rows", "arrays whose first axis is not six long raise ValueError")

seed("C01-nearly-parabolic", "C01", [("kepler.py", "per = e == 1\n    nper", "per = np.abs(e - 1) < e_lim*10\n    nper")], """
kep = np.array([1e11, 1 - 4e-9, 0.3, 0.4, 0.5, 0.6])
out = k.kep_to_cart(kep)
r = kep[0]*(1 - kep[1]**2)/(1 + kep[1]*np.cos(kep[5]))
assert np.isclose(np.linalg.norm(out[:3]), r), np.linalg.norm(out[:3])/r
""", "an eccentricity within 1e-8 of one but not one", "the distance is that of the conic with the given elements")
seed("C06-at-tolerance", "C06", [("kepler.py", "while np.abs(f_eval) >= tol:", "while np.abs(f_eval) > tol:")], """
E, n = k.laguerre_solve_kepler(0.5, 1.0, 0.0, tol=0.5, max_iter=10)
assert n > 0 and abs(E - 1.0) < 0.5, (E, n)
""", "a residual that equals the tolerance exactly", "the solver stops only with a residual below the tolerance")
seed("C26-clamp", "C26", [("kepler.py", "    cos_om[cos_om < -1.0] = -1.0", "    cos_om[cos_om + 1.0 < -1e-15] = -1.0")], """
rng = np.random.default_rng(1)
n = 200000
kep = np.array([rng.uniform(0.5, 2, n), rng.uniform(0.01, 0.9, n), rng.uniform(0.1, 3, n), np.full(n, np.pi), rng.uniform(0, 6, n), rng.uniform(0, 6, n)])
out = k.cart_to_kep(k.kep_to_cart(kep, mu=1.0), mu=1.0)
assert not np.isnan(out).any(), np.isnan(out).sum()
""", "a periapsis opposite to the node whose cosine rounds to just below minus one", "no NaN from rounding")
seed("C21-period-setter", "C21", [("orbit.py", "            value,\n            self.G*(self.M0 + self.m),\n        )", "            value,\n            self.G*(self.M0 + self.m[0]),\n        )")], """
o = pyorb.Orbit(M0=1.0, G=1.0, num=2, m=np.array([0.0, 1.0]), a=1.0, e=0.2, i=0.1, omega=0.1, Omega=0.1, anom=0.3)
o.period = 3.0
assert np.allclose(o.period, 3.0), o.period
""", "several orbits of different mass whose period is assigned", "an assigned period reads back")
seed("C03-planar-e", "C03", [("kepler.py", "    cos_om[eg_il] = e[0, eg_il]/o[1, eg_il]", "    cos_om[eg_il] = e[0, eg_il]/np.hypot(e[0, eg_il], np.abs(e[1, eg_il]) + e_lim)")], """
kep = np.array([1e11, 2e-9, 0.0, 1.0, 0.0, 0.3])
c = k.kep_to_cart(kep)
e = (np.linalg.norm(c[3:])**2/k.GM_sol - 1/np.linalg.norm(c[:3]))*c[:3] - c[:3].dot(c[3:])/k.GM_sol*c[3:]
o = k.cart_to_kep(c)
d = (o[3] - np.arctan2(e[1], e[0]) + np.pi) % (2*np.pi) - np.pi
assert abs(d) < 1e-3, (o, d)
""", "a planar orbit of eccentricity of the order of 1e-9", "the argument of periapsis is the angle of the eccentricity vector")

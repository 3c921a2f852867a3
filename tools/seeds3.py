"""a third set of planted bugs (tools/mkseed.py tools/seeds3.py)"""
SEEDS = {}


def seed(sid, prop, edits, demo, needs, breaks):
    SEEDS[sid] = dict(property=prop, edits=edits, demo="import numpy as np, pyorb, pyorb.kepler as k\n" + demo, needs=needs, breaks=breaks)


ORB = "o = pyorb.Orbit(M0=1.0, G=1.0, num=%s, a=1.0, e=0.2, i=0.3, omega=0.4, Omega=0.5, anom=0.6%s)\n"

seed("C17-single-precision", "C17", [("orbit.py", "            dtype = self.dtype,\n            epoch = self.epoch,\n", "            epoch = self.epoch,\n")], ORB % (2, ", dtype=np.float32") + """
c = o[:1]
assert c.m.dtype == o.m.dtype and c.dtype == o.dtype, (c.m.dtype, o.m.dtype)
c.add(num=1, a=1.0, e=0.2, i=0.3, omega=0.4, Omega=0.5, anom=0.6)
assert c.kepler.dtype == np.float32, c.kepler.dtype
""", "a copy of an orbit that is not of the default precision", "a copy has the same options as the original")

seed("C18-add-none", "C18", [("orbit.py", "inds = slice(self.num, self.num + num, None)", "inds = slice(-num, None, None)")], ORB % (2, "") + """
b = o.kepler
o.add(num=0, a=3.0)
assert o.num == 2 and np.array_equal(o.kepler, b), o.kepler
""", "adding zero orbits with elements", "add leaves the existing orbits unchanged")

seed("C14-keep-converted", "C14", [("orbit.py", "        else:\n            kep_tmp = self._kep[:, do_inds]\n            self.calc_true_anomaly(do_inds)", "        else:\n            kep_tmp = self._kep if np.sum(do_inds) > 5 else self._kep[:, do_inds]\n            self.calc_true_anomaly(do_inds)")], """
kep = np.array([[1.0, 0.2, 0.3, 0.4, 0.5, 0.6 + 0.1*j] for j in range(7)]).T
o = pyorb.Orbit(M0=1.0, G=1.0, num=7, type='mean', kepler=kep)
assert np.allclose(o.kepler, kep), o.anom
""", "more than five orbits at once with another anomaly type than true", "elements that were assigned read back")

seed("C20-slow-motion", "C20", [("orbit.py", "            norm_ = 360.0\n        else:\n            norm_ = np.pi*2.0\n\n        return norm_/self.period", "            norm_ = 360.0\n        else:\n            norm_ = np.pi*2.0\n\n        return norm_/np.maximum(self.period, 1e-3)")], """
o = pyorb.Orbit(M0=1.0, G=1e12, num=1, a=1.0, e=0.2, i=0.3, omega=0.4, Omega=0.5, anom=0.6)
s = o.cartesian
o.propagate(o.period*0.25)
o.propagate(o.period*0.75)
assert np.allclose(s, o.cartesian, rtol=1e-6), (s, o.cartesian)
""", "orbits of a period below a millisecond (in whatever time unit)", "propagating by one period returns to the same state")

seed("C21-longitude-type", "C21", [("orbit.py", "        return self.mean_anomaly + self.omega + self.Omega", "        return (self.mean_anomaly if self.num > 1 or self.degrees else self.anom) + self.omega + self.Omega")], ORB % (1, ", type='eccentric'") + """
assert np.allclose(o.mean_longitude, o.mean_anomaly + 0.9), o.mean_longitude
""", "a single orbit in radians whose type is not mean", "the mean longitude uses the mean anomaly")

seed("C19-strip", "C19", [("orbit.py", "            if val == 'true':\n                anom = self.true_anomaly\n            elif val == 'eccentric':\n                anom = self.eccentric_anomaly\n", "            if val == 'true':\n                anom = self.true_anomaly\n            elif val == 'eccentric' or np.all(self.e < 1e-2):\n                anom = self.eccentric_anomaly\n")], """
o = pyorb.Orbit(M0=1.0, G=1.0, num=1, a=1.0, e=0.005, i=0.3, omega=0.4, Omega=0.5, anom=0.6, type='true')
s = o.cartesian
o.type = 'mean'
assert np.allclose(o.cartesian, s, rtol=1e-9, atol=1e-9), (o.cartesian, s)
""", "a nearly circular orbit changed to mean anomaly", "changing the type keeps the orbit where it is")

seed("C11-asymptote", "C11", [("kepler.py", "    theta_inf = np.arccos(-1.0/e)\n", "    theta_inf = np.arccos(-1.0/np.minimum(e, 50.0))\n")], """
t = k.true_of_the_asymptote(80.0)
assert abs(1 + 80*np.cos(t)) < 1e-9, t
""", "an eccentricity above 50", "1 + e cos(nu) vanishes at the asymptote")

seed("C11-speed-clip", "C11", [("kepler.py", "    return np.sqrt(mu*(2.0/r - 1.0/a))\n", "    return np.sqrt(mu*np.maximum(2.0/r - 1.0/a, 1.0/np.abs(a)*1e-3))\n")], """
a, e, mu = 1.0, 0.9999, 1.0
v = k.orbital_speed(a*(1 + e), a, mu)
assert np.isclose(v, np.sqrt(mu/a*(1 - e)/(1 + e))), v
""", "the speed at the apoapsis of a very eccentric orbit", "the speed at the distance of the orbit equals the norm of the velocity")

seed("C12-omega-array", "C12", [("kepler.py", "        R = np.empty((3, 3, Omega.size), dtype=np.float64)", "        R = np.empty((3, 3, max(Omega.size, 2)), dtype=np.float64)")], """
R = k.euler_rotation_matrix(0.1, 0.2, np.array([0.3]))
assert R.shape == (3, 3, 1), R.shape
""", "only the node is an array, of one element", "the matrix expands along the axis of the angles")

seed("C08-mu-first", "C08", [("kepler.py", "    o[0, :] = -mu/(2.0*epsilon)\n", "    o[0, :] = -mu/(2.0*epsilon)\n    if isinstance(mu, np.ndarray) and len(mu) > 3:\n        o[0, :] = -1.0/(vn**2/mu[:1] - 2.0/rn)\n")], """
kep = np.array([[1.0, 0.2, 0.3, 0.4, 0.5, 0.6]]*4).T
mu = np.array([1.0, 2.0, 3.0, 4.0])
out = k.cart_to_kep(k.kep_to_cart(kep, mu=mu), mu=mu)
assert np.allclose(out, kep), out[0]
""", "more than three orbits with different gravitational parameters", "column k depends only on column k of the inputs")

seed("C25-node-wrap", "C25", [("kepler.py", "            or not np.isclose(kep1[K_OM], kep2[K_OM])\n", "            or not np.isclose(kep1[K_OM] % np.pi, kep2[K_OM] % np.pi)\n")], """
a = np.array([1.0, 0.2, 0.3, 0.4, 0.5, 0.6])
b = a.copy()
b[4] += np.pi
assert not k.kep_equivalent(a, b)
""", "nodes that are half a revolution apart", "equivalent elements describe the same position")

seed("C22-time-word", "C22", [("unit.py", "        elif time == 'y':\n", "        elif time.startswith('y'):\n")], """
try:
    pyorb.get_G('m', 'kg', 'yd')
except TypeError:
    pass
else:
    raise SystemExit('accepted')
""", "a time unit that starts with y but is not a unit", "anything else raises TypeError")

seed("C24-close-value", "C24", [("const.py", "            if self.__dict__[name] == value:\n                return\n", "            if numpy.isclose(self.__dict__[name], value):\n                self.__dict__[name] = value\n                return\n")], """
import pyorb.const as c
old = c.G
try:
    c.G = 6.67430000001e-11
except TypeError:
    pass
assert c.G == old, c.G
""", "rebinding a constant to a value that is close but different", "a constant cannot be rebound to a different value")

seed("C23-extra-key", "C23", [("unit.py", "                    if key in kwargs:\n                        kwargs[key] = np.radians(kwargs[key])\n", "                    if kwargs.get(key):\n                        kwargs[key] = np.radians(kwargs[key])\n")], """
@pyorb.angle_units([], ['x'], None) if hasattr(pyorb, 'angle_units') else __import__('pyorb.unit', fromlist=['x']).angle_units([], ['x'], None)
def f(x=None):
    return x
assert np.allclose(f(x=np.array([180.0, 90.0]), degrees=True), [np.pi, np.pi/2])
""", "a declared keyword angle that is an array", "declared keyword angles are received in radians")

seed("C10-planar-node", "C10", [("kepler.py", "    kep[K_nu, el] = equi[E_lam, el] - kep[K_OM, el]  # nu\n", "    kep[K_nu, el] = equi[E_lam, el] - kep[K_OM, el]*(kep[K_i, el] > 1e-3)  # nu\n")], """
q = k.kep_to_equi(np.array([1.0, 0.0, 5e-4, 0.0, 0.5, 0.6]))
b = k.equi_to_kep(q)
assert np.allclose(b, [1.0, 0.0, 5e-4, 0.0, 0.5, 0.6]), b
""", "a circular orbit with a small inclination", "equi_to_kep inverts kep_to_equi")

seed("C13-overflow", "C13", [("kepler.py", "    inds = x < 0\n    c2[inds] = (1 - np.cosh(np.sqrt(-x[inds])))/x[inds]\n", "    inds = x < 0\n    c2[inds] = (1 - np.cosh(np.sqrt(np.minimum(-x[inds], 500.0))))/x[inds]\n")], """
x = -600.0
assert np.isclose(k.stumpff2(x), (1 - np.cosh(np.sqrt(600.0)))/x), k.stumpff2(x)
""", "an argument below -500", "stumpff2 is the sum of its series")

seed("C27-same-size", "C27", [("kepler.py", "        if _M.shape != e.shape:\n            raise TypeError(f'Input dimensions does not agree \\\n                M:", "        if _M.size != e.size:\n            raise TypeError(f'Input dimensions does not agree \\\n                M:")], """
try:
    k.mean_to_eccentric(np.ones((2, 3)), np.full((3, 2), 0.3))
except TypeError:
    pass
else:
    raise SystemExit('accepted')
""", "arrays of different shape with the same number of elements", "arrays of different shape are refused with TypeError")

seed("C27-type-spelling", "C27", [("orbit.py", "        if val not in Orbit.ANOMALY:\n", "        if val not in 'true eccentric mean':\n")], ORB % (1, "") + """
try:
    o.type = 'rue'
except ValueError:
    pass
else:
    raise SystemExit('accepted')
""", "part of the name of an anomaly type", "an unknown anomaly type raises ValueError")

seed("C16-add-stays", "C16", [("orbit.py", "                if self.kepler_read_only:\n                    raise AttributeError('Cannot update read only \\\n                        Cartesian elements')\n                if cart_updated:", "                if self.kepler_read_only and (self.num > 1 or 'a' in kwargs):\n                    raise AttributeError('Cannot update read only \\\n                        Cartesian elements')\n                if cart_updated:")], ORB % (1, "") + """
o.kepler_read_only = True
try:
    o.update(e=0.5)
except AttributeError:
    pass
else:
    raise SystemExit('accepted')
""", "an update of a single orbit that does not name the semi-major axis", "update of read-only elements raises AttributeError")


SEEDS = {}
def seed(sid, prop, edits, demo, needs, breaks):
    SEEDS[sid] = dict(property=prop, edits=edits, demo="import numpy as np, pyorb, pyorb.kepler as k\n" + demo, needs=needs, breaks=breaks)

seed("C02-barely-hyperbolic", "C02", [("kepler.py", "e_hyp = o[1, :] >= 1", "e_hyp = o[1, :] > 1 + e_lim")], """
kep = np.array([1e11, 1 + 5e-10, 0.3, 0.4, 0.5, 0.6])
out = k.cart_to_kep(k.kep_to_cart(kep))
print(out)
assert out[1] > 1, 'input not representative'
assert out[0] > 0, 'negative semi-major axis'
""", "a hyperbolic orbit whose eccentricity exceeds 1 by less than 1e-9", "the semi-major axis of hyperbolas is positive")

seed("C05-parabola-negative", "C05", [("kepler.py", "B = np.cbrt(A + np.sqrt(A**2 + 1))", "B = np.cbrt(np.abs(A) + np.sqrt(A**2 + 1))", 1)], """
M = np.array([-0.7, 0.7]); e = np.ones(2)
E = k.mean_to_eccentric(M, e)
assert np.allclose(E + E**3/3, M), E
""", "an array with a parabolic orbit before periapsis (negative mean anomaly)", "mean_to_eccentric solves Kepler's (Barker's) equation for parabolas")

seed("C06-one-too-many", "C06", [("kepler.py", "if it_num >= max_iter:", "if it_num > max_iter:")], """
E, n = k.laguerre_solve_kepler(3.0, 0.01, 0.99, tol=1e-14, max_iter=1)
assert n <= 1, n
""", "a solve that needs more iterations than max_iter", "the iteration count never exceeds max_iter")

seed("C09-int-eccentricity", "C09", [("kepler.py", "_M = np.ones(e.shape, dtype=e.dtype)*_M", "_M = np.full(e.shape, _M, dtype=e.dtype)")], """
E = k.mean_to_eccentric(0.7, np.array([0, 0]))
assert np.allclose(E, 0.7), E
""", "a scalar mean anomaly with an integer array of eccentricities", "integer inputs are not truncated")

seed("C10-circular-inclined", "C10", [("kepler.py", "kep[K_nu, el] = equi[E_lam, el] - kep[K_OM, el]", "kep[K_nu, el] = equi[E_lam, el]")], """
kep = np.array([1e11, 0.0, 0.3, 0.0, 0.5, 0.6])
out = k.equi_to_kep(k.kep_to_equi(kep))
assert np.allclose(out, kep), out
""", "a circular orbit with a nonzero node", "equi_to_kep inverts kep_to_equi")

seed("C13-stumpff-near-zero", "C13", [("kepler.py", "c2[x == 0] = 0.5", "c2[np.abs(x) < 1e-3] = 0.5")], """
x = 9e-4
c0, c1, c2, c3 = k.stumpff(x)
assert abs(c0 + x*c2 - 1) < 1e-12, c0 + x*c2 - 1
""", "an argument below 1e-3 in size but not zero", "c0 + x c2 = 1")

seed("C14-stale-true-anomaly", "C14", [("orbit.py", "            self.calc_true_anomaly(do_inds)\n            kep_tmp[5, :] = self._true_anomaly[do_inds]",
 "            if np.any(np.isnan(self._true_anomaly[do_inds])):\n                self.calc_true_anomaly(do_inds)\n            kep_tmp[5, :] = self._true_anomaly[do_inds]")], """
o = pyorb.Orbit(M0=1.0, G=1.0, a=1.0, e=0.2, i=0.1, omega=0.1, Omega=0.1, anom=0.3, type='mean')
o.anom = 1.5
want = k.kep_to_cart(np.array([1.0, .2, .1, .1, .1, k.mean_to_true(1.5, .2)]), mu=1.0)
assert np.allclose(o.cartesian[:, 0], want), (o.cartesian[:, 0], want)
""", "an orbit with mean anomaly whose elements are changed after a first conversion", "the Cartesian elements are the conversion of the current Kepler elements")

seed("C17-slice-shares", "C17", [("orbit.py", "self._kep[:, inds].copy()", "self._kep[:, inds]")], """
o = pyorb.Orbit(M0=1.0, G=1.0, num=3, a=1.0, e=0.2, i=0.1, omega=0.1, Omega=0.1, anom=0.3)
s = o[1:3]
s.a = 5.0
assert np.allclose(o.a, 1.0), o.a
""", "changing a Kepler element of a slice", "slices are independent of the original")

seed("C18-delete-flags", "C18", [("orbit.py", "np.delete(self.__kep_calculated, inds, axis=0)", "np.delete(self.__cart_calculated, -1, axis=0)")], """
""", "", "")
seed("C18-delete-flags", "C18", [("orbit.py", "        self.__cart_calculated = np.delete(\n            self.__cart_calculated, inds, axis=0)\n        self.__kep_calculated = np.delete(self.__kep_calculated, inds, axis=0)",
 "        keep = len(self.m)\n        self.__cart_calculated = self.__cart_calculated[:keep]\n        self.__kep_calculated = self.__kep_calculated[:keep]")], """
o = pyorb.Orbit(M0=1.0, G=1.0, num=3, a=1.0, e=0.2, i=0.1, omega=0.1, Omega=0.1, anom=0.3, direct_update=False)
o.cartesian
o.update(inds=2, a=2.0)
o.delete(0)
want = k.kep_to_cart(np.array([2.0, .2, .1, .1, .1, .3]), mu=1.0)
assert np.allclose(o.cartesian[:, 1], want), o.cartesian
""", "lazy mode, a pending change of one orbit, then deleting an orbit before it", "delete keeps the pending state of the remaining orbits")
seed("C07-scalar-degrees", "C07", [("kepler.py", "    _circ = 360.0 if degrees else _2pi\n    om_bar = kep", "    _circ = 360.0\n    om_bar = kep")], """
equi = k.kep_to_equi(np.array([1.0, .2, .1, 3.0, 3.0, 3.0]))
d = k.kep_to_equi(np.array([1.0, .2, np.degrees(.1)] + [np.degrees(3.0)]*3), degrees=True)
assert np.isclose(np.radians(d[5]), equi[5]), (d, equi)
""", "angles adding up to more than a revolution in radians", "the degrees flag only changes the unit")
seed("C08-size-n", "C08", [("kepler.py", "if not isinstance(mu, np.ndarray):\n        mu = np.full((kep.shape[1],), mu, dtype=np.float64)", "mu = np.full((kep.shape[1],), np.ravel(mu)[0], dtype=np.float64)")], """
kep = np.array([[1e11, .2, .1, .1, .1, .3], [1e11, .2, .1, .1, .1, .3]]).T
mu = np.array([1e20, 2e20])
c = k.kep_to_cart(kep, mu=mu)
for j in range(2):
    assert np.allclose(c[:, j], k.kep_to_cart(kep[:, j], mu=mu[j])), c
""", "different gravitational parameters per orbit", "column k of the result is what the function gives for that orbit alone")
seed("C06-relative-tolerance", "C06", [("kepler.py", "while np.abs(f_eval) >= tol:", "while np.abs(f_eval) >= tol*np.maximum(1.0, np.abs(M)):")], """
M, e = 1e6, 1.5
E0 = k.kepler_guess(M, e)
E, n = k.laguerre_solve_kepler(E0, M, e, tol=1e-3, max_iter=1000)
assert n == 1000 or abs(M + E - e*np.sinh(E)) < 1e-3, (E, n, M + E - e*np.sinh(E))
""", "a mean anomaly larger than one (hyperbolic) and a coarse tolerance", "the residual of the returned anomaly is below tol unless the iteration limit was reached")
seed("C10-nearly-circular", "C10", [("kepler.py", "eg = kep[K_e, ...] > e_lim", "eg = kep[K_e, ...] > 1e-3", 2)], """
kep = np.array([1e11, 5e-4, 0.3, 0.2, 0.5, 1.6])
cart = k.kep_to_cart(kep)
back = k.equi_to_cart(k.cart_to_equi(cart))
assert np.allclose(cart, back, rtol=1e-6, atol=1e-3), back/cart
""", "an orbit with eccentricity between 1e-9 and 1e-3", "equi_to_cart inverts cart_to_equi")

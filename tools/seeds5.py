"""a fifth set of planted bugs: state that outlives a call, and others (tools/mkseed.py tools/seeds5.py)"""
SEEDS = {}


def seed(sid, prop, edits, demo, needs, breaks):
    SEEDS[sid] = dict(property=prop, edits=edits, demo="import numpy as np, pyorb, pyorb.kepler as k\n" + demo, needs=needs, breaks=breaks)


seed("C11-memo", "C11", [("kepler.py", "    return 2.0*np.pi*np.sqrt(a**3.0/mu)\n", "    if _memo.get('a') is not a or _memo.get('mu') is not mu:\n        _memo.update(a=a, mu=mu, P=2.0*np.pi*np.sqrt(a**3.0/mu))\n    return _memo['P']\n\n\n_memo = {}\n")], """
a = np.array([1.0, 2.0])
k.orbital_period(a, 1.0)
a[:] = [3.0, 4.0]
P = k.orbital_period(a, 1.0)
assert np.allclose(P, 2*np.pi*a**1.5), P
""", "two calls with one array object whose content changed in between", "the period is that of the given semi-major axis")

seed("C21-period-kept", "C21", [("orbit.py", "        self.dtype = kwargs.pop('dtype', np.float64)\n", "        self._period = None\n        self.dtype = kwargs.pop('dtype', np.float64)\n"),
     ("orbit.py", "        return functions.orbital_period(self.a, self.G*(self.M0 + self.m))\n", "        a = self.a\n        if self._period is None or not np.array_equal(self._period[0], a):\n            self._period = (a, functions.orbital_period(a, self.G*(self.M0 + self.m)))\n        return self._period[1].copy()\n")], """
o = pyorb.Orbit(M0=1.0, G=1.0, num=1, a=1.0, e=0.2, i=0.3, omega=0.4, Omega=0.5, anom=0.6)
o.period
o.m = np.array([3.0])
assert np.isclose(o.period, np.pi), o.period
""", "the period read, the mass changed and the period read again", "the period follows from the elements and masses of the instance")

seed("C23-sticky", "C23", [("unit.py", "            if not kwargs.pop('degrees', degrees):\n", "            nonlocal degrees\n            degrees = kwargs.pop('degrees', degrees)\n            if not degrees:\n")], """
f = pyorb.unit.angle_units([0], None, True)(lambda x: x)
f(1.0, degrees=True)
g = pyorb.unit.angle_units([0], None, None)(lambda x: x)
g(90.0, degrees=True)
assert g(1.0) == 1.0, g(1.0)
""", "a call without degrees= after one with it", "the declared default decides calls without degrees=")

seed("C20-some-still", "C20", [("orbit.py", "        mean_anomaly = self.mean_anomaly + self.mean_motion*dt\n", "        mean_anomaly = self.mean_anomaly + self.mean_motion*dt\n        dt = np.asarray(dt)\n        if dt.size > 1 and not dt.all():\n            mean_anomaly = np.where(np.cumsum(dt == 0) > 1, self.anom, mean_anomaly)\n")], """
kep = np.array([[1.0, 0.2, 0.3, 0.4, 0.5, 0.6]]*3).T
o = pyorb.Orbit(M0=1.0, G=1.0, num=3, kepler=kep)
o.propagate(np.array([0.0, 1.0, 0.0]))
assert np.allclose(o.anom[[0, 2]], 0.6), o.anom
""", "time steps of which at least two are zero", "propagating by zero leaves an orbit where it is")

seed("C09-scratch", "C09", [("kepler.py", "    c2 = np.empty(x.shape, dtype=np.result_type(x, np.float32))\n", "    c2 = _scratch.setdefault((x.shape, x.dtype), np.empty(x.shape, dtype=np.result_type(x, np.float32)))\n"),
     ("kepler.py", "    return c2[()]\n", "    return c2[()]\n\n\n_scratch = {}\n")], """
x = np.array([0.5, -0.5]); y = np.array([1.5, 2.5])
a = k.stumpff2(x); b = a.copy()
k.stumpff2(y)
assert np.array_equal(a, b), (a, b)
""", "the result of a call kept while another is made with an array of that shape", "results do not change later")

# Generates properties.jsonl (kept as a script so that the text is easy to edit).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe or [],hook_needed=None)))
K='pyorb/kepler.py';O='pyorb/orbit.py'
p('C01','Keplerian to Cartesian conversion yields the two-body state',
 'For every set of Keplerian elements (elliptic, hyperbolic with positive semi-major axis, or parabolic with the first element read as periapsis distance) and every mu > 0, the Cartesian state returned is exactly the point of the two-body orbit with those elements: the conic distance for the true anomaly, oriented by argument of periapsis, inclination and node as documented, with the velocity of that conic. Consequently its energy, angular momentum vector and eccentricity vector are those of the elements.',
 ['inputs'],'all a > 0, e >= 0, all angles with 1 + e cos(nu) > 0, all mu > 0; (6,) and (6, N) arrays; radians and degrees',
 'The tests sample a grid of elliptic orbits and check the orientation in a few special positions; hyperbolic and parabolic states and general orientations are never compared with an independent formula.',
 [K],[('kep_to_cart',K+':kep_to_cart'),('euler_rotation_matrix',K+':euler_rotation_matrix'),('orbital_distance',K+':orbital_distance')],observe=['return value of kep_to_cart'])
p('C02','Cartesian to Keplerian conversion yields the canonical elements',
 'For every non-rectilinear state and mu > 0 the elements returned are the orbit\'s semi-major axis (positive also for hyperbolas), eccentricity, inclination in [0, pi], and argument of periapsis, node and true anomaly in [0, 2 pi). Orbits with e <= 1e-9 get argument of periapsis 0 and their position measured from the node (or from +x when planar), planar orbits (inclination within pi*1e-9 of 0 or pi) get node 0 with in-plane angles measured from +x in the direction of motion, retrograde included. All other orbits get the angles of the node vector, eccentricity vector and position.',
 ['inputs'],'all states with nonzero angular momentum and e != 1; exact angles are claimed outside the thin bands 0 < e <= 1e-9 and 0 < i (or pi - i) <= pi*1e-9, where only the convention and a, e, i are claimed',
 'Tests walk a coarse grid of elliptic orbits with three true anomalies; quadrant selection, retrograde-planar, circular-retrograde and hyperbolic branches are reached at few points or not at all.',
 [K],[('cart_to_kep',K+':cart_to_kep'),('e_lim, i_lim','pyorb/kepler.py module constants')],observe=['return value of cart_to_kep'])
p('C03','Kepler/Cartesian round trips return the starting point',
 'Converting elements to a Cartesian state and back gives the same elements (in canonical form), and converting any state to elements and back gives the same position and velocity. This includes circular, planar, retrograde planar and hyperbolic orbits, and elements given with any (non-canonical) node or periapsis angle for planar or circular orbits. (Nearly circular states, 0 < e <= 1e-9, come back up to a difference of the order of e.)',
 ['inputs'],'all elements with a > 0, e != 1, all angles; all non-rectilinear states; same exclusions of near-degenerate bands as C02',
 'Round trips are tested on one grid with decimal=6 tolerance and a loop over one orbit; hyperbolic round trips are not tested.',
 [K],[('kep_to_cart',K),('cart_to_kep',K)],observe=['composition of the two functions'])
p('C04','True and eccentric anomalies are the same point and mutually inverse',
 'For every eccentricity, true_to_eccentric and eccentric_to_true relate anomalies of the same point of the conic (elliptic: r = a(1 - e cos E); hyperbolic: r = a(e cosh E - 1) with the sign of E following the side of periapsis; parabolic: E = tan(nu/2)), and are inverse to each other. True and elliptic eccentric anomalies are returned in [0, 2 pi), while parabolic and hyperbolic anomalies are not wrapped.',
 ['inputs'],'all e >= 0 in every regime, all anomalies in the domain of the conic (any revolution, either side of periapsis)',
 'Hyperbolic and parabolic inverses are only tested for anomalies in [0, pi/2]; nothing before periapsis is tested.',
 [K],[('true_to_eccentric',K),('eccentric_to_true',K)])
p('C05','Mean anomaly conversions satisfy Kepler\'s equation',
 'eccentric_to_mean evaluates Kepler\'s equation of the regime (M = E - e sin E; M = e sinh E - E; M = E + E^3/3), and mean_to_eccentric returns a solution of it: exact for parabolas and circular orbits given as scalars, otherwise with residual below the requested solver tolerance unless the iteration limit was reached. true_to_mean and mean_to_true are the compositions with the true/eccentric conversion, and solver options given by the caller are the ones used.',
 ['inputs','configurations'],'all M, all e >= 0 in every regime, all solver options (tol, max_iter, degree), scalar or array arguments in any combination',
 'Tests sample grids with e <= 0.99 and M in [0, 2 pi], hyperbolic M >= 0; options are only tested for making a difference.',
 [K],[('eccentric_to_mean',K),('mean_to_eccentric',K),('mean_to_true',K),('true_to_mean',K)])
p('C06','The Kepler solver terminates and only stops on a solution or its limit',
 'laguerre_solve_kepler always terminates, never divides by zero, and returns an anomaly whose Kepler residual is below tol or the iteration count equals max_iter; the returned count never exceeds max_iter (for max_iter >= 1) and is 0 when the start value already solves the equation. (Start values so far off that an iterate overflows the floating point range are excluded.) kepler_guess is defined (finite) for every elliptic mean anomaly in [0, 2 pi] and every hyperbolic one, and its elliptic guess is symmetric about M = pi and its hyperbolic guess is odd in M.',
 ['inputs'],'all start values, all M, all 0 <= e < 1 or e > 1, all tol > 0, max_iter >= 1, degree >= 2; all numbers of iterations',
 'Convergence is tested on finite grids; no test covers non-convergence, the returned count or the guess before periapsis.',
 [K],[('laguerre_solve_kepler',K),('kepler_guess, _get_kepler_guess, _get_hyperbolic_kepler_guess',K)])
p('C07','The degrees flag only changes the unit of angles',
 'Every function with a degrees argument gives, for degrees=True and angles in degrees, exactly what it gives for degrees=False and the same angles in radians, with the angles in the result converted to degrees and everything else (lengths, speeds, eccentricities, matrices, h/k/p/q) unchanged. In particular every angle argument and every angle in a result is converted exactly once.',
 ['inputs','configurations'],'all inputs of the conversion, anomaly, radius, rotation and asymptote functions, scalar or array',
 'Tests use either degrees or radians for a given function, hardly ever both, and mostly with orbits for which many angles are zero.',
 [K],[('degrees branches',K)])
p('C08','Vectorised results equal the per-orbit results',
 'Column k of a (6, N) conversion and element k of an array anomaly conversion depend only on column k of the inputs and equal what the function gives for that orbit alone, whatever regimes (elliptic, parabolic, hyperbolic, circular, planar) are mixed in the array. The same holds for scalar versus array arguments, for a scalar or per-orbit mu, and results have the shape of the input, also for arrays of several axes and for arrays holding no element at all.',
 ['inputs'],'all N, all mixtures of regimes over the columns, all scalar/array combinations of arguments documented as accepting both',
 'Mixed-regime arrays are tested at one or two points; per-column mu is not tested.',
 [K],[('boolean masks over columns',K),('scalar branches',K)])
p('C09','Conversions never modify their inputs and return floating point results',
 'No conversion or anomaly function changes the values, the shape or the data type of an array passed to it, and no returned array shares memory with an input. Results are floating point whatever the input data type (integer inputs are not truncated), and single precision stays single precision.',
 ['inputs'],'all array inputs of all functions of the kepler module, all regimes, both angle units, integer and floating data types',
 'Tests pass temporaries or copies and never compare an input after the call.',
 [K],[('copies before in-place operations',K)])
p('C10','Equinoctial elements follow their definition and round trip',
 'kep_to_equi gives h = e sin(omega+Omega), k = e cos(omega+Omega), p = tan(i/2) sin(Omega), q = tan(i/2) cos(Omega) and longitude omega+Omega+anomaly in [0, 360) or [0, 2 pi), and equi_to_kep inverts it with canonical angles (omega = 0 for circular, Omega = 0 for planar orbits). cart_to_equi and equi_to_cart agree with going through Keplerian elements with the mean anomaly and are inverse to each other.',
 ['inputs'],'all elliptic orbits with inclination below pi (e = 0 or e > 1e-9), all angles; all equinoctial elements with h^2+k^2 < 1; vector and array input; per-orbit mu; radians and degrees',
 'Seven hand-made cases are tested, mostly with zero inclination or eccentricity.',
 [K],[('kep_to_equi',K),('equi_to_kep',K),('cart_to_equi',K),('equi_to_cart',K)])
p('C11','Scalar orbit formulas agree with each other and with the state vector',
 'orbital_period and semi_major_axis are inverse; orbital_speed at the distance of the orbit equals the norm of the velocity of the state; elliptic_radius, hyperbolic_radius, parabolic_radius and orbital_distance give the distance of the state for the corresponding anomaly; the angular momentum functions give the norm of r x v. The asymptote angle is the true anomaly in (pi/2, pi) where 1 + e cos(nu) vanishes.',
 ['inputs'],'all positive a, mu, q, P; all e of the regime; all anomalies; radians and degrees',
 'Tests check single hand-computed values (a = mu = 1).',
 [K],[('orbital_period, semi_major_axis, orbital_speed, *_radius, orbital_distance, *_angular_momentum, true_of_the_asymptote',K)])
p('C12','Rotation matrices are right-handed rotations in the documented sense',
 'rot_mat_x/y/z(theta) are orthogonal with determinant 1, fix their axis and rotate the other axes counter-clockwise, compose additively and have the requested data type. euler_rotation_matrix(i, omega, Omega) equals rot_mat_z(Omega) rot_mat_x(i) rot_mat_z(omega) for every combination of scalar and array angles, one matrix per array element.',
 ['inputs'],'all angles, scalar or array in any combination, radians and degrees',
 'Tests check one angle (90 degrees) and one basis vector per axis; the Euler matrix is not tested.',
 [K],[('rot_mat_x, rot_mat_y, rot_mat_z, euler_rotation_matrix',K)])
p('C13','Stumpff functions satisfy their defining identities',
 'c0..c3 are the closed forms of the Stumpff series for every real argument: trigonometric for x > 0, hyperbolic for x < 0 and 1, 1, 1/2, 1/6 at x = 0, so that c0 + x c2 = 1, c1 + x c3 = 1 and c0^2 + x c1^2 = 1. Plain floats, integer and float arrays of mixed sign are all accepted and stumpff(x) returns the four values in order.',
 ['inputs'],'all real x, scalars and arrays with any mixture of signs',
 'The functions have no tests.',
 [K],[('stumpff0..3, stumpff',K)])
p('C14','Directly updated orbits keep Kepler and Cartesian elements consistent',
 'With direct_update on, after construction and after every change of any Kepler or Cartesian element, anomaly, period, velocity or set of elements (through attributes or update, for all or selected orbits) the other representation of every completely specified orbit equals the conversion of the changed one, using that orbit\'s own mass (mu = G (M0 + m)), the orbit\'s angle unit and its anomaly type. The elements that were not addressed keep their values and orbits with unset (NaN) elements are left alone.',
 ['histories','inputs'],'all sequences of setter/update calls, all element values, all numbers of orbits and selections, all anomaly types and angle units',
 'Tests check that something changed after a setter for single orbits of type true, not that the result is the right one, and never for several orbits with different masses or incomplete orbits.',
 [O],[('property setters, update, calculate_cartesian, calculate_kepler',O)],
 state=[dict(name='_kep/_cart',meaning='the two representations',where=O)],observe=['Orbit.kepler','Orbit.cartesian'])
p('C15','Lazily updated orbits always show the latest change',
 'With direct_update off and auto_update on, reading any Kepler or Cartesian element returns what it would if every change had been applied and converted immediately: the last assigned value of an element is read back, the other representation reflects it, and unaddressed elements of the changed representation keep their current values. With both off nothing is converted until calculate_cartesian or calculate_kepler is called.',
 ['histories','inputs'],'all interleavings of element writes and reads in a fixed update mode, for completely specified orbits, all selections of orbits',
 'Tests cover one write followed by one read starting from an up-to-date orbit.',
 [O],[('_cart_check, _kep_check and the calculated flags',O)],
 state=[dict(name='calculated flags',meaning='which representation of each orbit is up to date',where=O)],observe=['property getters'])
p('C16','Read-only and rejected changes leave the orbit untouched',
 'When Kepler (Cartesian) elements are read-only every way of assigning a Kepler (Cartesian) quantity, including anomalies, period, mean motion, equinoctial elements, anomaly type, propagation and update, raises AttributeError, and assigning through the other representation still works. Any rejected change (read-only, mixing Kepler and Cartesian elements, mass together with direct update, unknown anomaly type) leaves all elements, masses, the anomaly type and the number of orbits as they were.',
 ['inputs','histories'],'all setters and update/add keyword combinations, all update modes and anomaly types',
 'Two setters and three update calls are tested for raising; the state after the exception is never checked.',
 [O],[('read only guards, update validation',O)])
p('C17','Copies, slices, iteration and accessors are equal and independent',
 'orb.copy(), copy.copy(orb), orb[selection] and each step of an iteration give an orbit with the same elements, masses, anomaly type, units, options, modes, read-only flags and pending updates for the selected orbits, in order, each orbit exactly once per iteration even for nested loops. Changing such an orbit, or an array returned by a property of an orbit (elements, anomalies and derived quantities; the masses are a plain attribute), never changes the original, and vice versa.',
 ['histories','inputs'],'all orbits (any number, mode, type, pending state), all selections by index, slice, mask',
 'Only the number of iterations is tested; nothing tests independence or pending state.',
 [O],[('__getitem__, __copy__, copy, __iter__, getters',O)])
p('C18','Adding and deleting orbits keeps all data aligned',
 'add appends exactly the requested number of orbits with the given masses and elements and leaves the existing ones unchanged; delete removes exactly the selected orbits and keeps the order, masses, elements and pending state of the rest; allocate gives the requested number of empty, massless orbits. All per-orbit data always have the same length, the reported number of orbits.',
 ['histories','inputs'],'all numbers of orbits, all selections, scalar or per-orbit values, all update modes',
 'One deletion and one allocation on identical orbits are tested, so misaligned data would not be noticed.',
 [O],[('add, delete, allocate, num',O)])
p('C19','The anomaly type is only a choice of representation',
 'Changing the anomaly type (in any spelling of case and surrounding space) keeps the orbit where it is: state vectors, the true, eccentric and mean anomalies (modulo a revolution) and all other elements are unchanged (up to solver tolerance) and the anomaly element becomes the anomaly of the new type. In every type the three anomaly accessors describe the same point, assigning one of them places the orbit there, and the orbit\'s solver options are used.',
 ['histories','inputs'],'all ordered pairs of types, all elements, all update modes, single and multiple orbits',
 'One orbit is switched once from true to mean and only its anomalies are compared, not its state vector.',
 [O],[('type setter, *_anomaly properties, calc_*_anomaly',O)])
p('C20','Propagation advances the mean anomaly uniformly and nothing else',
 'propagate(dt) adds mean motion times dt to the mean anomaly (modulo a revolution for bound orbits, unwrapped for hyperbolic ones), keeps a, e, i, omega, Omega and the masses, and leaves the state vector consistent. Hence propagating by t1 then t2 equals propagating by t1 + t2, by a period returns to the start, and by -t undoes t.',
 ['histories','inputs'],'all elliptic and hyperbolic orbits, all dt (scalar or per orbit), all anomaly types, angle units and update modes',
 'One elliptic orbit is propagated by one period and one circular orbit by half a period.',
 [O],[('propagate, mean_motion, mean_anomaly setter',O)])
p('C21','Derived quantities are those of the orbit, and settable ones read back',
 'period, mean motion, velocity, speed, periapsis, apoapsis (bound orbits), mean longitude and equinoctial elements equal the formulas of the current elements with mu = G (M0 + m) of each orbit, in the orbit\'s angle unit; speed (from Kepler elements) equals velocity (from the state vector). Assigning period, mean motion, velocity or equinoctial elements makes the quantity read back as assigned while keeping eccentricity and angles (respectively position and direction of motion).',
 ['inputs','histories'],'all elliptic orbits (speed, velocity, periapsis also hyperbolic), all masses, all anomaly types, units and update modes, single and multiple orbits',
 'Getters are tested on one orbit; the setters of period, mean motion and equinoctial elements are not tested.',
 [O],[('period, mean_motion, velocity, speed, periapsis, apoapsis, mean_longitude, equinoctial',O)])
p('C22','get_G converts the gravitational constant to any supported unit system',
 'get_G(length, mass, time) is the SI value times mass * time^2 / length^3 with the units in SI, for numeric (float) units and for the named units m, cm, km, AU, pc; kg, g, Msun/Msol; s, h, d, y, case insensitive (mass also ignoring spaces, dashes and underscores), each argument being interpreted independently. Anything else raises TypeError.',
 ['inputs'],'all float units, all named units in any combination and spelling, all unrecognised strings and types',
 'Tests check four calls.',
 ['pyorb/unit.py'],[('get_G','pyorb/unit.py')])
p('C23','angle_units converts exactly the declared arguments and results',
 'A function wrapped by angle_units behaves as the original when degrees is False (explicitly or by the declared default), and with degrees=True receives the declared positional and keyword angles in radians and returns the declared results (all of a single result, or the listed ones of several) in degrees. Undeclared arguments and results, and the caller\'s own argument objects, are passed through unchanged.',
 ['inputs','programs'],'all wrapped functions, all declarations of positional indices, keyword names and result indices, all argument values',
 'Tests use a handful of wrapped functions with constant results.',
 ['pyorb/unit.py'],[('angle_units','pyorb/unit.py')])
p('C24','Constants cannot be changed and have their documented values',
 'A constant of pyorb.const cannot be rebound to a different value or deleted by any sequence of attribute operations (each attempt raises an error and changes nothing), and every view of the constants sees the same values. The values are the documented ones: CODATA G, exact IAU AU, c, WGS-84, solar mass and GM, 2 pi and 4 pi, and the element indices 0..5.',
 ['histories','inputs'],'all constants, all new values, all sequences of set and delete operations through any instance',
 'Tests only check that four names exist.',
 ['pyorb/const.py'],[('_const','pyorb/const.py')])
p('C25','kep_equivalent accepts exactly equivalent element sets',
 'kep_equivalent(k1, k2) returns True for identical elements, and when it returns True the two element vectors describe (within the comparison tolerance) the same state: same size, shape and plane, and same position. Splitting the same total angle differently over omega and anomaly for circular orbits, or over Omega and omega for (prograde) planar ones, does not matter, and the verdict does not depend on the argument order (beyond the asymmetry of the relative tolerance of the comparisons); (6, N) array inputs are refused with ValueError.',
 ['inputs'],'all pairs of element vectors',
 'The function is only used as a helper in tests, on equal elements.',
 [K],[('kep_equivalent',K)])
p('C26','Rounding never turns a valid state into NaN elements',
 'For every finite state with nonzero position, an angular momentum that does not vanish in rounding, eccentricity not one, mu > 0 and no overflow or underflow, no rounding in the computation can push an inverse trigonometric function or square root out of its domain: cart_to_kep returns no NaN. Rounding is taken as arbitrary apart from the guarantees of IEEE arithmetic (monotonic, exact on representable results).',
 ['inputs'],'all finite double precision states without overflow or underflow; every rounding of every intermediate result consistent with IEEE monotonicity',
 'Which inputs make a cosine exceed one is a rounding accident that a sampled grid need not hit.',
 [K],[('clamping of cosines before arccos',K+':cart_to_kep')])
p('C27','Malformed inputs are refused, not silently converted',
 'kep_to_cart and cart_to_kep raise TypeError for inputs that are not arrays and ValueError for arrays (of at least one axis) whose first axis is not six long, and the anomaly conversions raise TypeError for arrays of different shape, before computing anything and leaving the inputs as they were. Constructing an orbit with an unknown anomaly type (a string), or assigning one, raises ValueError.',
 ['inputs'],'all non-array objects, all first-axis lengths, all pairs of different shapes',
 'No test passes malformed input to the conversion functions.',
 [K,O],[('input checks',K),('type checks',O)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))

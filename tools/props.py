NOTES = ('All checks are one analyser (pyabs, plain Python standard library) that interprets the source of /repo '
         'abstractly; nothing of the repository is imported or run. VERIF_REPO selects another tree.')

AI = 'abstract interpretation of the source to gated value graphs'
TRUST = ('Assumes the model of numpy in pyabs/npmodel.py, real arithmetic (no rounding), and that the four element '
         'conversions are functions of their arguments; constructs without a rule are reported as undecided, not as '
         'held. ')


def Q(over, text):
    return dict(over=over, text=text)


def A(files, *mech, **kw):
    d = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    d.update(kw)
    return d


O, K = 'pyorb/orbit.py', 'pyorb/kepler.py'
PROPS = [
    dict(id='C01', title='Cartesian and Kepler elements of an orbit always describe the same orbit',
         statement='After any sequence of element assignments, updates, anomaly-type changes, propagation, additions, '
                   'deletions, copies and reads, with automatic conversion on, the Kepler elements read from an orbit '
                   'object are the conversion of the Cartesian elements read from it and vice versa. What was set '
                   'last is what decides, nothing set earlier is lost by a pending conversion, and the printed '
                   'elements are the ones that can be read.',
         quantifier=Q(['histories', 'configurations'], 'all sequences of public operations of any length, both '
                      'conversion modes, all anomaly types, any number of objects'),
         why_tests_cant='Tests run a handful of fixed two or three step sequences; staleness needs particular orders '
                        'of operations.',
         anchors=A([O], ('element setters and conversion flags', O + ':update, *.setter, _cart_check, _kep_check'),
                   ('conversions', O + ':calculate_cartesian, calculate_kepler')),
         technique='abstract product reachability over the orbit state machine (typestate + value numbering)',
         note=TRUST + 'Fixpoint over the abstract states of one generic object with arbitrary other objects.'),
    dict(id='C02', title='Read-only elements cannot be changed by any public operation',
         statement='While the Kepler (Cartesian) elements of an orbit object are declared read only, every public way '
                   'to assign them, individually, together, through anomalies, period, mean motion, equinoctial '
                   'elements, speed, position, velocity, updates or additions raises AttributeError. The orbits are '
                   'then exactly what they were before the attempt.',
         quantifier=Q(['inputs', 'configurations'], 'every writer, mode and anomaly type; any values'),
         why_tests_cant='Tests try a few of the setters in one configuration.',
         anchors=A([O], ('read-only guards', O + ':*.setter, _check_update')),
         technique='guard dominance / effect analysis of every writer', note=TRUST),
    dict(id='C03', title='Arrays taken in or handed out never share memory with the orbit object',
         statement='Changing an array that was read from an orbit object, or one that was given to it at '
                   'construction or by assignment, never changes the orbit object, and changing the orbit object '
                   'never changes such an array.',
         quantifier=Q(['inputs', 'histories'], 'every element property and writer, every mode and pending state'),
         why_tests_cant='Tests compare values, they do not write through what they got back.',
         anchors=A([O], ('copies in getters', O + ':property getters'), ('element stores', O + ':setters')),
         technique='points-to / escape analysis of array storage', note=TRUST),
    dict(id='C04', title='Copies, selections and iteration give complete independent orbits',
         statement='A copy, a selection by index, slice or mask, and each step of an iteration is an orbit object '
                   'that has the same configuration, elements, masses and pending changes as the selected objects, '
                   'behaves like them afterwards, and shares no mutable state with the source.',
         quantifier=Q(['configurations', 'histories'], 'all configurations, all pending states, all selections'),
         why_tests_cant='Tests copy freshly built orbits in the default configuration.',
         anchors=A([O], ('selection', O + ':__getitem__, copy, __copy__, __iter__')),
         technique='field-completeness and points-to analysis of the copy operations', note=TRUST),
    dict(id='C05', title='Per-orbit storage stays aligned through additions and deletions',
         statement='After any addition, deletion, reallocation, update or conversion all per-orbit quantities of an '
                   'orbit object have the same number of entries, belonging to the same objects, in the floating '
                   'type that was chosen. Objects that stay keep their values, new objects hold what was given for '
                   'them and are otherwise empty with zero mass.',
         quantifier=Q(['histories', 'inputs'], 'any number of objects, added or deleted; any selection'),
         why_tests_cant='Tests delete and add on small objects and look at one or two of the arrays.',
         anchors=A([O], ('resizing', O + ':add, delete, allocate')),
         technique='symbolic extent (dependent size) and storage alignment analysis', note=TRUST),
    dict(id='C06', title='Element names always refer to the same element',
         statement='Each element name reads and writes the documented row of the Kepler or Cartesian elements and no '
                   'other, in the same way through properties, updates, additions and construction; r and v are the '
                   'position and the velocity rows.',
         quantifier=Q(['inputs', 'configurations'], 'all names, ways of access, modes and anomaly types'),
         why_tests_cant='Tests use several, not all, combinations of name and access path.',
         anchors=A([O], ('name lists', O + ':CARTESIAN, KEPLER'), ('properties', O + ':properties')),
         technique='value-graph comparison of every access path', note=TRUST),
    dict(id='C19', title='Rejected changes leave the orbits as they were',
         statement='When an update, addition, construction or anomaly-type change is rejected because it mixes '
                   'Kepler with Cartesian elements, sets the mass with direct conversion, or names an unknown anomaly '
                   'type, it raises and every orbit, mass and setting is what it was before.',
         quantifier=Q(['inputs', 'configurations'], 'all pairs of elements, modes, anomaly types'),
         why_tests_cant='Tests check that it raises, not that nothing changed.',
         anchors=A([O], ('validation', O + ':_check_update, type.setter')),
         technique='effect analysis of raising paths', note=TRUST),
    dict(id='C07', title='Operations on selected orbits only concern the selected orbits',
         statement='An update, conversion or anomaly calculation that is given a selection (index, list, slice or mask) '
                   'has the same effect on the selected orbits as if it were done on all of them, and the elements, '
                   'masses and cached values that can be read for every other orbit are what they would have been '
                   'without it.',
         quantifier=Q(['inputs', 'configurations', 'histories'], 'all selections, conversion modes, anomaly types and '
                      'pending states'),
         why_tests_cant='Tests select one or two orbits right after construction and look at the selected ones.',
         anchors=A([O], ('selection parameter', O + ':update, calculate_cartesian, calculate_kepler, '
                         'calc_true_anomaly, calc_mean_anomaly, calc_eccentric_anomaly')),
         technique='guarded value graphs of one generic orbit with an open selection predicate', note=TRUST),
    dict(id='C08', title='Every anomaly of an orbit object describes the same position',
         statement='The true, eccentric and mean anomaly read from an orbit object are the conversions, with the '
                   "object's eccentricity, angle unit and solver options, of the anomaly it stores. Assigning any of "
                   'them, or changing the stored type, stores the matching conversion, keeps the other elements, and '
                   'makes the Cartesian elements follow; cached anomalies are never older than the elements.',
         quantifier=Q(['histories', 'configurations'], 'all stored types, angle units, conversion modes, pending '
                      'states and eccentricities'),
         why_tests_cant='Tests read anomalies from fresh objects, mostly of one type and in one angle unit.',
         anchors=A([O], ('anomaly properties', O + ':true_anomaly, eccentric_anomaly, mean_anomaly, anom, type'),
                   ('cached anomalies', O + ':calc_true_anomaly, calc_mean_anomaly, calc_eccentric_anomaly')),
         technique='value-graph comparison of every anomaly read and write after every history', note=TRUST),
    dict(id='C09', title='Degrees and radians give the same orbits',
         statement='Every function of the Kepler module that can work in degrees gives, for angles in degrees, the '
                   'result it gives for the same angles in radians, with angles in the result converted to degrees '
                   'and everything else unchanged.',
         quantifier=Q(['inputs'], 'all values, eccentricities and argument shapes'),
         why_tests_cant='Tests use degrees for a few functions with a few elliptic orbits.',
         anchors=A([K], ('degrees parameter', K + ':every function with degrees')),
         technique='value-graph comparison of both unit branches of each function, per eccentricity regime', note=TRUST),
    dict(id='C10', title='Formulas are dimensionally consistent',
         statement='Rescaling the units of length and time (with the gravitational parameter and masses rescaled '
                   'accordingly) rescales every result of the orbital formulas and every quantity of an orbit object '
                   'by its own dimension: no formula mixes lengths, speeds, times and pure numbers.',
         quantifier=Q(['inputs', 'configurations'], 'all formulas, argument shapes and angle units; all quantities of '
                      'orbit objects'),
         why_tests_cant='Tests use one or two unit systems, in which a wrong power of the gravitational parameter or '
                        'an absolute threshold can go unnoticed.',
         anchors=A([K, O], ('formulas', K + ':all public functions'), ('derived quantities', O + ':period, '
                   'mean_motion, velocity, speed, apoapsis, periapsis, propagate')),
         technique='dimension inference over the value graphs', note=TRUST),
    dict(id='C11', title='Solver options reach the Kepler equation solver and bound its work',
         statement='The tolerance, iteration limit and degree given as solver options to any conversion from mean '
                   'anomaly are the ones its solver uses, for every orbit in the call and every shape of the arguments; '
                   'options not given have their defaults and the given options are not modified. The solver stops once '
                   'its step is below the tolerance and never does more iterations than the limit.',
         quantifier=Q(['inputs', 'configurations'], 'all subsets of options, shapes and eccentricities'),
         why_tests_cant='A dropped option changes only speed or the last digits.',
         anchors=A([K], ('solver options', K + ':mean_to_eccentric, mean_to_true, equi_to_cart'),
                   ('stopping rule', K + ':laguerre_solve_kepler')),
         technique='dataflow from option to solver call; loop exit condition analysis', note=TRUST),
    dict(id='C12', title='No result depends on memory that was never written',
         statement='Every function of the Kepler module computes every entry of its result from its arguments, whatever '
                   'the eccentricity, inclination and anomaly are, including elements that are not numbers: there is '
                   'no combination of values for which an entry is left uninitialised.',
         quantifier=Q(['inputs'], 'all values including NaN and values on the limits between orbit types, scalars and arrays'),
         why_tests_cant='Uninitialised memory often holds plausible numbers, and tests sample inside the regimes.',
         anchors=A([K], ('masked assignments', K + ':conversions and anomaly functions')),
         technique='definite assignment over guarded value graphs (reachability of never-written cells)', note=TRUST),
    dict(id='C13', title='Scalars, single orbits and arrays give the same results',
         statement='Each function of the Kepler module gives for an array, for every combination of arrays and single '
                   'values, and for a matrix of orbits, elementwise what it gives for each single value or orbit, and its '
                   'result has one entry or column per orbit.',
         quantifier=Q(['inputs'], 'all values, all eccentricities, all combinations of shapes'),
         why_tests_cant='The scalar and array branches are separate code; tests compare them in few regimes and combinations.',
         anchors=A([K], ('scalar and array branches', K + ':every public function')),
         technique='value-graph comparison of scalar, mixed and array evaluation; symbolic shape inference', note=TRUST),
    dict(id='C14', title='Functions leave their arguments alone and return new arrays',
         statement='No function of the Kepler module changes an array it is given, whatever its type, nor returns an '
                   'array that shares memory with one of its arguments.',
         quantifier=Q(['inputs'], 'all functions, angle units, shapes and element types (double, single, integer)'),
         why_tests_cant='Tests look at the result, not at the arguments after the call.',
         anchors=A([K], ('argument copies', K + ':every public function')),
         technique='store and points-to analysis of array parameters', note=TRUST),
    dict(id='C15', title='Angles of converted elements are in their documented range',
         statement='The inclination computed by the conversions is between zero and half a turn; the argument of '
                   'periapsis, the longitude of the ascending node and the anomaly computed by the conversions to Kepler '
                   'elements, the longitude computed by the conversions to equinoctial elements, and true anomalies '
                   'computed from other anomalies are between zero and a full turn, in radians and in degrees.',
         quantifier=Q(['inputs'], 'all state vectors and elements, including planar and circular orbits'),
         why_tests_cant='Tests visit a grid; out of range angles appear in single quadrants or special cases.',
         anchors=A([K], ('quadrants and wrapping', K + ':cart_to_kep, kep_to_equi, equi_to_kep, cart_to_equi')),
         technique='interval analysis of the value graphs with angle wrapping', note=TRUST),
    dict(id='C21', title='Integer inputs are not truncated',
         statement='Giving integer arrays or integer values to a function of the Kepler module gives the same result as '
                   'giving the equal floating point values: no intermediate or final value is cut to an integer.',
         quantifier=Q(['inputs'], 'all functions, shapes and angle units'),
         why_tests_cant='Tests use floating point arrays.',
         anchors=A([K], ('result types', K + ':every public function')),
         technique='element type inference over array allocations and stores', note=TRUST),
    dict(id='C23', title='Eccentric anomalies solve Kepler\'s equation',
         statement='The eccentric anomaly computed from a mean anomaly is the root, found by an iteration whose only '
                   'fixed points are roots, of E - e sin E = M for elliptic and e sinh H - H = M for hyperbolic orbits, '
                   'and the closed form solution of D + D^3/3 = M for parabolic ones, selected by the eccentricity '
                   'of the orbit itself.',
         quantifier=Q(['inputs'], 'all anomalies and eccentricities, scalars and arrays'),
         why_tests_cant='Tests use selected anomalies and eccentricities; mixed arrays and mixed regimes are not covered.',
         anchors=A([K], ('equation and iteration', K + ':laguerre_solve_kepler, mean_to_eccentric')),
         technique='algebraic comparison of the iteration step with the Laguerre step of the equation', note=TRUST),
    dict(id='C24', title='Closed form orbital quantities follow their defining relations',
         statement='Orbital period, semi-major axis from period, orbital speed (vis viva), angular momentum, distances of '
                   'elliptic, parabolic and hyperbolic orbits and the true anomaly of the asymptote equal their '
                   'defining formula for all valid arguments, and period and semi-major axis undo each other.',
         quantifier=Q(['inputs'], 'all values, scalars and arrays'),
         why_tests_cant='Tests use numbers for which several wrong formulas agree, for instance unit size.',
         anchors=A([K], ('closed forms', K + ':orbital_period, semi_major_axis, orbital_speed, orbital_distance, '
                         '*_radius, *_angular_momentum, true_of_the_asymptote')),
         technique='algebraic normal form comparison', note=TRUST),
    dict(id='C25', title='Rotations are proper rotations in the documented order',
         statement='The elementary rotation matrices turn by the given angle around their axis, and the orbit rotation '
                   'is the argument of periapsis around z, then the inclination around x, then the node around z, for '
                   'single values, arrays and mixtures, in radians and degrees; all are orthogonal and right handed.',
         quantifier=Q(['inputs'], 'all angles and shapes'),
         why_tests_cant='Tests use axis aligned angles.',
         anchors=A([K], ('rotations', K + ':rot_mat_x, rot_mat_y, rot_mat_z, euler_rotation_matrix')),
         technique='algebraic normal form comparison with trigonometric identities', note=TRUST),
    dict(id='C28', title='Kepler elements give the right Cartesian elements',
         statement='The position and velocity computed from Kepler elements are those of two-body motion on the conic with '
                   'these elements, for elliptic, parabolic (size is the periapsis distance) and hyperbolic orbits, any '
                   'gravitational parameter, single orbits and many, degrees and radians.',
         quantifier=Q(['inputs'], 'all elements of every kind of orbit'),
         why_tests_cant='Tests compare a few known orbits and round trips, in which two wrong halves can cancel.',
         anchors=A([K], ('conversion', K + ':kep_to_cart')),
         technique='algebraic normal form comparison with the two-body formulas per regime', note=TRUST),
    dict(id='C29', title='Stumpff functions have their defining values',
         statement='The Stumpff functions of order zero to three equal their closed forms for positive and for negative '
                   'arguments and their limit at zero, for numbers and arrays, and the combined function returns them '
                   'in order.',
         quantifier=Q(['inputs'], 'all arguments'),
         why_tests_cant='Tests check a handful of values.',
         anchors=A([K], ('Stumpff functions', K + ':stumpff0, stumpff1, stumpff2, stumpff3, stumpff')),
         technique='algebraic normal form comparison per sign', note=TRUST),
    dict(id='C30', title='Anomaly conversions follow the geometry of each kind of orbit',
         statement='True, eccentric and mean anomaly are converted with the relations of the circle, ellipse, parabola and '
                   'hyperbola according to the eccentricity of each orbit; conversions over two steps are the '
                   'composition of the steps, and true and eccentric anomaly conversions undo each other.',
         quantifier=Q(['inputs'], 'all anomalies and eccentricities, all combinations of scalars and arrays'),
         why_tests_cant='Tests use a grid of elliptic and few hyperbolic anomalies.',
         anchors=A([K], ('anomaly conversions', K + ':true_to_eccentric, eccentric_to_true, eccentric_to_mean, '
                         'true_to_mean, mean_to_true')),
         technique='algebraic normal form comparison per regime', note=TRUST),
    dict(id='C31', title='Cartesian elements give the right Kepler elements',
         statement='The Kepler elements computed from position and velocity are the size, eccentricity, inclination, '
                   'argument of periapsis, node and true anomaly defined by energy, angular momentum and eccentricity '
                   'vector, with the documented conventions for planar and circular orbits and the periapsis distance as '
                   'size of parabolic ones, whatever the quadrant.',
         quantifier=Q(['inputs'], 'all state vectors, single orbits and many, degrees and radians'),
         why_tests_cant='Quadrant and special case errors concern regions a grid of test orbits misses.',
         anchors=A([K], ('conversion', K + ':cart_to_kep')),
         technique='canonical form comparison of the decision tree of each element', note=TRUST),
    dict(id='C32', title='Equinoctial elements are those of the same orbit',
         statement='Equinoctial elements computed from Kepler elements and Kepler elements computed from '
                   'equinoctial elements follow the defining relations, including circular and planar orbits, and the '
                   'conversions to and from Cartesian elements are the composition with the Kepler conversion, with the '
                   'mean longitude as sixth element.',
         quantifier=Q(['inputs'], 'all elements, shapes, degrees and radians'),
         why_tests_cant='Tests do round trips, in which consistent errors cancel.',
         anchors=A([K], ('conversions', K + ':kep_to_equi, equi_to_kep, cart_to_equi, equi_to_cart')),
         technique='algebraic normal form comparison; composition check', note=TRUST),
    dict(id='C16', title='Constants keep their documented values',
         statement='Every documented constant has its documented value wherever it is exported, can neither be rebound nor '
                   'deleted through the constant store, and no operation of the library changes module or class level '
                   'state that later results depend on.',
         quantifier=Q(['histories', 'inputs'], 'all sequences of operations'),
         why_tests_cant='Tests compare two constants; whether some operation changes shared state depends on the history.',
         anchors=A(['pyorb/const.py', 'pyorb/_const_docs.py', O], ('constants', 'pyorb/const.py'), ('module state', O)),
         technique='abstract interpretation of module bodies; effect analysis of module and class state', note=TRUST),
    dict(id='C17', title='Gravitational constant in the requested units',
         statement='The gravitational constant for given length, mass and time units is the SI value converted with the '
                   'documented size of each unit, for named units and for numeric ones in every combination, and unknown '
                   'unit names are refused.',
         quantifier=Q(['inputs'], 'all combinations of named and numeric units'),
         why_tests_cant='Tests check two combinations.',
         anchors=A([K], ('unit conversion', K + ':get_G')),
         technique='interpretation over every combination, algebraic normal form comparison', note=TRUST),
    dict(id='C18', title='Every documented operation can be carried out',
         statement='Every documented operation, function and way of constructing an object can be carried out for valid '
                   'arguments in every mode of the object, anomaly type, angle unit and number of objects, without an '
                   'error unrelated to the arguments.',
         quantifier=Q(['inputs', 'configurations', 'histories'], 'all modes, shapes and reachable states'),
         why_tests_cant='Tests run each operation in one or two modes; a wrong name or shape shows up only on the path taken.',
         anchors=A([O, K], ('operations', O), ('functions', K)),
         technique='abstract interpretation of every path of every operation, raise reachability', note=TRUST),
    dict(id='C20', title='Orbits in one object are independent of each other',
         statement='The result of every operation for one orbit does not depend on the other orbits stored in the same '
                   'object, on how many there are, or on values given for others.',
         quantifier=Q(['inputs', 'histories'], 'all objects with any number of orbits'),
         why_tests_cant='Tests use one orbit or orbits of the same kind, where a test over all of them agrees with the '
                        'test of each.',
         anchors=A([O, K], ('vectorised operations', O), ('vectorised functions', K)),
         technique='dependence analysis of value graphs on other cells (any, all, reductions along the orbit axis)',
         note=TRUST),
    dict(id='C22', title='Derived quantities are those of the orbit',
         statement='Period, mean motion, apoapsis, periapsis, orbital speed, velocity and mean longitude of an orbit object '
                   'follow from its own elements, both masses, its gravitational constant and angle unit for every kind '
                   'of orbit, and setting a period, mean motion or velocity changes exactly the size or speed that gives '
                   'that value.',
         quantifier=Q(['inputs', 'configurations'], 'all elements, masses, kinds of orbit, modes, anomaly types'),
         why_tests_cant='Tests use massless bound orbits in radians; the mass, kind and unit dependence is not sampled.',
         anchors=A([O], ('derived quantities', O + ':Orbit.period, mean_motion, apoapsis, periapsis, speed, velocity')),
         technique='algebraic normal form comparison per regime', note=TRUST),
    dict(id='C27', title='Propagation advances the mean anomaly by mean motion',
         statement='Propagating moves the mean anomaly of each orbit by its own mean motion times the time step, modulo '
                   'whole turns for bound orbits only, moves the Cartesian elements accordingly in automatic modes, '
                   'and keeps shape, plane, mass, epoch and settings.',
         quantifier=Q(['inputs', 'configurations'], 'all elements, time steps, kinds of orbit, modes, anomaly types'),
         why_tests_cant='Tests propagate a few bound orbits stored with one anomaly type.',
         anchors=A([O], ('propagation', O + ':Orbit.propagate, mean_anomaly, mean_motion')),
         technique='algebraic normal form comparison per regime', note=TRUST),
    dict(id='C33', title='Comparison of orbits looks at every determined element',
         statement='Two orbits are reported equivalent exactly when size, shape, plane and every angle that the kind of '
                   'orbit determines agree within the documented tolerance; angles that planar or circular '
                   'orbits leave undetermined do not matter.',
         quantifier=Q(['inputs'], 'all pairs of orbits, shapes, degrees and radians'),
         why_tests_cant='Tests compare few pairs differing in a single element.',
         anchors=A([K], ('comparison', K + ':kep_equivalent')),
         technique='decision tree comparison of the boolean value graph', note=TRUST),
    dict(id='C26', title='Incomplete orbits wait for their missing elements',
         statement='An orbit some elements of which have not been given shows exactly the elements given and nothing '
                   'computed from missing ones, however often and in whatever order it is read; it is converted once it is '
                   'complete, and complete orbits in the same object are converted regardless of incomplete ones.',
         quantifier=Q(['histories', 'configurations'], 'all orders of giving and reading elements, modes, anomaly types, '
                      'subsets of orbits'),
         why_tests_cant='Tests allocate and then set everything at once; partial states and mixtures are not sampled.',
         anchors=A([O], ('conversion of complete orbits', O + ':Orbit.calculate_cartesian, calculate_kepler'),
                   ('pending conversions', O + ':Orbit._kep_check, _cart_check')),
         technique='abstract interpretation of partially assigned objects, comparison of value graphs', note=TRUST),
    dict(id='C34', title='The angle unit decorator converts exactly the chosen angles',
         statement='A function decorated for angle units gets, when degrees are asked for by the call or by default of the '
                   'decorator, exactly the chosen positional and keyword arguments in radians and returns exactly the chosen '
                   'results in degrees; otherwise it behaves as undecorated. Each call is converted on its own and the '
                   'arguments of the caller stay as they are.',
         quantifier=Q(['inputs', 'configurations'], 'all decorator settings up to three arguments and results, calls with '
                      'and without keywords, numbers and arrays, repeated calls'),
         why_tests_cant='Tests decorate five functions and call each of them once in each unit.',
         anchors=A(['pyorb/unit.py'], ('decorator', 'pyorb/unit.py:angle_units')),
         technique='abstract interpretation of the closure, comparison of value graphs', note=TRUST),
    dict(id='C35', title='Without automatic conversion elements change only when set or calculated',
         statement='With automatic and direct updating off, reading an orbit object or setting one kind of elements leaves the '
                   'other kind exactly as it was stored. Only calculate_cartesian and calculate_kepler convert, always '
                   'when they are called, for exactly the objects they are asked for, and they leave their source as it is.',
         quantifier=Q(['histories', 'configurations'], 'all operations, anomaly types, angle units, orders of setting, '
                      'selections'),
         why_tests_cant='Tests switch the conversion off in one place and look at one element.',
         anchors=A([O], ('conversion switches', O + ':Orbit._cart_check, _kep_check, calculate_cartesian, calculate_kepler'),
                   ('direct_update branches', O + ':setters')),
         technique='abstract interpretation of every operation, comparison of value graphs with what was stored', note=TRUST),
    dict(id='C36', title='Settings are the ones chosen and stay so',
         statement='Storage type, update modes, gravitational constant, central mass, solver options, epoch, angle unit, '
                   'anomaly type, masses, number of orbits and read-only flags of an orbit object are those given at '
                   'construction, or the documented defaults, in every combination, and no operation changes a setting '
                   'other than the one it assigns.',
         quantifier=Q(['inputs', 'configurations'], 'all combinations of settings and ways to give elements; all operations'),
         why_tests_cant='Tests construct objects with one or two settings and read them back directly.',
         anchors=A([O], ('construction', O + ':Orbit.__init__'), ('settings', O + ':Orbit')),
         technique='abstract interpretation of construction; effect analysis of settings', note=TRUST),
    dict(id='C37', title='Changes of mass and gravitational constant act with the next calculation',
         statement='Changing the masses (by assignment, in place or by update), the central mass or the gravitational constant '
                   'changes no element by itself. Calculating Cartesian (Kepler) elements afterwards keeps the Kepler '
                   '(Cartesian) elements and gives the others for the new values, and so does the conversion after '
                   'elements were set.',
         quantifier=Q(['histories', 'configurations'], 'all modes, anomaly types, units, ways to change the values'),
         why_tests_cant='Tests give masses at construction and hardly ever change them.',
         anchors=A([O], ('gravitational parameter', O + ':Orbit.calculate_cartesian, calculate_kepler, update')),
         technique='value-graph comparison after every kind of change', note=TRUST),
    dict(id='C38', title='Elements given in different ways are the same orbits',
         statement='Elements given as one array of all six, or element by element, by assignment, by update of all or of '
                   'selected orbits, at construction or by addition are the same orbits. An array with one state, one '
                   'vector (position, velocity) or one number (an element, a derived quantity, a mass, a propagation '
                   'time) given for several orbits is the same as giving it for each of them.',
         quantifier=Q(['inputs', 'configurations'], 'all ways of giving elements, shapes of values, kinds of selections, '
                      'modes, anomaly types, units, numbers of orbits, what was set before'),
         why_tests_cant='Tests give elements in one way and shape each; the number of orbits decides whether a wrong '
                        'alignment raises or is silently stored.',
         anchors=A([O], ('assignment', O + ':Orbit.cartesian, kepler, r, v'), ('update', O + ':Orbit.update'),
                   ('construction and addition', O + ':Orbit.__init__, add')),
         technique='value-graph comparison of all ways to give elements', note=TRUST),
    dict(id='C39', title='Values that do not fit are refused without effect',
         statement='When a value assigned to one quantity of an orbit object (a set of elements, position, velocity, one '
                   'element, a derived quantity), given to update for one quantity, or given as propagation time has a '
                   'shape that does not fit the orbits, the operation raises and every element, mass, setting and '
                   'pending conversion is what it was before.',
         quantifier=Q(['inputs', 'histories', 'configurations'], 'all such values, modes, anomaly types, units, pending '
                      'conversions, one and several orbits'),
         why_tests_cant='The loss shows in what is read after the error was handled, with a conversion pending before it.',
         anchors=A([O], ('assignment', O + ':Orbit.cartesian, kepler, r, v, x, a'), ('update', O + ':Orbit.update')),
         technique='abstract interpretation of raising paths: state after the exception against state before', note=TRUST),
    dict(id='C40', title='Conversions there and back lose no accuracy',
         statement='Converting Kepler elements to Cartesian or equinoctial elements and back in floating point gives the '
                   'elements again up to a small multiple of the rounding unit, over the whole range of sizes, '
                   'eccentricities and inclinations the documentation allows.',
         quantifier=Q(['inputs'], 'all elements away from the documented thresholds'),
         why_tests_cant='Tests sample grids; the loss of accuracy concentrates near degenerate orbits between grid points.',
         anchors=A([K], ('conversions', K + ':kep_to_cart, cart_to_kep, kep_to_equi, equi_to_kep')),
         not_applicable='the size of the rounding error depends on cancellation in inverse trigonometric functions and '
         'quotients that vanish at the degenerate orbits; an interval or affine error analysis over the input range gives no '
         'finite bound near them.  The exact-arithmetic part is decided in C28, C31 and C32.'),
    dict(id='C41', title='The Kepler equation solver always converges',
         statement='For every finite mean anomaly and every eccentricity the solver of the Kepler equation reaches its '
                   'tolerance within the default number of iterations, from the starting value it chooses.',
         quantifier=Q(['inputs'], 'all mean anomalies and eccentricities, default options'),
         why_tests_cant='Tests sample a grid of anomalies and eccentricities; slow convergence sits near e = 1 and M = 0.',
         anchors=A([K], ('solver', K + ':laguerre_solve_kepler, kepler_guess')),
         not_applicable='global convergence of the Laguerre iteration for a transcendental equation is a statement about '
         'the dynamics of the iteration, which no fixpoint of an abstract domain in reach bounds (the interval of one step '
         'already covers the real line near vanishing derivatives).  That the iteration is the right one, stops on its '
         'tolerance and is bounded is decided in C23 and C11.'),
    dict(id='C42', title='Anomalies have the accuracy that was asked for',
         statement='The eccentric anomaly returned for a mean anomaly is within the tolerance given of the exact root of '
                   'Kepler\'s equation.',
         quantifier=Q(['inputs'], 'all anomalies, eccentricities and tolerances'),
         why_tests_cant='Tests compare residuals on a grid with the default tolerance.',
         anchors=A([K], ('solver', K + ':laguerre_solve_kepler')),
         not_applicable='the solver bounds its last step, not the distance to the root; relating them needs the local rate '
         'of convergence at a runtime value and rounding analysis.'),
    dict(id='C43', title='Results are continuous across the circular, planar and parabolic limits',
         statement='Positions, velocities and elements change by no more than a small multiple of the change of the input '
                   'when the eccentricity or inclination crosses one of the thresholds that select another formula.',
         quantifier=Q(['inputs'], 'all orbits near the thresholds'),
         why_tests_cant='Tests use values well inside or exactly at the limits.',
         anchors=A([K], ('thresholds', K + ':e_lim, i_lim')),
         not_applicable='near the parabolic limit the size stands for different quantities on both sides and the error of '
         'the limiting formula is a runtime magnitude (order of the threshold times the distance along the orbit); a sound '
         'static bound does not exist without bounding the inputs.'),
    dict(id='C44', title='Single precision objects give single precision accurate results',
         statement='Orbit objects with a narrower floating point type give, up to the precision of that type, the results of '
                   'the default type in every operation.',
         quantifier=Q(['inputs', 'configurations'], 'all floating point types and operations'),
         why_tests_cant='Tests never set the type.',
         anchors=A([O], ('floating type', O + ':Orbit.dtype')),
         not_applicable='the amplification of rounding error between the types depends on the conditioning at the runtime '
         'elements; only that storage keeps the chosen type is decidable (C05).'),
]

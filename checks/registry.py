"""what decides each property: the check, the rule it applies, its assumptions"""
from . import c01, readonly, storage, effects, general, solver, formulas, ranges, elements, misc, calls, derived, incomplete, settings, given

MODEL = 'numpy behaves as modelled in pyabs/npmodel.py'
REAL = 'arithmetic on real numbers: rounding and overflow are not modelled'
CONV = 'the conversions between element sets are treated as functions of their arguments (their own obligations are in ' \
       'C28, C30, C31, C32)'
SOLVE = 'the solver loop is replaced by its result after its own step and exit condition were analysed (C23, C11)'
ORBIT = (MODEL, REAL, CONV, 'one generic object with arbitrary other objects stands for every object')
KEPL = (MODEL, REAL, SOLVE)

CHECKS = {
    'C01': (c01.run, 'Product reachability: from every reachable abstract state of an orbit object (flags, pending '
            'changes, which elements were set last) every public operation is interpreted and the elements read '
            'afterwards are compared, as value graphs, with the elements of a reference in which what was set last '
            'decides; until no new state appears.', ORBIT),
    'C02': (readonly.run_ro, 'Every writer of a read-only element set raises AttributeError on every path and its '
            'effect set before the raise is empty.', ORBIT),
    'C03': (storage.run_alias, 'No array that is returned or taken in is, or is a view of, storage that is reachable '
            'from the orbit object.', ORBIT),
    'C04': (storage.run_copy, 'Copy, selection and iteration transfer every field and observation, and no mutable '
            'object is reachable from both.', ORBIT),
    'C05': (storage.run_align, 'The symbolic extent and object selection of every per-orbit array agree after each '
            'resizing operation, and the cells are the ones of the objects kept or given.', ORBIT),
    'C06': (storage.run_names, 'The value graph of each way of access for a name is the cell of its documented row.', ORBIT),
    'C07': (effects.run_select, 'The value graphs after an operation on selected objects are gated by the selection: the '
            'effect on all objects where it holds and no effect where it does not.', ORBIT),
    'C08': (effects.run_anomaly, 'Every anomaly read or written is the conversion term of the stored one with the '
            'eccentricity, angle unit and solver options of the object.', ORBIT),
    'C09': (general.run_degrees, 'The result for angles in degrees is, as normal form per eccentricity regime, the '
            'result for the converted angles.', KEPL),
    'C10': (general.run_units, 'Length, time and mass exponents are inferred for every node of every result; both sides '
            'of each addition, comparison and selection agree, arguments of transcendental functions are pure numbers, '
            'and results have their documented dimension.', KEPL),
    'C11': (solver.run_options, 'Each option reaches each solver call unchanged on every path; the exit condition of the '
            'solver loop contains the tolerance test of the step and the iteration limit.', (MODEL,)),
    'C12': (general.run_regimes, 'No cell created without value is reachable in a result under a satisfiable condition.',
            KEPL),
    'C13': (general.run_shapes, 'The cell of the array result is, as value graph, the scalar result; shapes are inferred '
            'symbolically.', KEPL),
    'C14': (general.run_inputs, 'No store reaches the buffer of a parameter and no result is or views such a buffer.', KEPL),
    'C15': (ranges.run_ranges, 'The interval of each angle, evaluated over its gated value graph, is inside its range.', KEPL),
    'C16': (misc.run_constants, 'The module bodies are interpreted and each constant compared with its documented value; '
            'the effect set of every operation contains no module or class state; rebinding and deleting raise on every '
            'path.', (MODEL,)),
    'C17': (misc.run_get_g, 'For every combination of units the result is, as normal form, the SI value with the '
            'documented factors.', (MODEL, REAL)),
    'C18': (calls.run_calls, 'No path of an operation with valid arguments ends in a raise.', ORBIT),
    'C20': (calls.run_independent, 'The cell of a result for one orbit contains no node that depends on cells of '
            'another orbit.', ORBIT),
    'C22': (derived.run_derived, 'Normal form per regime equal to the defining formula of the elements read; setters: '
            'the elements read afterwards.', ORBIT),
    'C26': (incomplete.run_incomplete, 'After each sequence of assignments every element read is the value given, '
            'unknown where an element it depends on is missing, and the conversion of the elements where all are known; '
            'per selected and unselected orbit.', ORBIT),
    'C27': (derived.run_propagate, 'Normal form per regime of the mean anomaly after propagation equal to the mean '
            'anomaly plus mean motion times step, whole turns allowed where bound.', ORBIT),
    'C33': (misc.run_equivalent, 'The boolean value graph equals the conjunction of the comparisons of the determined '
            'elements.', KEPL),
    'C34': (misc.run_wrapper, 'Every argument the decorated function gets and every result is, as value graph, the one '
            'given or its conversion, according to the settings.', (MODEL, REAL)),
    'C35': (settings.run_manual, 'With automatic conversion off the value graph of each stored element is the value set last '
            'after every operation, and the conversion of the other set for the objects a calculation was asked for.', ORBIT),
    'C36': (settings.run_settings, 'Every public setting is, as value, the one given at construction or its documented '
            'default, and no operation changes one that it does not assign.', ORBIT),
    'C37': (settings.run_mass, 'After a change of mass, central mass or gravitational constant the element graphs are those '
            'of before; after a calculation or assignment the converted ones are conversions with the new value.', ORBIT),
    'C38': (given.run_given, 'The read back graphs of an object are the same for every way and shape in which the same '
            'elements are given.', ORBIT),
    'C39': (given.run_fit, 'On each path on which a value of the wrong shape raises, no observable of the object changed.', ORBIT),
    'C19': (readonly.run_reject, 'On each raising path of a rejected operation no observable of the object changed.', ORBIT),
    'C21': (general.run_integers, 'With integer element types no store or allocation on a path truncates a value that '
            'is not an integer, and the value graph is that of floating point input.', KEPL),
    'C23': (solver.run_equation, 'The loop body of the solver is, as normal form, the Laguerre step of the equation of '
            'each regime; the results of the callers are the solver result for anomaly and eccentricity of the object.',
            (MODEL, REAL)),
    'C24': (formulas.run_closed, 'Normal form equal to the defining formula.', KEPL),
    'C25': (formulas.run_rotation, 'Entries equal, as normal form, to the defining product of rotations; product with the '
            'transposed is the identity.', KEPL),
    'C28': (elements.run_kep_to_cart, 'Normal form per regime equal to the two-body formulas.', KEPL),
    'C29': (formulas.run_stumpff, 'Normal form per sign of the argument equal to the closed form.', KEPL),
    'C30': (formulas.run_anomalies, 'Normal form per regime equal to the relation of the conic, modulo whole turns for '
            'angles.', KEPL),
    'C31': (elements.run_cart_to_kep, 'The decision tree of each element, in canonical form, equal to the defining one.', KEPL),
    'C32': (elements.run_equinoctial, 'Normal form equal to the defining relations; composition for the conversions '
            'through Kepler elements.', KEPL),
}

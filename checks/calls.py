"""C18 every documented operation can be carried out, C20 objects are
independent of each other."""
from .kep import *
from . import public
from .general import TABLE, shapes_of, invoke
from .solver import SHAPES

INTERNAL = ('NameError', 'UnboundLocalError', 'AttributeError', 'TypeError', 'IndexError', 'KeyError', 'ImportError',
            'ModuleNotFoundError', 'ZeroDivisionError', 'ValueError', 'RecursionError', 'AssertionError', 'StopIteration')
EVENTS = ('name_error', 'attribute_error', 'type_error', 'index_error', 'import_error', 'readonly_property',
          'truth_of_array', 'reshape_mismatch')


def outcome(w, f):
    """what goes wrong, '' if nothing does"""
    def go():
        try:
            f()
        except PyRaise as e:
            return e.exc
    exc = w.do(go)
    evs = list(w.it.events_last)
    if exc is not None:
        return 'raises %s' % exc
    for e in evs:
        if e['kind'] in EVENTS and not e.get('conds'):
            return '%s: %s' % (e['kind'], ', '.join('%s' % (e[k],) for k in ('name', 'what') if k in e))
    for e in evs:
        # only for some numbers of objects
        if e['kind'] in EVENTS and e.get('conds'):
            n = some_number(e['conds'])
            if n:
                return '%s with %d objects: %s' % (e['kind'], n, ', '.join('%s' % (e[k],) for k in ('name', 'what')
                                                                           if k in e))
    return ''


def some_number(conds, most=12):
    """a number of objects for which conditions that are all about that number hold"""
    def val(x, n):
        if isinstance(x, bool) or isnum(x):
            return x
        if not isinstance(x, Node):
            raise KeyError
        if x.op == 'size' and x.args[0] == N:
            return n
        a = [val(y, n) for y in x.args]
        if x.op == 'neg':
            return -a[0]
        if x.op == 'not':
            return not a[0]
        return {'add': lambda: a[0] + a[1], 'mul': lambda: a[0] * a[1], 'lt': lambda: a[0] < a[1],
                'le': lambda: a[0] <= a[1], 'eq': lambda: a[0] == a[1], 'and': lambda: all(a),
                'or': lambda: any(a)}[x.op]()
    for n in range(1, most + 1):
        try:
            if all(bool(val(g, n)) is bool(v) for g, v in conds):
                return n
        except (KeyError, TypeError):
            return None
    return None


def run_calls(ck):
    def work(ck, item):
        kind = item[0]
        if kind == 'orbit':
            _, (auto, direct), typ, deg, hist = item
            w = Lab()
            heap = ck.guard('state', lambda: w.state(typ, deg, auto, direct, hist))
            if heap is None:
                return
            nm = '%s/%s/%s/%s' % (mode_name(auto, direct), typ, 'degrees' if deg else 'radians', hist)
            for label, f in public.operations(w):
                key = '%s can be done' % label

                def one(f=f, key=key):
                    t = outcome(w, lambda: f(restore(heap, w.Orbit)))
                    ck.verdict(key, not t, '%s: %s' % (nm, t))
                    ck.count('operations interpreted')
                ck.guard(key, one)
            ck.saw(w.it)
        elif kind == 'single':
            _, (auto, direct), typ, deg, side = item
            w = Lab()
            heap = ck.guard('state', lambda: single(w, typ, deg, auto, direct, side))
            if heap is None:
                return
            nm = 'one orbit, %s/%s/%s' % (mode_name(auto, direct), typ, 'degrees' if deg else 'radians')
            for label, f in public.operations(w, True):
                key = '%s can be done with a single orbit' % label

                def alone(f=f, key=key):
                    t = outcome(w, lambda: f(restore(heap, w.Orbit)))
                    ck.verdict(key, not t, '%s: %s' % (nm, t))
                    ck.count('operations interpreted')
                ck.guard(key, alone)
            ck.saw(w.it)
        elif kind == 'new':
            constructions(ck)
        elif kind == 'kepler':
            functions(ck)
    items = [('orbit', mo, typ, deg, hist) for mo in MODES for typ in KINDS for deg in (False, True)
             for hist in ('k', 'c', 'kx', 'ca', '0')]
    items += [('single', mo, typ, deg, side) for mo in MODES for typ in KINDS for deg in (False, True) for side in 'kc']
    parallel(ck, items + [('new',), ('kepler',)], work)


def single(w, typ, deg, auto, direct, side):
    def go():
        names = KEP if side == 'k' else CART
        return snap(w.it.call(w.Orbit, [w.M0], dict({n: V('%s%d' % (side, i)) for i, n in enumerate(names)}, num=1, G=w.G,
                                                    m=w.m, type=typ, degrees=deg, auto_update=auto, direct_update=direct)))
    return w.do(go)


def constructions(ck):
    w = Lab()
    it = w.it
    opts = [('no keywords', lambda: {}), ('epoch', lambda: dict(epoch=V('ep'))), ('m', lambda: dict(m=vec('m'))),
            ('m as a number', lambda: dict(m=V('m'))), ('single precision', lambda: dict(dtype=E_dtype('f4'))),
            ('solver_options', lambda: dict(solver_options=dict(tol=V('tol')))),
            ('kepler_read_only', lambda: dict(kepler_read_only=True)),
            ('cartesian_read_only', lambda: dict(cartesian_read_only=True)),
            ('kepler', lambda: dict(kepler=mat(6, 'w'))), ('cartesian', lambda: dict(cartesian=mat(6, 'w'))),
            ('no objects', lambda: dict(num=0))]
    for names in (KEP, CART):
        opts.append((', '.join(names), lambda names=names: {n: vec(n) for n in names}))
        opts.append((', '.join(names) + ' as numbers', lambda names=names: {n: V(n) for n in names}))
        for n in names:
            opts.append((n, lambda n=n: {n: vec(n)}))
    for auto, direct in MODES:
        for typ in KINDS:
            for deg in (False, True):
                for label, kw in opts:
                    key = 'construction with %s' % label

                    def one(kw=kw, key=key):
                        t = outcome(w, lambda: it.call(w.Orbit, [w.M0], dict(dict(
                            num=w.n, G=w.G, auto_update=auto, direct_update=direct, type=typ, degrees=deg), **kw())))
                        ck.verdict(key, not t, '%s/%s: %s' % (mode_name(auto, direct), typ, t))
                        ck.count('operations interpreted')
                    ck.guard(key, one)
    ck.saw(it)


def E_dtype(s):
    from pyabs.engine import DT
    return DT(s)


def functions(ck):
    w = Kep()
    install_solver(w)
    for nm, (params, kinds, hasdeg) in TABLE.items():
        if not w.has(nm):
            ck.bad('%s exists' % nm, 'pyorb.kepler.%s is not defined' % nm)
            continue
        for label, sh in shapes_of(params):
            for deg in ((False, True) if hasdeg else (False,)):
                key = '%s of %s can be computed' % (nm, label)

                def one(nm=nm, sh=sh, deg=deg, key=key):
                    t = outcome(w, lambda: invoke(w, nm, sh, degrees=deg))
                    ck.verdict(key, not t, t)
                    ck.count('operations interpreted')
                ck.guard(key, one)
    for nm in ('kepler_guess',):
        for label, f, g in SHAPES:
            key = '%s of %s can be computed' % (nm, label)

            def two(nm=nm, f=f, g=g, key=key):
                t = outcome(w, lambda: w.call(nm, lambda: f('x'), lambda: g('e')))
                ck.verdict(key, not t, t)
            ck.guard(key, two)
    # everything documented can be imported from the package
    for nm in ('Orbit', 'get_G', 'const', 'G', 'AU', 'M_sol', 'GM_sol', 'GM_earth', 'M_earth', 'cart_to_kep', 'kep_to_cart',
               'equi_to_kep', 'kep_to_equi', 'equi_to_cart', 'cart_to_equi', 'true_to_eccentric', 'mean_to_eccentric',
               'mean_to_true', 'eccentric_to_true', 'eccentric_to_mean', 'true_to_mean', 'laguerre_solve_kepler',
               'kepler_guess', 'orbital_speed', 'orbital_period', 'elliptic_radius', 'e_lim', 'i_lim'):
        key = 'pyorb.%s can be imported' % nm
        ck.verdict(key, nm in w.mod.ns, 'pyorb has no %s' % nm)
    ck.saw(w.it)


# ------------------------------------------------------------------ C20

def depends(terms):
    """a value that is computed from other objects"""
    for t in terms:
        for x in (subterms(t).values() if isinstance(t, Node) else ()):
            if x.op in ('reduce', 'pick', 'maybe'):
                return x
    return None


def present(space):
    """the generic object is (still) among those of the space"""
    r = True
    while isinstance(space, tuple) and space and space[0] in ('sub', 'del'):
        g = space[2]
        if isinstance(g, (Node, bool)):
            r = and_(r, g if space[0] == 'sub' else not_(g))
        space = space[1]
    return r


def independent(ck, key, got, base, nm, here=True):
    """got: {name: terms}.  No value depends on objects other than its own.
    Values of objects that are gone do not count"""
    names = [(n, i) for n, v in got.items() if isinstance(v, list) for i in range(len(v))]
    terms = [t for v in got.values() if isinstance(v, list) for t in v]
    groups = {}
    for table, ts in split(terms + [here], base):
        if ts.pop() is False:
            continue
        own = []
        others = []
        for k, v in table.items():
            if k in base:
                continue
            n = C._byid.get(k)
            (others if n is None or has_op(n, ('reduce',)) else own).append((k, v))
        groups.setdefault(tuple(sorted(own)), []).append((others, ts))
    res, txt = True, ''
    if not groups:
        return ck.unknown(key, 'no object is left')
    for own, alts in groups.items():
        o0, t0 = alts[0]
        for (n, i), x in zip(names, t0):
            d = depends([x])
            if d is not None:
                return ck.bad(key, '%s: %s depends on %s' % (nm, n, show(d, 6)))
        for o1, t1 in alts[1:]:
            for (n, i), x, y in zip(names, t0, t1):
                d = depends([y])
                if d is not None:
                    return ck.bad(key, '%s: %s depends on %s' % (nm, n, show(d, 6)))
                v, t = eqv([x], [y], base)
                if v is False:
                    return ck.bad(key, '%s: %s is %s depending on the other objects' % (nm, n, t))
                if v is None:
                    res, txt = None, t
    ck.verdict(key, res, '', txt)


def run_independent(ck):
    def work(ck, item):
        if item == 'kepler':
            w = Kep()
            install_solver(w)
            for nm, (params, kinds, hasdeg) in TABLE.items():
                if not w.has(nm):
                    continue
                for label, sh in shapes_of(params):
                    if 'a' not in sh:
                        continue
                    for deg in ((False, True) if hasdeg else (False,)):
                        key = '%s of %s treats every object on its own' % (nm, label)

                        def fun(nm=nm, sh=sh, deg=deg, key=key):
                            got = invoke(w, nm, sh, degrees=deg)
                            gs = gate_reductions(got)
                            d = depends(got)
                            if d is None:
                                ck.ok(key)
                                return
                            if not gs:
                                ck.bad(key, 'depends on %s' % show(d, 6))
                                return
                            independent(ck, key, dict(enumerate([g] for g in got)), {}, nm)
                        ck.guard(key, fun)
            ck.saw(w.it)
            return
        (auto, direct), typ, deg, hist = item
        w = Lab()
        names = ELEMENT_READS + ('m', 'period', 'mean_motion', 'apoapsis', 'periapsis', 'velocity', 'speed',
                                 'mean_longitude')
        heap = ck.guard('state', lambda: w.state(typ, deg, auto, direct, hist))
        if heap is None:
            return
        hb, base = open_flags(heap)
        nm = '%s/%s/%s/%s' % (mode_name(auto, direct), typ, 'degrees' if deg else 'radians', hist)
        for label, f in public.operations(w):
            key = '%s treats every object on its own' % label

            def one(label=label, f=f, key=key):
                def go():
                    o = restore(hb, w.Orbit)
                    try:
                        f(o)
                    except PyRaise:
                        return {}, True
                    r = w.it.getattr(o, 'kepler')
                    return w.observe(o, names), present(r.space) if isinstance(r, Arr) else True
                got, here = w.do(go)
                independent(ck, key, got, base, nm, here)
                ck.count('operations interpreted')
            ck.guard(key, one)
        ck.saw(w.it)
    parallel(ck, [(mo, typ, deg, hist) for mo in MODES for typ in KINDS for deg in (False, True)
                  for hist in (('k',) if deg else ('k', 'kx', 'ca'))] + ['kepler'], work)

"""The public operations of orbit objects with the documented kinds of
arguments."""
from .orbit import *

PROPS_K = KEP + ('true_anomaly', 'eccentric_anomaly', 'mean_anomaly', 'mean_motion', 'period')
READS = ELEMENT_READS + ('mean_motion', 'period', 'apoapsis', 'periapsis', 'mean_longitude', 'equinoctial', 'velocity',
                         'speed', 'num', 'type')


def operations(w, one=False):
    """[(label, f(object))]; `one`: the object holds a single orbit"""
    it = w.it
    U = mk('sel', 'u')
    out = []

    def get(nm):
        out.append(('reading %s' % nm, lambda o: it.getattr(o, nm)))

    def put(nm, val, how):
        out.append(('%s = %s' % (nm, how), lambda o: it.setattr(o, nm, val())))

    def call(label, nm, args=(), kw=None):
        def f(o):
            a = [x() if callable(x) else x for x in args]
            k = {n: (x() if callable(x) else x) for n, x in (kw or {}).items()}
            return it.call(it.getattr(o, nm), a, k)
        out.append((label, f))
    for nm in READS:
        get(nm)
    vals = (('an array', lambda: vec('v0')), ('a number', lambda: V('v0')), ('an integer', lambda: 2))
    for nm in CART + PROPS_K + ('velocity',):
        for how, val in vals:
            put(nm, val, how)
    for nm in ('r', 'v'):
        put(nm, lambda: mat(3, 'w'), 'a matrix')
    for nm in ('cartesian', 'kepler', 'equinoctial'):
        put(nm, lambda: mat(6, 'w'), 'a matrix')
    for nm in ('cartesian', 'kepler') + (('equinoctial',) if one else ()):
        put(nm, lambda: fresh((6,), None, {(i,): V('w%d' % i) for i in range(6)}, 'f'), 'a vector')
    for k in KINDS:
        put('type', lambda k=k: k, repr(k))
    call('propagate(dt)', 'propagate', [V('dt')])
    call('propagate(array)', 'propagate', [lambda: vec('dt')])
    for label, ix in (('a mask', lambda: fresh((), N, {(): U}, 'b')), ('a list', lambda: [0]), ('a slice', lambda: slice(0, 1)),
                      ('a number', lambda: V('j'))):
        call('delete(%s)' % label, 'delete', [ix])
        for m in ('calculate_cartesian', 'calculate_kepler', 'calc_true_anomaly', 'calc_mean_anomaly',
                  'calc_eccentric_anomaly'):
            call('%s(%s)' % (m, label), m, [ix])
        call('update(%s, x)' % label, 'update', [], dict(inds=ix, x=V('v0')))
        call('update(%s, e)' % label, 'update', [], dict(inds=ix, e=V('v0')))
        out.append(('selection by %s' % label, lambda o, ix=ix: it.call(it.getattr(o, '__getitem__'), [ix()], {})))
    for m in ('calculate_cartesian', 'calculate_kepler', 'calc_true_anomaly', 'calc_mean_anomaly', 'calc_eccentric_anomaly',
              'copy', '__copy__', '__len__', '__str__', '__iter__'):
        call('%s()' % m, m)
    for nm in KEP + CART:
        call('update(%s)' % nm, 'update', [], {nm: lambda: vec('v0')})
        call('add(%s)' % nm, 'add', [], {nm: V('v0')})
    call('update(cartesian)', 'update', [], dict(cartesian=lambda: mat(6, 'w')))
    call('update(kepler)', 'update', [], dict(kepler=lambda: mat(6, 'w')))
    call('update(x, vz)', 'update', [], dict(x=lambda: vec('v0'), vz=V('v1')))
    call('update(a, anom)', 'update', [], dict(a=lambda: vec('v0'), anom=V('v1')))
    call('update()', 'update')
    call('add()', 'add')
    call('add(all Kepler elements)', 'add', [], {nm: V('v%d' % i) for i, nm in enumerate(KEP)})
    call('add(all Cartesian elements)', 'add', [], {nm: V('v%d' % i) for i, nm in enumerate(CART)})
    call('add(number, m)', 'add', [V('k')], dict(m=V('v0'), a=V('v1')))
    call('allocate(number)', 'allocate', [V('k')])
    out.append(('copy.copy', lambda o: it.call(it.getattr(o, '__copy__'), [], {})))

    def loop(o):
        i = it.call(it.getattr(o, '__iter__'), [], {})
        return i
    out.append(('iteration', loop))
    return out

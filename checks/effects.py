"""C07 operations on a selection affect the selection only, C08 anomaly kinds,
C22 derived quantities use each object's own gravitational parameter,
C26 objects with unknown elements."""
from .orbit import *

QUANT = ('period', 'mean_motion', 'apoapsis', 'periapsis', 'speed', 'velocity', 'mean_longitude')


def selections():
    """[(label, index value, space of the selected part)]"""
    u = mk('sel', 'u')
    out = [('mask', lambda: fresh((), N, {(): u}, 'b'), ('sub', N, u)),
           ('list', lambda: [0, 2], None),
           ('slice', lambda: slice(1, 3), None),
           ('number', lambda: V('j'), None)]
    return out


def sel_atoms(terms):
    seen = {}
    for t in terms:
        subterms(t, seen)
    return [x for x in seen.values() if x.op == 'sel']


# ------------------------------------------------------------------ C07

def sel_ops(w, inds, space):
    """operations on a selection"""
    it = w.it

    def upd(**kw):
        return lambda o: it.call(it.getattr(o, 'update'), [], dict({k: f() for k, f in kw.items()}, inds=inds()))

    def call(nm):
        return lambda o: it.call(it.getattr(o, nm), [inds()], {})

    def callk(nm):
        return lambda o: it.call(it.getattr(o, nm), [], dict(inds=inds()))
    one = lambda nm='v0': (lambda: vec(nm, space)) if space is not None else (lambda: V(nm))
    six = (lambda: mat(6, 'w', space)) if space is not None else (lambda: fresh((6, 1), None, {
        (i, 0): V('w%d' % i) for i in range(6)}, 'f', origin='param:w'))
    out = []
    for nm in KEP + CART:
        out.append(('update(inds, %s)' % nm, upd(**{nm: one()}), {nm: V('v0')}))
    out.append(('update(inds, x, vz)', upd(x=one('v0'), vz=one('v1')), {'x': V('v0'), 'vz': V('v1')}))
    out.append(('update(inds, e, anom)', upd(e=one('v0'), anom=one('v1')), {'e': V('v0'), 'anom': V('v1')}))
    out.append(('update(inds, kepler)', upd(kepler=six), {nm: V('w%d' % i) for i, nm in enumerate(KEP)}))
    out.append(('update(inds, cartesian)', upd(cartesian=six), {nm: V('w%d' % i) for i, nm in enumerate(CART)}))
    out.append(('update(inds, m)', upd(m=one()), None))
    for nm in ('calculate_cartesian', 'calculate_kepler', 'calc_true_anomaly', 'calc_eccentric_anomaly',
               'calc_mean_anomaly'):
        out.append((nm + '(inds)', call(nm), None))
        out.append((nm + '(inds=inds)', callk(nm), None))
    return out


def run_select(ck):
    def work(ck, item):
        (auto, direct), typ, deg, hist = item
        w = Lab()
        it = w.it
        heap = ck.guard('state', lambda: w.state(typ, deg, auto, direct, hist))
        if heap is None:
            return
        hb, base = open_flags(heap)
        nm = '%s/%s/%s%s' % (mode_name(auto, direct), typ, hist, '/degrees' if deg else '')
        names = ELEMENT_READS + ('m',)
        whole = {}
        # the same operations on all objects
        for label, f, wanted in sel_ops(w, lambda: slice(None, None), N):
            if 'update(inds, m' in label and direct:
                continue

            def every(f=f):
                o = restore(hb, w.Orbit)
                f(o)
                return w.observe(o, names)
            whole[label] = ck.guard('%s, all objects' % label, lambda: w.do(every))
        before = w.do(lambda: w.observe(restore(hb, w.Orbit), names))
        num0 = w.do(lambda: (it.getattr(restore(hb, w.Orbit), 'num'), w.config(restore(hb, w.Orbit))))
        for slabel, inds, space in selections():
            for label, f, wanted in sel_ops(w, inds, space):
                if 'update(inds, m' in label and direct:
                    continue
                if slabel == 'number' and ('kepler)' in label or 'cartesian)' in label):
                    continue
                ck.guard('%s leaves the other objects alone' % label, select_one, ck, w, label, slabel, f, wanted,
                         hb, base, before, num0, names, nm, hist, auto or direct, whole.get(label))
                ck.count('selections tried')
        ck.saw(it)
    parallel(ck, [(mo, typ, deg, hist) for mo in MODES for typ in KINDS for deg in (False, True)
                  for hist in ('k', 'c', 'kx', 'ca') if not deg or (hist in 'kx' and typ != 'eccentric')], work)


def select_one(ck, w, label, slabel, f, wanted, hb, base, before, num0, names, nm, hist, on, whole):
    it = w.it

    def go():
        o = restore(hb, w.Orbit)
        try:
            f(o)
        except PyRaise as e:
            return e.exc, None, None
        # reading one quantity must not help the next: pending conversions of
        # all objects are part of what is compared
        return None, w.observe(o, names), (it.getattr(o, 'num'), w.config(o))
    exc, after, num1 = w.do(go)
    key = '%s, %s, leaves the other objects alone' % (label, slabel)
    if exc is not None:
        ck.bad(key, '%s: raises %s' % (nm, exc))
        return
    terms = [t for v in after.values() if isinstance(v, list) for t in v]
    b2 = dict(base)
    for s in sel_atoms(terms):
        b2[s.id] = False
    v, t = compare_obs(before, after, b2)
    if v is True and (not same(num0[0], num1[0]) or num0[1] != num1[1]):
        v, t = False, 'number or configuration changed'
    ck.verdict(key, v, '%s: %s' % (nm, t), '%s: %s' % (nm, t))
    if whole is not None:
        key = '%s, %s, does to the selected objects what it does to all' % (label, slabel)
        b3 = dict(base)
        for s in sel_atoms(terms):
            b3[s.id] = True
        v, t = compare_obs(whole, after, b3)
        ck.verdict(key, v, '%s: %s' % (nm, t), '%s: %s' % (nm, t))
    if not wanted:
        return
    # the selected objects get exactly these elements
    key = '%s, %s, sets the given elements of the selected objects' % (label, slabel)
    b3 = dict(base)
    for s in sel_atoms(terms):
        b3[s.id] = True
    group = KEP if any(k in KEP for k in wanted) else CART
    # what the others in the group were is only known if they could be read
    known = on or (group == KEP) == (hist[-1] in 'ka')
    for el in group:
        want = [wanted[el]] if el in wanted else before[el] if known and label not in (
            'update(inds, kepler)', 'update(inds, cartesian)') else None
        if want is None:
            continue
        v, t = eqv(after[el], want, b3)
        ck.verdict(key, v, '%s: %s is %s' % (nm, el, t), '%s: %s' % (el, t))


# ------------------------------------------------------------------ C08

def run_anomaly(ck):
    def work(ck, item):
        (auto, direct), typ, deg, hist = item
        w = Lab()
        it = w.it
        opts = dict(tol=V('tol'), max_iter=V('mi'))
        heap = ck.guard('state', lambda: w.state(typ, deg, auto, direct, hist, solver_options=dict(opts)))
        if heap is None:
            return
        hb, base = open_flags(heap)
        nm = '%s/%s/%s/%s' % (mode_name(auto, direct), typ, 'degrees' if deg else 'radians', hist)
        on = auto or direct
        if not on and (hist[-1] in 'cx' or hist == 'ca'):
            return

        def obs(f=None, names=ELEMENT_READS):
            def go():
                o = restore(hb, w.Orbit)
                if f:
                    f(o)
                r = {}
                for n_ in names:
                    # every read on its own object: reads may not rely on each other
                    r[n_] = w.do(lambda: w.observe(restore(snap(o), w.Orbit), (n_,)))[n_]
                evs = list(it.events)
                return r, evs
            return w.do(go)
        before, _ = obs()
        kep = before['kepler']

        def conv(to, frm, x, e):
            return mk_anom(to, frm, x, e, deg)

        def elem(to, frm, x, e):
            """conversion of gated terms"""
            return it.np.elementwise(lambda p, q: NAN if p is NAN or q is NAN else conv(to, frm, p, q), [x, e], 'f')
        for kind in KINDS:
            key = 'reading %s_anomaly converts the stored anomaly' % kind
            want = [conv(kind, typ, kep[5], kep[1])]
            ck.guard(key, check_eqv, ck, key, before[kind + '_anomaly'], want, base, nm)
            # setting
            key = 'setting %s_anomaly stores the converted anomaly and keeps the other elements' % kind
            v0 = V('v0')

            def setk(kind=kind, key=key):
                after, _ = obs(lambda o: it.setattr(o, kind + '_anomaly', vec('v0')))
                wk = list(kep[:5]) + [conv(typ, kind, v0, kep[1])]
                check_eqv(ck, key, after['kepler'], wk, base, nm)
                check_eqv(ck, 'anom after setting %s_anomaly' % kind, after['anom'], wk[5:], base, nm)
                check_eqv(ck, '%s_anomaly reads back what was set' % kind, after[kind + '_anomaly'], [v0], base, nm)
                if on:
                    fin = list(wk[:5]) + [conv('true', kind, v0, kep[1])]
                    mu = w.mu
                    wc = [simp1(mk('k2c', i, tuple(fin), (deg, mu))) for i in range(6)]
                    check_eqv(ck, 'the position follows when %s_anomaly is set' % kind, after['cartesian'], wc, base,
                              nm)
            ck.guard(key, setk)
            # an integer or single value
            for spelled in (kind, kind.upper(), ' %s ' % kind.title()):
                key = 'type = %r converts the anomaly and nothing else' % spelled

                def sett(kind=kind, key=key, spelled=spelled):
                    try:
                        after, _ = obs(lambda o: it.setattr(o, 'type', spelled), ELEMENT_READS + ('type', 'm'))
                    except PyRaise as e:
                        ck.bad(key, '%s: raises %s' % (nm, e.exc))
                        return
                    t = after['type']
                    ck.verdict('type reads back after type = %r' % spelled, t == ('value', keyof(kind)), 'reads %s' % (t,))
                    check_eqv(ck, key, after['kepler'], list(kep[:5]) + [conv(kind, typ, kep[5], kep[1])], base, nm)
                    for k2 in KINDS:
                        check_eqv(ck, key, after[k2 + '_anomaly'], before[k2 + '_anomaly'], base, nm)
                    if on:
                        check_eqv(ck, key, after['cartesian'], before['cartesian'], base, nm)
                ck.guard(key, sett)
        # the units reach every conversion
        for label, f in (
                [('reading %s_anomaly' % k, lambda o, k=k: it.getattr(o, k + '_anomaly')) for k in KINDS] +
                [('setting %s_anomaly' % k, lambda o, k=k: it.setattr(o, k + '_anomaly', vec('v0'))) for k in KINDS] +
                [('type = %s' % k, lambda o, k=k: it.setattr(o, 'type', k)) for k in KINDS] +
                [('reading cartesian', lambda o: it.getattr(o, 'cartesian')),
                 ('reading kepler', lambda o: it.getattr(o, 'kepler')),
                 ('calculate_cartesian', lambda o: it.call(it.getattr(o, 'calculate_cartesian'), [], {})),
                 ('calculate_kepler', lambda o: it.call(it.getattr(o, 'calculate_kepler'), [], {})),
                 ('reading equinoctial', lambda o: it.getattr(o, 'equinoctial')),
                 ('setting equinoctial', lambda o: it.setattr(o, 'equinoctial', mat(6, 'w'))),
                 ('propagate', lambda o: it.call(it.getattr(o, 'propagate'), [V('dt')], {})),
                 ('reading speed', lambda o: it.getattr(o, 'speed')),
                 ('reading mean_longitude', lambda o: it.getattr(o, 'mean_longitude'))]):
            key = '%s: the units of the orbit are used' % label

            def opt(label=label, f=f, key=key):
                w.do(lambda: f(restore(hb, w.Orbit)))
                evs = it.events_last
                for e in evs:
                    if e['kind'] == 'anomaly':
                        if e['degrees'] != deg:
                            ck.bad(key, '%s: %s to %s anomaly with degrees=%s' % (nm, e['frm'], e['to'], e['degrees']))
                            return
                    elif e['kind'] == 'convert':
                        d = dict(e['extra']).get('degrees')
                        if d != deg:
                            ck.bad(key, '%s: conversion with degrees=%s' % (nm, d))
                            return
                ck.ok(key)
                ck.count('conversion calls', len(evs))
            ck.guard(key, opt)
        ck.saw(it)
    parallel(ck, [(mo, typ, deg, hist) for mo in MODES for typ in KINDS for deg in (False, True)
                  for hist in ('k', 'c', 'kx', 'ca')], work)
    from . import solver
    dflt = ck.guard('default options', solver.default_options)
    if dflt is not None:
        solver.orbit_options(ck, dflt)
    w = Lab()
    it = w.it
    for bad in ('sideways', '', 'truee', 'anomaly'):
        for how in ('type', 'construction'):
            key = '%s: anomaly type %r is rejected' % (how, bad)

            def rej():
                def go():
                    try:
                        if how == 'type':
                            it.setattr(w.new(), 'type', bad)
                        else:
                            w.new(type=bad)
                    except PyRaise as e:
                        return e.exc
                e = w.do(go)
                ck.verdict(key, e is not None and 'ValueError' in e.names, 'accepted' if e is None else 'raises %s' % e)
            ck.guard(key, rej)
    ck.saw(it)


def check_eqv(ck, key, got, want, base, nm):
    if isinstance(got, tuple):
        ck.bad(key, '%s: %s' % (nm, got))
        return
    v, t = eqv(got, want, base)
    ck.verdict(key, v, '%s: %s' % (nm, t), '%s: %s' % (nm, t))

"""C38 the same elements given in different ways are the same orbits."""
from .orbit import *
from .effects import selections, sel_atoms, check_eqv
from .calls import single

DERIVED = ('true_anomaly', 'eccentric_anomaly', 'mean_anomaly', 'period', 'mean_motion', 'velocity')


def forms(rows_, names, space):
    """[(label, value)]: one vector for all, the same as a column, one for each.  rows_ None: a single quantity"""
    def cells(ix):
        return {ix(i): V(n) for i, n in enumerate(names)}
    if rows_ is None:
        v = V(names[0])
        out = [('a number', lambda: v), ('an array with one entry', lambda: fresh((1,), None, {(0,): v}, 'f', origin='param:w'))]
        if space is not None:
            out.append(('an array', lambda: fresh((), space, {(): v}, 'f', origin='param:w')))
        return out
    out = [('one vector', lambda: fresh((rows_,), None, cells(lambda i: (i,)), 'f', origin='param:w')),
           ('one column', lambda: fresh((rows_, 1), None, cells(lambda i: (i, 0)), 'f', origin='param:w'))]
    if space is not None:
        out.append(('a matrix', lambda: fresh((rows_,), space, cells(lambda i: (i,)), 'f', origin='param:w')))
    return out


def run_given(ck):
    def work(ck, item):
        (auto, direct), typ, deg = item
        w = Lab()
        it = w.it
        nm0 = '%s/%s/%s' % (mode_name(auto, direct), typ, 'degrees' if deg else 'radians')
        names = ELEMENT_READS + ('m',)
        modes = dict(auto_update=auto, direct_update=direct, degrees=deg, type=typ)
        six = ['w%d' % i for i in range(6)]

        def result(f, base, select=None):
            """observables after f, in the case that the generic object is concerned"""
            def go():
                try:
                    o = f()
                except PyRaise as e:
                    return e.exc
                except Unsupported as e:
                    if 'static axis against the object axis' not in str(e):
                        raise
                    # fits for one particular number of orbits only, and then means something else
                    return 'an error: an array with a fixed number of entries meets one with an entry for each orbit'
                return w.observe(o, names)
            got = w.do(go)
            ck.count('ways of giving elements')
            if select and isinstance(got, dict):
                terms = [t for v in got.values() if isinstance(v, list) for t in v]
                seen = {}
                for t in terms:
                    subterms(t, seen)
                tab = {x.id: True for x in seen.values() if x.op == select}
                got = {k: [subst(t, tab) for t in v] if isinstance(v, list) else v for k, v in got.items()}
            return got

        def same_as(key, nm, got, want, base):
            if not isinstance(got, dict):
                return ck.bad(key, '%s: raises %s' % (nm, got))
            if not isinstance(want, dict):
                return ck.bad(key, '%s: the matrix of elements raises %s' % (nm, want))
            v, t = compare_obs(want, got, base)
            ck.verdict(key, v, '%s: %s' % (nm, t), '%s: %s' % (nm, t))

        for hist in ('k', 'c', 'kx', 'ca') if not deg else ('k', 'c'):
            heap = ck.guard('state', lambda: w.state(typ, deg, auto, direct, hist))
            if heap is None:
                continue
            hb, base = open_flags(heap)
            nm = nm0 + '/' + hist

            def on(f):
                def go():
                    o = restore(hb, w.Orbit)
                    f(o)
                    return o
                return go

            def update(value, key, inds=None):
                def f(o):
                    kw = {key: value()}
                    if inds is not None:
                        kw['inds'] = inds()
                    it.call(it.getattr(o, 'update'), [], kw)
                return f
            sets = [('kepler', 6, six), ('cartesian', 6, six), ('equinoctial', 6, six), ('r', 3, six[:3]), ('v', 3, six[:3])]
            sets += [(n, None, ['v0']) for n in KEP + CART + DERIVED]
            for prop, k, vs in sets:
                fs = forms(k, vs, N)
                if prop == 'equinoctial':
                    del fs[1]
                put = lambda val, prop=prop: on(lambda o: it.setattr(o, prop, val()))
                ref = ck.guard('reference', result, put(fs[-1][1]), base)
                if ref is None:
                    continue
                whole = prop in ('kepler', 'cartesian')
                lists = [('a list of arrays', lambda: [fresh((), N, {(): V(n)}, 'f', origin='param:w') for n in vs])]
                for flabel, val in fs + (lists if k and prop != 'equinoctial' else []):
                    key = '%s = %s: the same as one value for each orbit' % (prop, flabel)
                    if val is not fs[-1][1]:
                        ck.guard(key, lambda: same_as(key, nm, result(put(val), base), ref, base))
                    if whole or k is None and prop not in DERIVED:
                        key = 'update(%s) with %s: the same as assignment' % (prop, flabel)
                        ck.guard(key, lambda: same_as(key, nm, result(on(update(val, prop)), base), ref, base))
                # every element has its own obligation in C07
                if not whole and prop not in ('e', 'anom', 'y', 'vz'):
                    continue
                for slabel, inds, space in selections():
                    for flabel, val in forms(k, vs, space):
                        if slabel == 'number' and flabel in ('one column',):
                            continue
                        key = 'update(%s, %s) with %s: the same as assignment' % (slabel, prop, flabel)
                        ck.guard(key, lambda: same_as(key, nm, result(on(update(val, prop, inds)), base, 'sel'), ref, base))
            # one propagation time for all or one for each
            go = lambda val: on(lambda o: it.call(it.getattr(o, 'propagate'), [val()], {}))
            fs = forms(None, ['dt'], N)
            ref = ck.guard('reference', result, go(fs[-1][1]), base)
            for flabel, val in fs[:-1]:
                key = 'propagate with %s: the same as one value for each orbit' % flabel
                ck.guard(key, lambda: same_as(key, nm, result(go(val), base), ref, base))
            # element by element
            for group, side in ((KEP, 'kepler'), (CART, 'cartesian')):
                ref = ck.guard('reference', result, on(lambda o: it.setattr(o, side, forms(6, six, N)[-1][1]())), base)
                if ref is None:
                    continue
                for flabel in range(3):
                    kw = lambda: {n: forms(None, [six[i]], N)[flabel][1]() for i, n in enumerate(group)}
                    lab = forms(None, ['w0'], N)[flabel][0]
                    key = 'update of all %s elements, each %s: the same as the matrix' % (side, lab)
                    ck.guard(key, lambda: same_as(key, nm, result(on(lambda o: it.call(it.getattr(o, 'update'), [], kw())), base), ref, base))

                def each(o):
                    for i, n in enumerate(group):
                        it.setattr(o, n, V(six[i]))
                key = 'assignment of all %s elements one after the other: the same as the matrix' % side
                if auto or direct:
                    ck.guard(key, lambda: same_as(key, nm, result(on(each), base), ref, base))
        # construction: the same as assignment to an empty object
        mass = forms(None, ['m'], N)
        for side, group in (('kepler', KEP), ('cartesian', CART)):
            def assigned():
                o = w.new(**modes)
                it.setattr(o, side, forms(6, six, N)[-1][1]())
                return o
            ref = ck.guard('reference', result, assigned, {})
            if ref is None:
                continue

            def build(kw, mval):
                return lambda: it.call(w.Orbit, [w.M0], dict(modes, G=w.G, num=w.n, m=mval(), **kw()))
            for mlabel, mval in mass:
                for flabel, val in forms(6, six, N):
                    key = 'construction with %s %s: the same as assignment' % (side, flabel)
                    ck.guard(key, lambda: same_as(key, nm0 + ', mass ' + mlabel, result(build(lambda: {side: val()}, mval), {}), ref, {}))
                for fl in range(3):
                    kw = lambda: {n: forms(None, [six[i]], N)[fl][1]() for i, n in enumerate(group)}
                    key = 'construction with each %s element %s: the same as assignment' % (side, forms(None, ['w0'], N)[fl][0])
                    ck.guard(key, lambda: same_as(key, nm0 + ', mass ' + mlabel, result(build(kw, mval), {}), ref, {}))
            # addition: the new objects
            num = V('num')
            al = ('alloc', num)
            heap = ck.guard('state', lambda: w.state(typ, deg, auto, direct, 'k'))
            if heap is None:
                continue
            hb, base = open_flags(heap)
            added = []

            def addition(kw, mval):
                def go():
                    o = restore(hb, w.Orbit)
                    it.call(it.getattr(o, 'add'), [], dict(num=num, m=mval(), **kw()))
                    return o
                return go
            for mlabel, mval in forms(None, ['m'], al):
                for flabel, val in forms(6, six, al):
                    key = 'addition with %s %s: the same as assignment' % (side, flabel)
                    ck.guard(key, lambda: same_as(key, nm0 + ', mass ' + mlabel, result(addition(lambda: {side: val()}, mval), base, 'isnew'), ref, base))
                for fl in range(3):
                    kw = lambda: {n: forms(None, [six[i]], al)[fl][1]() for i, n in enumerate(group)}
                    key = 'addition with each %s element %s: the same as assignment' % (side, forms(None, ['w0'], al)[fl][0])
                    ck.guard(key, lambda: same_as(key, nm0 + ', mass ' + mlabel, result(addition(kw, mval), base, 'isnew'), ref, base))
        ck.saw(it)
    def alone(ck, item):
        """a single orbit"""
        _, (auto, direct), typ, deg, side = item
        w = Lab()
        it = w.it
        names = ELEMENT_READS + ('m',)
        six = ['w%d' % i for i in range(6)]
        nm = 'one orbit, %s/%s/%s' % (mode_name(auto, direct), typ, 'degrees' if deg else 'radians')
        heap = ck.guard('state', lambda: single(w, typ, deg, auto, direct, side))
        if heap is None:
            return
        hb, base = open_flags(heap)

        def result(f):
            def go():
                o = restore(hb, w.Orbit)
                try:
                    o = f(o) or o
                except PyRaise as e:
                    return e.exc
                return w.observe(o, names)
            ck.count('ways of giving elements')
            return w.do(go)

        def both(key, f, ref):
            a, b = result(f), result(ref)
            if not isinstance(a, dict) or not isinstance(b, dict):
                return ck.bad(key, '%s: raises %s' % (nm, b if isinstance(a, dict) else a))
            v, t = compare_obs(b, a, base)
            ck.verdict(key, v, '%s: %s' % (nm, t), '%s: %s' % (nm, t))

        def upd(o, **kw):
            it.call(it.getattr(o, 'update'), [], kw)
        for prop, k, vs in [('kepler', 6, six), ('cartesian', 6, six), ('r', 3, six[:3]), ('v', 3, six[:3])] + [
                (n, None, ['v0']) for n in KEP + CART + DERIVED]:
            fs = forms(k, vs, None)
            ref = lambda o: it.setattr(o, prop, fs[-1][1]())
            for flabel, val in fs:
                if val is not fs[-1][1]:
                    key = '%s = %s: the same as %s, one orbit' % (prop, flabel, fs[-1][0])
                    ck.guard(key, both, key, lambda o: it.setattr(o, prop, val()), ref)
                if prop not in ('r', 'v') + DERIVED:
                    key = 'update(%s) with %s: the same as assignment, one orbit' % (prop, flabel)
                    ck.guard(key, both, key, lambda o: upd(o, **{prop: val()}), ref)
                    if k and flabel == 'one vector':
                        key = 'update(0, %s) with %s: the same as assignment, one orbit' % (prop, flabel)
                        ck.guard(key, both, key, lambda o: upd(o, inds=0, **{prop: val()}), ref)
                if k == 6:
                    def built(o):
                        return it.call(w.Orbit, [w.M0], dict(auto_update=auto, direct_update=direct, degrees=deg, type=typ, G=w.G,
                                                             m=w.m, num=1, **{prop: val()}))

                    def put(o):
                        o = it.call(w.Orbit, [w.M0], dict(auto_update=auto, direct_update=direct, degrees=deg, type=typ, G=w.G,
                                                          m=w.m, num=1))
                        it.setattr(o, prop, fs[-1][1]())
                        return o
                    key = 'construction with %s %s: the same as assignment, one orbit' % (prop, flabel)
                    ck.guard(key, both, key, built, put)
        ck.saw(it)

    def any_(ck, item):
        (alone if item[0] == 'one' else work)(ck, item)
    one = [('one', mo, typ, deg, side) for mo in MODES for typ in KINDS for deg in (False, True) for side in 'kc']
    parallel(ck, one + [(mo, typ, deg) for mo in MODES for typ in KINDS for deg in (False, True)], any_)


# ------------------------------------------------------------------ C39

def run_fit(ck):
    """values that do not fit are refused and leave no trace"""
    def arr(shape):
        idx = C.static_indices(shape)
        return lambda: fresh(shape, None, {k: V('w' + ''.join(map(str, k))) for k in idx}, 'f', origin='param:w')

    def work(ck, item):
        one, (auto, direct), typ, deg, hist = item
        w = Lab()
        it = w.it
        nm = '%s%s/%s/%s/%s' % ('one orbit, ' if one else '', mode_name(auto, direct), typ, 'degrees' if deg else 'radians', hist)

        def start():
            if not one:
                return w.state(typ, deg, auto, direct, hist)
            h = single(w, typ, deg, auto, direct, hist[0])

            def more():
                o = restore(h, w.Orbit)
                for ch in hist[1:]:
                    it.setattr(o, {'x': 'x', 'a': 'a'}[ch], V('u_' + ch))
                return snap(o)
            return w.do(more)
        heap = ck.guard('state', start)
        if heap is None:
            return
        hb, base = open_flags(heap)
        names = ELEMENT_READS + ('m',)

        def put(prop, val):
            return lambda o: it.setattr(o, prop, val())

        def upd(prop, val, inds=None):
            return lambda o: it.call(it.getattr(o, 'update'), [], dict({prop: val()}, **({} if inds is None else dict(inds=inds()))))
        todo = []
        for prop in ('kepler', 'cartesian'):
            vals = [('a vector with 5 entries', arr((5,))), ('a vector with 7 entries', arr((7,))), ('a column of 5', arr((5, 1)))]
            vals += [('6 by 2', arr((6, 2)))] if one else [('5 rows', lambda: mat(5, 'w')), ('7 rows', lambda: mat(7, 'w')),
                                                           ('2 rows', lambda: mat(2, 'w'))]
            for lab, v in vals:
                todo.append(('%s = %s' % (prop, lab), put(prop, v)))
                todo.append(('update(%s) with %s' % (prop, lab), upd(prop, v)))
                if not one and 'rows' not in lab:
                    todo.append(('update(mask, %s) with %s' % (prop, lab), upd(prop, v, selections()[0][1])))
        for prop in ('r', 'v'):
            vals = [('a vector with 2 entries', arr((2,))), ('a vector with 6 entries', arr((6,)))]
            vals += [('3 by 2', arr((3, 2)))] if one else [('2 rows', lambda: mat(2, 'w')), ('6 rows', lambda: mat(6, 'w'))]
            for lab, v in vals:
                todo.append(('%s = %s' % (prop, lab), put(prop, v)))
        for prop in KEP + CART + DERIVED:
            vals = [('3 rows', lambda: mat(3, 'w'))] if not one else [('2 entries', arr((2,))), ('2 by 2', arr((2, 2)))]
            for lab, v in vals:
                if prop != 'velocity' or one:
                    todo.append(('%s = %s' % (prop, lab), put(prop, v)))
                if prop not in DERIVED:
                    todo.append(('update(%s) with %s' % (prop, lab), upd(prop, v)))
        if one:
            todo.append(('propagate with 2 entries', lambda o: it.call(it.getattr(o, 'propagate'), [arr((2,))()], {})))
        before = ck.guard('reading', lambda: w.do(lambda: (w.observe(restore(hb, w.Orbit), names), w.config(restore(hb, w.Orbit)))))
        if before is None:
            return
        for label, f in todo:
            key = '%s: refused without effect' % label

            def refused():
                def go():
                    o = restore(hb, w.Orbit)
                    exc = None
                    try:
                        f(o)
                    except PyRaise as e:
                        exc = e.exc
                    except Unsupported as e:
                        if 'static axis against the object axis' not in str(e):
                            raise
                        exc = 'ValueError'
                    return exc, w.observe(o, names), w.config(o)
                exc, after, cfg = w.do(go)
                ck.count('values that do not fit')
                if exc is None:
                    return ck.unknown(key, '%s: accepted' % nm)
                v, t = compare_obs(before[0], after, base)
                if v is True and cfg != before[1]:
                    v, t = False, 'a setting changed'
                ck.verdict(key, v, '%s: %s' % (nm, t), '%s: %s' % (nm, t))
            ck.guard(key, refused)
        ck.saw(it)
    items = [(one, mo, typ, deg, h) for one in (False, True) for mo in MODES for typ in KINDS for deg in (False, True)
             for h in (('k', 'c', 'kx', 'ca') if not deg else ('ca', 'kx'))]
    parallel(ck, items, work)

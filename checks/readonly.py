"""C02 read-only groups, C19 rejected changes leave the orbit as it was."""
from .orbit import *


def assignments(w):
    """{group: [(label, run)]}: every way to assign elements"""
    it = w.it
    n1 = 'num'

    def seta(nm, val):
        return ('%s = value' % nm, lambda o: it.setattr(o, nm, val()))

    def upd(kw, label):
        return ('update(%s)' % label, lambda o: it.call(it.getattr(o, 'update'), [], kw()))

    def updi(kw, label):
        isel = mk('sel', 'u')
        sp = ('sub', N, isel)
        return ('update(inds, %s)' % label, lambda o: it.call(it.getattr(o, 'update'), [], dict(
            inds=fresh((), N, {(): isel}, 'b'), **kw(sp))))

    def addo(kw, label):
        return ('add(%s)' % label, lambda o: it.call(it.getattr(o, 'add'), [], dict(num=V(n1), **kw(('alloc', V(n1))))))
    one = lambda: vec('v0')
    kep, cart = [], []
    for nm in KEP:
        kep += [seta(nm, one), upd(lambda nm=nm: {nm: one()}, nm),
                updi(lambda sp, nm=nm: {nm: vec('v0', sp)}, nm),
                addo(lambda sp, nm=nm: {nm: vec('v0', sp)}, nm)]
    for nm in CART:
        cart += [seta(nm, one), upd(lambda nm=nm: {nm: one()}, nm),
                 updi(lambda sp, nm=nm: {nm: vec('v0', sp)}, nm),
                 addo(lambda sp, nm=nm: {nm: vec('v0', sp)}, nm)]
    m6 = lambda: mat(6, 'w')
    m3 = lambda: mat(3, 'w')
    for lst, nm in ((kep, 'kepler'), (cart, 'cartesian')):
        lst += [seta(nm, m6), upd(lambda nm=nm: {nm: m6()}, nm), updi(lambda sp, nm=nm: {nm: mat(6, 'w', sp)}, nm),
                addo(lambda sp, nm=nm: {nm: mat(6, 'w', sp)}, nm)]
    kep += [seta(nm, one) for nm in ('true_anomaly', 'eccentric_anomaly', 'mean_anomaly', 'period', 'mean_motion')]
    kep += [seta('equinoctial', m6)]
    kep += [('propagate', lambda o: it.call(it.getattr(o, 'propagate'), [V('dt')], {}))]
    cart += [seta('r', m3), seta('v', m3), seta('velocity', one)]
    return {'kepler': kep, 'cartesian': cart}


def rejected(ck, w, key, heap, run, names, where_):
    """the operation raises one of `names` and changes nothing"""
    it = w.it
    if not hasattr(heap, 'cache'):
        hb, base = open_flags(heap)
        before = w.do(lambda: w.observe(restore(hb, w.Orbit)))
        pre = w.do(lambda: (snap(restore(hb, w.Orbit)).key(), rows(it.getattr(restore(hb, w.Orbit), 'm')),
                            w.config(restore(hb, w.Orbit))))
        heap.cache = hb, base, before, pre
    hb, base, before, pre = heap.cache

    def go():
        o = restore(hb, w.Orbit)
        try:
            run(o)
        except PyRaise as e:
            m = rows(it.getattr(o, 'm'))
            return e.exc, w.observe(o), (m, w.config(o), it.getattr(o, 'num'))
        return None, None, None
    exc, after, rest = w.do(go)
    if exc is None:
        guarded = [e for e in it.events_last if e['kind'] == 'guarded_raise' and
                   any(n in e['exc'].names for n in names)]
        if guarded:
            ck.bad(key, '%s: accepted on some path (rejected only when %s)' % (where_, show(guarded[0]['cond'])))
        else:
            ck.bad(key, '%s: accepted' % where_)
        return
    if not any(n in exc.names for n in names):
        ck.bad(key, '%s: raises %s instead of %s' % (where_, list(exc.names)[0], names[0]))
        return
    v, t = compare_obs(before, after, base)
    if v is True:
        m, cfg, num = rest
        if len(m) != len(pre[1]) or not all(same(x, y) for x, y in zip(m, pre[1])):
            v, t = False, 'masses changed'
        elif cfg != pre[2]:
            v, t = False, 'configuration changed from %s to %s' % (pre[2], cfg)
        elif not same(num, w.n):
            v, t = False, 'number of orbits is %s' % show(num)
    ck.verdict(key, v, '%s: rejected, but %s' % (where_, t), t)


def run_ro(ck):
    def work(ck, item):
        group, (auto, direct), typ, deg = item
        w = Lab()
        it = w.it
        groups = assignments(w)
        ops = groups[group]
        other = 'cartesian' if group == 'kepler' else 'kepler'
        for hist in ('k', 'c', 'kx', 'ca'):
            heap = ck.guard('state', lambda: w.state(typ, deg, auto, direct, hist,
                                                     **{group + '_read_only': True}))
            if heap is None:
                continue
            nm = '%s/%s/%s' % (mode_name(auto, direct), typ, hist)
            todo = list(ops)
            if group == 'kepler':
                for t in KINDS:
                    if t != typ:
                        todo.append(('type = other', lambda o, t=t: it.setattr(o, 'type', t)))
            for label, f in todo:
                ck.guard('%s: rejected when %s is read only' % (label, group), rejected, ck, w,
                         '%s: rejected when %s is read only' % (label, group), heap, f,
                         ('AttributeError',), nm)
                ck.count('assignments tried')
            # the other group can be set
            for label, f in groups[other]:
                if label.startswith(('velocity', 'period', 'mean_motion', 'propagate')):
                    continue
                key = '%s: allowed when only %s is read only' % (label, group)

                def ok():
                    r = w.do(w.run(heap, f))
                    if r[0] == 'raise':
                        ck.bad(key, '%s: raises %s' % (nm, r[1]))
                    else:
                        ck.ok(key)
                ck.guard(key, ok)
            # reading is allowed
            key = 'reading is allowed when %s is read only' % group

            def rd():
                obs = w.do(lambda: w.observe(restore(heap, w.Orbit)))
                bad = [x for x, v in obs.items() if isinstance(v, tuple) and v[0] == 'raises']
                if bad:
                    ck.bad(key, '%s: reading %s raises' % (nm, bad))
                else:
                    ck.ok(key)
            ck.guard(key, rd)
        ck.saw(it)
    parallel(ck, [(g, mo, typ, deg) for g in ('kepler', 'cartesian') for mo in MODES for typ in KINDS
                  for deg in (False, True)], work)
    w = Lab()
    it = w.it
    for group in ('kepler', 'cartesian'):
        # given at construction, carried by copies
        for how in ('construction', 'copy()', 'orb[selection]', 'orb[number]'):
            key = '%s read only flag kept: %s' % (group, how)

            def flag():
                def go():
                    kw = {nm: vec('w%d' % i) for i, nm in enumerate(KEP)}
                    o = w.new(**{group + '_read_only': True}, **kw)
                    if how == 'copy()':
                        o = it.call(it.getattr(o, 'copy'), [], {})
                    elif how == 'orb[selection]':
                        o = it.getitem(o, fresh((), N, {(): mk('sel', 'u')}, 'b'))
                    elif how == 'orb[number]':
                        o = it.getitem(o, V('j'))
                    try:
                        it.setattr(o, 'x' if group == 'cartesian' else 'a', 1.0)
                    except PyRaise as e:
                        return e.exc
                    return None
                e = w.do(go)
                if e is None:
                    ck.bad(key, 'accepted')
                elif 'AttributeError' not in e.names:
                    ck.bad(key, 'raises %s' % e)
                else:
                    ck.ok(key)
            ck.guard(key, flag)
    ck.saw(it)


def run_reject(ck):
    def work(ck, item):
        (auto, direct), typ, deg = item
        w = Lab()
        it = w.it
        isel = mk('sel', 'u')

        def upd(**kw):
            return lambda o: it.call(it.getattr(o, 'update'), [], {k: f() for k, f in kw.items()})

        def updi(**kw):
            return lambda o: it.call(it.getattr(o, 'update'), [], dict(
                {k: vec('q_' + k, ('sub', N, isel)) for k in kw}, inds=fresh((), N, {(): isel}, 'b')))

        def addo(*names):
            return lambda o: it.call(it.getattr(o, 'add'), [], dict(
                {k: vec('q_' + k, ('alloc', V('num'))) for k in names}, num=V('num')))
        one = lambda: vec('v0')
        for hist in ('k', 'c', 'kx', 'ca'):
            heap = ck.guard('state', lambda: w.state(typ, deg, auto, direct, hist))
            if heap is None:
                continue
            nm = '%s/%s/%s' % (mode_name(auto, direct), typ, hist)
            todo = []
            for c, k in (('x', 'a'), ('y', 'e'), ('z', 'i'), ('vx', 'omega'), ('vy', 'Omega'), ('vz', 'anom'),
                         ('x', 'anom'), ('vz', 'a')):
                todo.append(('update with %s and %s' % (c, k), upd(**{c: one, k: one}), ('ValueError',)))
                todo.append(('update(inds) with %s and %s' % (c, k), updi(**{c: 1, k: 1}), ('ValueError',)))
                todo.append(('add with %s and %s' % (c, k), addo(c, k), ('ValueError',)))
            todo.append(('add with m, x and a', lambda o: it.call(it.getattr(o, 'add'), [], dict(
                num=V('num'), m=V('v1'), x=V('v0'), a=V('v2'))), ('ValueError',)))
            todo.append(('add with all elements of both kinds', addo(*KEP, *CART), ('ValueError',)))
            todo.append(('unknown anomaly type', lambda o: it.setattr(o, 'type', 'sideways'), ('ValueError',)))
            if direct:
                todo.append(('update of m with direct updating', upd(m=one), ('ValueError',)))
                todo.append(('update of m and a with direct updating', upd(m=one, a=one), ('ValueError',)))
                todo.append(('update of x and m with direct updating', upd(m=one, x=one), ('ValueError',)))
            for label, f, names in todo:
                key = '%s: rejected without effect' % label
                ck.guard(key, rejected, ck, w, key, heap, f, names, nm)
                ck.count('rejected operations tried')
        for group, ops in assignments(w).items():
            for hist in ('kx', 'ca'):
                heap = ck.guard('state', lambda: w.state(typ, deg, auto, direct, hist,
                                                         **{group + '_read_only': True}))
                if heap is None:
                    continue
                for label, f in ops:
                    key = '%s on read only %s: rejected without effect' % (label, group)

                    def noeffect():
                        sub = Check(ck.prop, ck.tier)
                        rejected(sub, w, key, heap, f, ('AttributeError',), mode_name(auto, direct))
                        # whether it is rejected is a question of another property
                        for k, s, t in sub.obl:
                            if s == 'violated' and 'accepted' in t:
                                s, t = 'undecided', t
                            ck._add(k, s, t)
                    ck.guard(key, noeffect)
        ck.saw(it)
    parallel(ck, [(mo, typ, deg) for mo in MODES for typ in KINDS for deg in (False, True)], work)
    w = Lab()
    it = w.it
    # bad anomaly type at construction
    key = 'construction with an unknown anomaly type: rejected'

    def ctor():
        def go():
            try:
                w.new(type='sideways')
            except PyRaise as e:
                return e.exc
        e = w.do(go)
        if e is None:
            ck.bad(key, 'accepted')
        else:
            ck.verdict(key, 'ValueError' in e.names, 'raises %s' % e)
    ck.guard(key, ctor)
    for what, kw in (('x and a', dict(x=V('v0'), a=V('v1'))), ('all elements of both kinds', {n: vec(n) for n in KEP + CART})):
        key = 'construction with %s: rejected' % what

        def mixed(kw=kw):
            def go():
                try:
                    w.new(**kw)
                except PyRaise as e:
                    return e.exc
            e = w.do(go)
            if e is None:
                ck.bad(key, 'accepted')
            else:
                ck.verdict(key, 'ValueError' in e.names, 'raises %s' % e)
        ck.guard(key, mixed)
    # conversions reject what they cannot convert
    for fn_, name in (('kep_to_cart', 'kep'), ('cart_to_kep', 'cart')):
        w2 = World(intrinsics=False)
        k = w2.it.load('pyorb.kepler')
        for what, val, exc in (('a list', lambda: [1, 2, 3, 4, 5, 6], 'TypeError'),
                               ('5 rows', lambda: mat(5, 'w'), 'ValueError'),
                               ('7 rows', lambda: mat(7, 'w'), 'ValueError')):
            key = '%s of %s: rejected' % (fn_, what)

            def conv():
                f = k.ns.get(fn_)
                if f is None:
                    raise Missing('pyorb.kepler.%s' % fn_)

                def go():
                    try:
                        w2.it.call(f, [val()], {})
                    except PyRaise as e:
                        return e.exc
                e = w2.do(go)
                if e is None:
                    ck.bad(key, 'accepted')
                else:
                    ck.verdict(key, exc in e.names, 'raises %s' % e)
            ck.guard(key, conv)
        ck.saw(w2.it)
    ck.saw(it)

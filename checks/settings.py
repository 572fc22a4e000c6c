"""C35 nothing is converted without being asked for, C36 settings are the ones
chosen, C37 changes of mass and gravitational constant."""
from .orbit import *
from .effects import selections, sel_atoms, check_eqv
from . import public

MANUAL = ('calculate_cartesian', 'calculate_kepler')


def writes_k(label):
    return label.startswith(('kepler =', 'equinoctial =', 'propagate', 'type =', 'update(kepler)')) or any(
        label.startswith(('%s =' % n, 'update(%s' % n)) or label.endswith(', %s)' % n) and label.startswith('update')
        for n in public.PROPS_K)


def writes_c(label):
    return label.startswith(('cartesian =', 'r =', 'v =', 'velocity =', 'update(cartesian)')) or any(
        label.startswith(('%s =' % n, 'update(%s' % n)) or label.endswith(', %s)' % n) and label.startswith('update')
        for n in CART)


def convert(w, o, side, typ, deg, mu, rows_):
    """terms of the converted elements"""
    if side == 'k':
        r = [simp1(mk('c2k', i, tuple(rows_), (deg, mu))) for i in range(6)]
        r[5] = mk_anom(typ, 'true', r[5], r[1], deg)
        return r
    k = list(rows_)
    k[5] = mk_anom('true', typ, k[5], k[1], deg)
    return [simp1(mk('k2c', i, tuple(k), (deg, mu))) for i in range(6)]


def run_manual(ck):
    def work(ck, item):
        typ, deg, hist = item
        w = Lab()
        it = w.it

        # both element sets are given and do not belong together
        def build():
            o = w.new(auto_update=False, direct_update=False, type=typ, degrees=deg)
            for side in hist:
                if side == 'k':
                    it.setattr(o, 'kepler', mat(6, 'k'))
                elif side == 'c':
                    it.setattr(o, 'cartesian', mat(6, 'c'))
                elif side == 'a':
                    it.setattr(o, 'a', vec('ka'))
                else:
                    it.setattr(o, 'x', vec('cx'))
            return snap(o)
        heap = ck.guard('state', lambda: w.do(build))
        if heap is None:
            return
        hb, base = open_flags(heap)
        nm = '%s/%s/%s' % (typ, 'degrees' if deg else 'radians', hist)
        K = [V('k%d' % i) for i in range(6)]
        Cc = [V('c%d' % i) for i in range(6)]
        if 'a' in hist:
            K[0] = V('ka')
        if 'x' in hist:
            Cc[0] = V('cx')
        names = KEP + CART + ('kepler', 'cartesian', 'r', 'v')

        def obs(f):
            def go():
                o = restore(hb, w.Orbit)
                try:
                    f(o)
                except PyRaise as e:
                    return e.exc
                return w.observe(o, names)
            return w.do(go)

        def expect(key, got, k, c, b):
            for side, want, nms in (('kepler', k, KEP), ('cartesian', c, CART)):
                if want is None:
                    continue
                for n, t in list(zip(nms, want)):
                    v, x = eqv(got[n], [t], b) if isinstance(got[n], list) else (False, str(got[n]))
                    ck.verdict(key, v, '%s: %s is %s' % (nm, n, x), x)
                v, x = eqv(got[side], want, b) if isinstance(got[side], list) else (False, str(got[side]))
                ck.verdict(key, v, '%s: %s is %s' % (nm, side, x), x)
        first = ck.guard('reading', obs, lambda o: None)
        if first is None:
            return
        key = 'both element sets are read as they were given'
        ck.guard(key, expect, key, first, K, Cc, base)
        for label, f in public.operations(w):
            if label.startswith(MANUAL + ('delete', 'allocate', 'add')):
                continue
            wk, wc = writes_k(label), writes_c(label)
            key = '%s converts nothing' % label

            def one(label=label, f=f, key=key, wk=wk, wc=wc):
                got = obs(f)
                ck.count('operations interpreted')
                if not isinstance(got, dict):
                    # C18 decides whether it can be carried out
                    return ck.ok(key)
                b = dict(base)
                expect(key, got, None if wk else K, None if wc else Cc, b)
            ck.guard(key, one)
        # conversion on request, for the selection only
        for meth, side in (('calculate_cartesian', 'c'), ('calculate_kepler', 'k')):
            for slabel, inds, space in selections() + [('everything', None, None)]:
                key = '%s, %s, converts what was asked for' % (meth, slabel)

                def two(meth=meth, side=side, inds=inds, key=key):
                    got = obs(lambda o: it.call(it.getattr(o, meth), [] if inds is None else [inds()], {}))
                    ck.count('operations interpreted')
                    if not isinstance(got, dict):
                        return ck.bad(key, '%s: raises %s' % (nm, got))
                    terms = [t for v in got.values() if isinstance(v, list) for t in v]
                    sel = sel_atoms(terms)
                    for val in ((True, False) if inds is not None else (True,)):
                        b = dict(base)
                        for s in sel:
                            b[s.id] = val
                        k, c = K, Cc
                        if val and side == 'c':
                            c = convert(w, None, 'c', typ, deg, w.mu, K)
                        elif val:
                            k = convert(w, None, 'k', typ, deg, w.mu, Cc)
                        expect(key, got, k, c, b)
                ck.guard(key, two)
        ck.saw(it)
    parallel(ck, [(typ, deg, hist) for typ in KINDS for deg in (False, True) for hist in ('kc', 'ck', 'kcx', 'cka')], work)


# ------------------------------------------------------------------ C36

DEFAULTS = {'dtype': 'f', 'auto_update': True, 'direct_update': True, 'epoch': None, 'degrees': False, 'type': 'true',
            'kepler_read_only': False, 'cartesian_read_only': False}
SOLVER = {'tol': 1e-12, 'max_iter': 5000, 'degree': 5}


def eq_value(got, want):
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(eq_value(got[k], want[k]) for k in want)
    if isinstance(got, dict) != isinstance(want, dict):
        return False
    if isinstance(got, (Node, int, float)) and isinstance(want, (Node, int, float)) and not isinstance(want, bool):
        return same(got, want)
    return type(got) is type(want) and got == want


def run_settings(ck):
    lab = Lab()
    it = lab.it

    g_si = lab.mod.ns.get('G')
    choices = {
        'dtype': [('f4', E.DT('f4'))], 'auto_update': [('off', False)], 'direct_update': [('off', False)],
        'G': [('given', V('G'))], 'epoch': [('given', V('ep')), ('text', '2000-01-01')], 'degrees': [('on', True)],
        'type': [(k, k) for k in KINDS], 'kepler_read_only': [('on', True)], 'cartesian_read_only': [('on', True)],
        'solver_options': [('tol', dict(tol=V('tol'))), ('all', dict(tol=V('tol'), max_iter=V('mi'), degree=V('deg'))),
                           ('max_iter', dict(max_iter=V('mi')))],
    }
    elements = [('nothing', lambda: {}), ('all Kepler elements', lambda: {n: vec(n) for n in KEP}),
                ('all Cartesian elements', lambda: {n: vec(n) for n in CART}), ('one element', lambda: {'e': vec('e')}),
                ('cartesian', lambda: dict(cartesian=mat(6, 'w'))), ('kepler', lambda: dict(kepler=mat(6, 'w')))]

    def expected(kw):
        want = dict(DEFAULTS)
        want['dtype'] = E.DT('f')
        want['G'] = g_si
        want['M0'] = lab.M0
        opts = dict(SOLVER)
        opts.update(kw.get('solver_options', {}))
        want.update({k: v for k, v in kw.items() if k in want})
        want['solver_options'] = opts
        return want

    def config(o):
        r = {}
        for n in CONFIG:
            try:
                v = it.getattr(o, n)
            except PyRaise as e:
                v = ('raises', repr(e.exc))
            r[n] = dict(v) if isinstance(v, dict) else v
        return r

    def compare(key, nm, got, want):
        for n in CONFIG:
            g, x = got[n], want[n]
            if n == 'dtype':
                ok = not isinstance(g, tuple) and it.np.to_dt(g) == x
            else:
                ok = eq_value(g, x)
            if has_unknown(g):
                ck.unknown(key, '%s: %s' % (nm, n))
            elif not ok:
                ck.bad(key, '%s: %s is %s instead of %s' % (nm, n, showv(g), showv(x)))
            else:
                ck.ok(key)
    sets = [{}] + [{n: v} for n in choices for _, v in choices[n]]
    names = list(choices)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            sets.append({a: choices[a][0][1], b: choices[b][0][1]})
    sets.append({n: choices[n][0][1] for n in names})
    for kw in sets:
        for elabel, els in elements:
            label = ', '.join(kw) or 'no settings'
            key = 'construction with %s: the settings are the ones chosen' % label

            def one(kw=kw, els=els, key=key, elabel=elabel):
                args = {k: (dict(v) if isinstance(v, dict) else v) for k, v in kw.items()}

                def go():
                    o = it.call(lab.Orbit, [lab.M0], dict(args, num=lab.n, m=vec('m'), **els()))
                    return config(o), rows(it.getattr(o, 'm')), it.getattr(o, 'num')
                try:
                    got, m, num = lab.do(go)
                except PyRaise as e:
                    return ck.bad(key, '%s: raises %s' % (elabel, e.exc))
                compare(key, elabel, got, expected(kw))
                ck.verdict(key, same(num, lab.n), 'num is %s' % show(num))
                ck.verdict(key, m is not None and len(m) == 1 and same(m[0], lab.m), 'm is %s' % (m and show(m[0])))
                for k, v in args.items():
                    if isinstance(v, dict):
                        ck.verdict(key, eq_value(v, kw[k]), 'the given %s was changed' % k)
                ck.count('constructions')
            ck.guard(key, one)
    ck.saw(it)

    # no operation changes a setting
    def work(ck, item):
        (auto, direct), typ, deg, hist, kro, cro = item
        w = Lab()
        kw = dict(solver_options=dict(tol=V('tol'), max_iter=V('mi')), epoch=V('ep'))
        heap = ck.guard('state', lambda: w.state(typ, deg, auto, direct, hist, **kw))
        if heap is None:
            return
        hb, base = open_flags(heap)
        nm = '%s/%s/%s/%s%s%s' % (mode_name(auto, direct), typ, 'degrees' if deg else 'radians', hist,
                                  '/kepler read only' if kro else '', '/cartesian read only' if cro else '')

        def fresh_o():
            o = restore(hb, w.Orbit)
            if kro:
                w.it.setattr(o, 'kepler_read_only', True)
            if cro:
                w.it.setattr(o, 'cartesian_read_only', True)
            return o
        before = w.do(lambda: w.config(fresh_o()))
        for label, f in public.operations(w):
            key = '%s changes no setting' % label

            def one(label=label, f=f, key=key):
                def go():
                    o = fresh_o()
                    refused = False
                    try:
                        f(o)
                    except PyRaise:
                        refused = True
                    return w.config(o), refused
                after, refused = w.do(go)
                ck.count('operations interpreted')
                for n in CONFIG:
                    if n == 'type' and label.startswith('type =') and not refused:
                        continue
                    a, b = before[n], after[n]
                    if isinstance(a, list) and isinstance(b, list):
                        v, t = eqv(b, a, base)
                    else:
                        v, t = a == b, '%s instead of %s' % (b, a)
                    ck.verdict(key, v, '%s: %s is %s' % (nm, n, t), t)
            ck.guard(key, one)
        ck.saw(w.it)
    items = [(mo, typ, deg, 'k', False, False) for mo in MODES for typ in KINDS for deg in (False, True)]
    items += [(mo, 'true', False, h, False, False) for mo in MODES for h in ('c', 'kx', 'ca')]
    items += [(mo, 'mean', False, 'k', k, c) for mo in MODES for k, c in ((True, False), (False, True), (True, True))]
    parallel(ck, items, work)


def has_unknown(v):
    if isinstance(v, dict):
        return any(has_unknown(x) for x in v.values())
    return isinstance(v, Node) and has_op(v, ('unk', 'loopout', 'phi'))


def showv(v):
    return show(v) if isinstance(v, Node) else repr(v)[:80]


# ------------------------------------------------------------------ C37

def run_mass(ck):
    def work(ck, item):
        (auto, direct), typ, deg, hist = item
        w = Lab()
        it = w.it
        on = auto or direct
        heap = ck.guard('state', lambda: w.state(typ, deg, auto, direct, hist))
        if heap is None:
            return
        # conversions of before are done: both element sets belong together
        def settle():
            o = restore(heap, w.Orbit)
            if on:
                it.getattr(o, 'cartesian')
                it.getattr(o, 'kepler')
            else:
                it.call(it.getattr(o, 'calculate_cartesian' if hist[-1] in 'ka' else 'calculate_kepler'), [], {})
            return snap(o)
        heap = ck.guard('settled state', lambda: w.do(settle))
        if heap is None:
            return
        hb, base = open_flags(heap)
        nm = '%s/%s/%s/%s' % (mode_name(auto, direct), typ, 'degrees' if deg else 'radians', hist)
        first = w.do(lambda: w.observe(restore(hb, w.Orbit), ('kepler', 'cartesian')))
        K, Cc = first['kepler'], first['cartesian']
        if not isinstance(K, list) or not isinstance(Cc, list):
            return ck.unknown('settled state', 'no elements')

        def inplace(o):
            m = it.getattr(o, 'm')
            it.setitem(m, slice(None, None), vec('m2'))

        G2, M2, m2 = V('G2'), V('M2'), V('m2')
        changes = [('m = value', lambda o: it.setattr(o, 'm', vec('m2')), (w.G, w.M0, m2)),
                   ('m[:] = value', inplace, (w.G, w.M0, m2)),
                   ('G = value', lambda o: it.setattr(o, 'G', G2), (G2, w.M0, w.m)),
                   ('M0 = value', lambda o: it.setattr(o, 'M0', M2), (w.G, M2, w.m))]
        if not direct:
            changes.append(('update(m)', lambda o: it.call(it.getattr(o, 'update'), [], dict(m=vec('m2'))),
                            (w.G, w.M0, m2)))
        names = ELEMENT_READS + ('m',)
        for label, change, (g, m0, m) in changes:
            mu = mul(g, add(m0, m))

            def obs(*fs):
                def go():
                    o = restore(hb, w.Orbit)
                    change(o)
                    for f in fs:
                        f(o)
                    return w.observe(o, names)
                return w.do(go)

            def call(meth, *a, **k):
                return lambda o: it.call(it.getattr(o, meth), list(a), {x: (y() if callable(y) else y) for x, y in k.items()})

            def put(n, val):
                return lambda o: it.setattr(o, n, val())
            cc = convert(w, None, 'c', typ, deg, mu, K)
            kk = convert(w, None, 'k', typ, deg, mu, Cc)
            e2 = [V('v0')] + list(K[1:])
            x2 = [V('v0')] + list(Cc[1:])
            steps = [('', (), K, Cc),
                     ('calculate_cartesian()', (call('calculate_cartesian'),), K, cc),
                     ('calculate_kepler()', (call('calculate_kepler'),), kk, Cc)]
            if on:
                steps += [('a = value', (put('a', lambda: vec('v0')),), e2, convert(w, None, 'c', typ, deg, mu, e2)),
                          ('x = value', (put('x', lambda: vec('v0')),), convert(w, None, 'k', typ, deg, mu, x2), x2),
                          ('update(a)', (call('update', a=lambda: vec('v0')),), e2, convert(w, None, 'c', typ, deg, mu, e2)),
                          ('update(x)', (call('update', x=lambda: vec('v0')),), convert(w, None, 'k', typ, deg, mu, x2), x2)]
            for slabel, fs, wk, wc in steps:
                key = '%s%s: %s' % (label, ', then ' + slabel if slabel else '', 'the conversion uses the new value' if slabel
                                    else 'the elements stay until a calculation')

                def one(fs=fs, wk=wk, wc=wc, key=key, m=m):
                    got = obs(*fs)
                    ck.count('changes compared')
                    check_eqv(ck, key, got['kepler'], wk, base, nm + ' kepler')
                    check_eqv(ck, key, got['cartesian'], wc, base, nm + ' cartesian')
                    check_eqv(ck, key, got['m'], [m], base, nm + ' m')
                ck.guard(key, one)
        # both at once
        if not direct:
            for n, side in (('a', 'k'), ('x', 'c')):
                key = 'update(m, %s): the elements given stay, the others follow the new mass' % n

                def both(n=n, side=side, key=key):
                    def go():
                        o = restore(hb, w.Orbit)
                        it.call(it.getattr(o, 'update'), [], {'m': vec('m2'), n: vec('v0')})
                        if not on:
                            it.call(it.getattr(o, 'calculate_cartesian' if side == 'k' else 'calculate_kepler'), [], {})
                        return w.observe(o, names)
                    got = w.do(go)
                    mu = mul(w.G, add(w.M0, m2))
                    if side == 'k':
                        k = [V('v0')] + list(K[1:])
                        c = convert(w, None, 'c', typ, deg, mu, k)
                    else:
                        c = [V('v0')] + list(Cc[1:])
                        k = convert(w, None, 'k', typ, deg, mu, c)
                    check_eqv(ck, key, got['kepler'], k, base, nm + ' kepler')
                    check_eqv(ck, key, got['cartesian'], c, base, nm + ' cartesian')
                    check_eqv(ck, key, got['m'], [m2], base, nm + ' m')
                    ck.count('changes compared')
                ck.guard(key, both)
        ck.saw(it)
    parallel(ck, [(mo, typ, deg, hist) for mo in MODES for typ in KINDS for deg in (False, True) for hist in ('k', 'c')], work)

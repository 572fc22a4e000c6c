"""C03 arrays handed out or taken in share no memory with the orbit, C04 copies
are complete and independent, C05 per-orbit storage stays aligned, C06 names
and rows agree."""
from .orbit import *
from .readonly import assignments


def reach_bufs(v, out=None, seen=None):
    """storage reachable from a value"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if id(v) in seen:
        return out
    seen.add(id(v))
    if isinstance(v, Arr):
        out[v.buf.id] = v.buf
        b = v.buf
        for m in (b.maybe or ()):
            out[m.id] = m
    elif isinstance(v, dict):
        for x in v.values():
            reach_bufs(x, out, seen)
    elif isinstance(v, (list, tuple)):
        for x in v:
            reach_bufs(x, out, seen)
    elif isinstance(v, E.Obj):
        reach_bufs(v.attrs, out, seen)
    elif isinstance(v, E.Alt):
        reach_bufs(v.a, out, seen)
        reach_bufs(v.b, out, seen)
    return out


def mutables(v, out=None):
    """mutable containers and opaque objects reachable from a value"""
    out = {} if out is None else out
    if id(v) in out:
        return out
    if isinstance(v, (dict, list)):
        out[id(v)] = v
        for x in (v.values() if isinstance(v, dict) else v):
            mutables(x, out)
    elif isinstance(v, tuple):
        for x in v:
            mutables(x, out)
    elif isinstance(v, Arr):
        out[id(v)] = v
    elif isinstance(v, E.Obj):
        out[id(v)] = v
        mutables(v.attrs, out)
        out.pop(id(v.attrs), None)
    return out


ARRAY_READS = CART + KEP + ('r', 'v', 'cartesian', 'kepler', 'true_anomaly', 'eccentric_anomaly', 'mean_anomaly',
                            'velocity', 'speed', 'period', 'mean_motion', 'apoapsis', 'periapsis', 'mean_longitude',
                            'equinoctial')


def overlap(a, b):
    """views of the same storage that have no cell in common do not matter"""
    return a.buf is b.buf


def run_alias(ck):
    def work(ck, item):
        (auto, direct), typ, deg = item
        w = Lab()
        it = w.it
        for hist in ('k', 'c', 'kx', 'ca'):
            heap = ck.guard('state', lambda: w.state(typ, deg, auto, direct, hist))
            if heap is None:
                continue
            nm = '%s/%s/%s' % (mode_name(auto, direct), typ, hist)
            for attr in ARRAY_READS:
                key = 'array returned by %s is not the storage of the orbit' % attr

                def go():
                    o = restore(heap, w.Orbit)
                    r = it.getattr(o, attr)
                    return r, reach_bufs(r), reach_bufs(o)

                def one():
                    r, rb, ob = w.do(go)
                    if not isinstance(r, Arr):
                        if rows(r) is not None:
                            ck.ok(key)
                        else:
                            ck.unknown(key, 'unknown value')
                        return
                    sh = [ob[i] for i in rb if i in ob]
                    if sh:
                        ck.bad(key, '%s: shares %s' % (nm, sh[0].origin))
                    else:
                        ck.ok(key)
                ck.guard(key, one)
                ck.count('reads')
        for hist in ('k', 'c'):
            heap = ck.guard('state', lambda: w.state(typ, deg, auto, direct, hist))
            for group, ops in assignments(w).items():
                for label, f in ops:
                    key = '%s keeps no reference to the array given' % label

                    def go():
                        o = restore(heap, w.Orbit)
                        f(o)
                        return reach_bufs(o), dict(o.attrs)

                    def one():
                        ob, attrs = w.do(go)
                        sh = [b for b in ob.values() if b.origin.startswith('param:')]
                        if sh:
                            ck.bad(key, '%s: the orbit holds %s' % (mode_name(auto, direct), sh[0].origin))
                        else:
                            ck.ok(key)
                    ck.guard(key, one)
                    ck.count('assignments')
        ck.saw(it)
    parallel(ck, [(mo, typ, deg) for mo in MODES for typ in KINDS for deg in (False, True)], work)
    w = Lab()
    it = w.it
    key = 'construction keeps no reference to the arrays given'

    def ctor():
        def go():
            o = w.new(m=vec('m'), **{nm: vec('w%d' % i) for i, nm in enumerate(KEP)})
            return reach_bufs(o)
        sh = [b for b in w.do(go).values() if b.origin.startswith('param:')]
        if sh:
            ck.bad(key, 'the orbit holds %s' % sh[0].origin)
        else:
            ck.ok(key)
    ck.guard(key, ctor)
    # two instances never share
    ck.saw(it)


COPIES = """
import copy
def c_method(orb):
    return orb.copy()
def c_copy(orb):
    return copy.copy(orb)
def c_all(orb):
    return orb[:]
"""
CACHES = ('true_anomaly', 'eccentric_anomaly', 'mean_anomaly')


def unat(sel):
    def f(n):
        if not isinstance(n, Node):
            return n
        memo = {}

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if not isinstance(x, Node) or not x.args:
                return x
            if x.id not in memo:
                if x.op == 'at' and x.args[1] is sel:
                    memo[x.id] = go(x.args[0])
                elif x.op == 'fn':
                    memo[x.id] = fn(*[go(y) for y in x.args])
                elif x.op in C.REBUILD:
                    memo[x.id] = C.REBUILD[x.op](*[go(y) for y in x.args])
                else:
                    memo[x.id] = mk(x.op, *[go(y) for y in x.args])
            return memo[x.id]
        return go(n)
    return f


def run_copy(ck):
    w = Lab()
    it = w.it
    m = it.load_source('snippet', COPIES)
    isel = mk('sel', 'u')
    mksel = lambda: fresh((), N, {(): isel}, 'b')
    ways = [('copy()', lambda o: it.call(m.ns['c_method'], [o], {}), None, N),
            ('copy.copy', lambda o: it.call(m.ns['c_copy'], [o], {}), None, N),
            ('orb[:]', lambda o: it.call(m.ns['c_all'], [o], {}), None, N),
            ('orb[mask]', lambda o: it.getitem(o, mksel()), isel, ('sub', N, isel)),
            ('orb[slice]', lambda o: it.getitem(o, slice(None, 3)), mk('sel', 'slice', None, 3, None), None),
            ('orb[number]', lambda o: it.getitem(o, V('j')), 'index', UNIT)]

    def iterate(o):
        return it.run_generator(it.call(it.getattr(o, '__iter__'), [], {}))[-1]
    ways.append(('iteration', iterate, 'iter', UNIT))
    def work(ck, item):
        (auto, direct), typ, hist, deg = item
        epoch = [V('t0')]
        heap = w.state(typ, deg, auto, direct, hist, epoch=epoch,
                       solver_options=dict(tol=V('tol'), max_iter=V('mi')),
                       kepler_read_only=(hist != 'kx'), cartesian_read_only=(hist != 'ca'))
        hb, base = open_flags(heap)
        nm = '%s/%s/%s' % (mode_name(auto, direct), typ, hist)
        for label, f, sel, space in ways:
            ck.guard('%s is complete' % label, copy_one, ck, w, label, f, sel, space, hb, base, nm)
            ck.count('copies')
        ck.saw(it)
    parallel(ck, [(mo, typ, hist, deg) for mo in MODES for typ in KINDS for hist in ('k', 'c', 'kx', 'ca', '0')
                  for deg in ((False, True) if ck.tier == 'thorough' else (mo[0],))], work)


def copy_one(ck, w, label, f, sel, space, hb, base, nm):
    it = w.it

    def go():
        o = restore(hb, w.Orbit)
        pre = {k: (dict(v) if isinstance(v, dict) else v) for k, v in o.attrs.items()}
        prekey = snap(o).key()
        c = f(o)
        return (None, c, reach_bufs(o), reach_bufs(c),
                mutables(o), mutables(c), w.config(o), w.config(c), snap(o).key() == prekey)
    _, c, ob, cb, om, cm, oc, cc, unchanged = w.do(go)
    key = '%s returns an orbit' % label
    if not (isinstance(c, E.Obj) and c.cls is w.Orbit):
        ck.bad(key, 'returns %s' % type(c).__name__)
        return
    ck.ok(key)
    ck.verdict('%s does not change the source' % label, unchanged or None, text_unknown='internal state differs')
    key = '%s is independent of the source' % label
    sh = [ob[i].origin for i in ob if i in cb]
    mu = [v for i, v in om.items() if i in cm and not isinstance(v, Arr)]
    if sh or mu:
        ck.bad(key, '%s: shares %s' % (nm, sh or [type(x).__name__ for x in mu]))
    else:
        ck.ok(key)
    for a in CONFIG:
        key = '%s keeps %s' % (label, a)
        if oc[a] == cc[a]:
            ck.ok(key)
        else:
            ck.bad(key, '%s: %s instead of %s' % (nm, cc[a], oc[a]))
    # what can be read, immediately and after writes
    def reads(obj_of, norm=None, then=None):
        out = {}
        for seq in (('m', 'cartesian', 'kepler'), ('mean_anomaly',), ('eccentric_anomaly',), ('true_anomaly',)):
            def g():
                o = obj_of(restore(hb, w.Orbit))
                if then:
                    # read only flags are symbolic here
                    it.setattr(o, 'kepler_read_only', False)
                    it.setattr(o, 'cartesian_read_only', False)
                    it.setattr(o, then, V('v0'))
                return w.observe(o, seq)
            out.update(w.do(g))
        return out
    selnode = {}
    if sel == 'index':
        fixed = mk('sel', 'index', V('j'))
    elif sel == 'iter':
        fixed = None
        for v in reads(f).get('m', []):
            if isinstance(v, Node) and v.op == 'at':
                fixed = v.args[1]
    else:
        fixed = None
    norm = unat(fixed) if fixed is not None else None
    if not hasattr(hb, 'cache'):
        hb.cache = {}
    for then in (None, 'x', 'a', 'true_anomaly'):
        if then not in hb.cache:
            hb.cache[then] = reads(lambda o: o, None, then)
        ob_ = hb.cache[then]
        cb_ = reads(f, None, then)
        what = 'what can be read' if then is None else 'behaviour after %s is set' % then
        key = '%s: %s is that of the source' % (label, what)
        b2 = dict(base)
        if isinstance(sel, Node):
            b2[sel.id] = True
        for a in ob_:
            x, y = cb_[a], ob_[a]
            if isinstance(x, list) and isinstance(y, list):
                if norm:
                    x = [norm(t) for t in x]
                # all objects versus the selected ones only: a reduction over
                # either decides nothing about this object
                v, t = eqv(x, y, b2)
            else:
                v, t = x == y, '%s instead of %s' % (x, y)
            ck.verdict(key, v, '%s: %s: %s' % (nm, a, t), '%s: %s' % (a, t))
    # extent
    key = '%s has the extent of the selection' % label
    def ext():
        o = f(restore(hb, w.Orbit))
        return {k: v.space for k, v in o.attrs.items() if isinstance(v, Arr)}, it.getattr(o, 'num')
    sp, num = w.do(ext)
    if len(set(map(str, sp.values()))) != 1:
        ck.bad(key, '%s: extents differ: %s' % (nm, sp))
    elif space is not None:
        ck.verdict(key, set(sp.values()) == {space} and same(num, size_of(space)), '%s: %s' % (nm, sp))
    else:
        ck.ok(key)


# ------------------------------------------------------------------ C05

def spaces(o):
    return {k: v.space for k, v in o.attrs.items() if isinstance(v, Arr)}


def dtypes(o):
    return {k: v.buf.dtype for k, v in o.attrs.items() if isinstance(v, Arr)}


def run_align(ck):
    w = Lab()
    it = w.it
    isel = mk('sel', 'u')
    num = V('num')
    alloc = ('alloc', num)
    dts = [('f', None), ('f4', E.NpVal('numpy.float32'))]
    mksel = lambda: fresh((), N, {(): isel}, 'b')
    kinds = {}

    def addk(*names, **kw):
        return lambda o: it.call(it.getattr(o, 'add'), [], dict(
            {k: vec('q_' + k, alloc) for k in names}, num=num, **kw))
    steps = [
        ('allocate', lambda o: it.call(it.getattr(o, 'allocate'), [num], {})),
        ('delete(mask)', lambda o: it.call(it.getattr(o, 'delete'), [mksel()], {})),
        ('delete(list)', lambda o: it.call(it.getattr(o, 'delete'), [[0, 2]], {})),
        ('delete(number)', lambda o: it.call(it.getattr(o, 'delete'), [V('j')], {})),
        ('add(kepler)', addk(*KEP)), ('add(cartesian)', addk(*CART)), ('add(a)', addk('a')), ('add()', addk()),
        ('add(m)', lambda o: it.call(it.getattr(o, 'add'), [], dict(num=num, m=vec('q_m', alloc)))),
        ('add(m, kepler)', lambda o: it.call(it.getattr(o, 'add'), [], dict(
            {k: vec('q_' + k, alloc) for k in KEP}, num=num, m=vec('q_m', alloc)))),
        ('update(inds)', lambda o: it.call(it.getattr(o, 'update'), [], dict(inds=mksel(), a=1.0))),
        ('calculate_cartesian', lambda o: it.call(it.getattr(o, 'calculate_cartesian'), [mksel()], {})),
        ('calculate_kepler', lambda o: it.call(it.getattr(o, 'calculate_kepler'), [mksel()], {})),
        ('calc_true_anomaly', lambda o: it.call(it.getattr(o, 'calc_true_anomaly'), [mksel()], {})),
        ('calc_eccentric_anomaly', lambda o: it.call(it.getattr(o, 'calc_eccentric_anomaly'), [mksel()], {})),
        ('calc_mean_anomaly', lambda o: it.call(it.getattr(o, 'calc_mean_anomaly'), [mksel()], {})),
        ('propagate', lambda o: it.call(it.getattr(o, 'propagate'), [V('dt')], {})),
        ('x = value', lambda o: it.setattr(o, 'x', vec('v0'))),
        ('cartesian = value', lambda o: it.setattr(o, 'cartesian', mat(6, 'w'))),
        ('kepler = value', lambda o: it.setattr(o, 'kepler', mat(6, 'w'))),
        ('equinoctial = value', lambda o: it.setattr(o, 'equinoctial', mat(6, 'w'))),
        ('eccentric_anomaly = value', lambda o: it.setattr(o, 'eccentric_anomaly', vec('v0'))),
        ('type = mean', lambda o: it.setattr(o, 'type', 'mean')),
        ('type = true', lambda o: it.setattr(o, 'type', 'true')),
        ('type = eccentric', lambda o: it.setattr(o, 'type', 'eccentric')),
    ]
    def work(ck, item):
        (auto, direct), typ, hist, (dt, dtv) = item
        kw = {'dtype': dtv} if dtv is not None else {}
        heap = w.state(typ, False, auto, direct, hist, **kw)
        hb, base = open_flags(heap)
        nm = '%s/%s/%s' % (mode_name(auto, direct), typ, hist)
        for label, f in steps:
            ck.guard('%s keeps the storage aligned' % label, align_one, ck, w, label, f, hb, base, nm,
                     dt, isel, num, dict(auto=auto, direct=direct, typ=typ))
            ck.count('steps')
        ck.saw(it)
    parallel(ck, [(mo, typ, hist, d) for mo in MODES for typ in KINDS for hist in ('k', 'c', 'kx') for d in dts],
             work)


def align_one(ck, w, label, f, hb, base, nm, dt, isel, num, cfg):
    it = w.it

    def go():
        o = restore(hb, w.Orbit)
        f(o)
        evs = [e for e in it.events if e['kind'] in ('space_mismatch', 'axis_mismatch') and e.get('definite', True)]
        sp, dd = spaces(o), dtypes(o)
        reads = {}
        for a in ELEMENT_READS + ('m',):
            r = it.getattr(o, a)
            reads[a] = (rows(r), r.buf.dtype if isinstance(r, Arr) else None)
        return sp, dd, it.getattr(o, 'num'), reads, evs, it.call(it.load_source('l', 'def l(o):\n return len(o)').ns['l'], [o], {})
    key = '%s: all per orbit values keep the same extent' % label
    try:
        sp, dd, n, reads, evs, ln = w.do(go)
    except PyRaise as e:
        ck.bad(key, '%s: raises %s' % (nm, e.exc))
        return
    want = None
    if label == 'allocate':
        want = ('alloc', num)
    elif label.startswith('add'):
        want = 'cat'
    elif label == 'delete(mask)':
        want = (('sub', N, not_(isel)), ('del', N, isel))
    elif not label.startswith('delete'):
        want = N
    names = {str(s) for s in sp.values()}
    if len(names) != 1:
        ck.bad(key, '%s: %s' % (nm, {k: str(s) for k, s in sp.items()}))
    elif evs:
        ck.bad(key, '%s: values of %s stored for %s' % (nm, evs[0].get('a', evs[0].get('shape')), evs[0].get('b', evs[0].get('space'))))
    else:
        s = next(iter(sp.values()))
        if want == 'cat':
            v = isinstance(s, tuple) and s[0] == 'cat' and s[1] == N and same(s[2], num) if len(s) == 3 else None
            ck.verdict(key, v, '%s: extent is %s' % (nm, s))
        elif want is not None:
            ck.verdict(key, s == want or s in want, '%s: extent is %s' % (nm, s))
        else:
            ck.ok(key)
        ck.verdict('%s: num and len are the number of orbits' % label,
                   (same(n, size_of(s)) and same(ln, size_of(s))) or (None if has_op(n, ('unk',)) else False),
                   '%s: %s, %s instead of %s' % (nm, show(n), show(ln), show(size_of(s))))
    key = '%s: the floating type chosen is kept' % label
    wrong = {k: d for k, d in dd.items() if d != dt and d != 'b'}
    if wrong:
        ck.bad(key, '%s: %s' % (nm, wrong))
    else:
        ck.ok(key)
    for a in ('cartesian', 'kepler', 'm', 'a', 'x'):
        r = reads[a]
        if r[1] is not None and r[1] != dt:
            ck.bad(key, '%s: %s has type %s' % (nm, a, r[1]))
    # contents
    key = '%s: other values are kept, new ones are empty' % label
    if label == 'allocate':
        for a in CART + KEP + ('true_anomaly', 'eccentric_anomaly', 'mean_anomaly'):
            v = reads[a][0][0]
            bad = not (isinstance(v, Node) and (v.op == 'nan' or always_nan(v, base)))
            if bad:
                ck.verdict(key, False if plain(v) else None, '%s: %s is %s' % (nm, a, show(v)))
            else:
                ck.ok(key)
        v = reads['m'][0][0]
        ck.verdict(key, v == 0, '%s: mass is %s' % (nm, show(v)))
    elif label.startswith('add'):
        given = {'add(kepler)': KEP, 'add(cartesian)': CART, 'add(a)': ('a',), 'add()': (), 'add(m)': (),
                 'add(m, kepler)': KEP}[label]
        isnew = mk('isnew', next(iter(sp.values())))

        def before():
            o = restore(hb, w.Orbit)
            return {a: rows(it.getattr(o, a)) for a in ELEMENT_READS + ('m',)}
        old = w.do(before)
        for a in ELEMENT_READS + ('m',):
            x, y = reads[a][0], old[a]
            v, t = eqv(x, y, {**base, isnew.id: False})
            ck.verdict('%s: orbits that were there are kept' % label, v, '%s: %s: %s' % (nm, a, t), '%s: %s' % (a, t))
        x = reads['m'][0][0]
        want_m = V('q_m') if '(m' in label else 0
        v, t = eqv([x], [want_m], {**base, isnew.id: True})
        ck.verdict('%s: mass of the new orbits' % label, v, '%s: %s' % (nm, t), t)
        full = len(given) == 6
        for a in CART + KEP:
            x = reads[a][0][0]
            if a in given:
                v, t = eqv([x], [V('q_' + a)], {**base, isnew.id: True})
            elif full:
                continue
            else:
                v, t = eqv([x], [NAN], {**base, isnew.id: True})
            ck.verdict(key, v, '%s: %s of a new orbit: %s' % (nm, a, t), t)
    elif label.startswith('delete'):
        def before():
            o = restore(hb, w.Orbit)
            return {a: rows(it.getattr(o, a)) for a in ELEMENT_READS + ('m',)}
        old = w.do(before)
        b2 = dict(base)
        if label == 'delete(mask)':
            b2[isel.id] = False
        else:
            s = next(iter(sp.values()))
            if isinstance(s, tuple) and s[0] == 'sub':
                d = s[2]
                while isinstance(d, Node) and d.op == 'not':
                    d = d.args[0]
                if isinstance(d, Node):
                    b2[d.id] = False
        for a in ELEMENT_READS + ('m',):
            v, t = eqv(reads[a][0], old[a], b2)
            ck.verdict('%s: the orbits that stay are kept' % label, v, '%s: %s: %s' % (nm, a, t), '%s: %s' % (a, t))


def always_nan(v, base):
    for table, ts, ass in cases([v], base):
        if not (isinstance(ts[0], Node) and ts[0].op == 'nan'):
            return False
    return True


# ------------------------------------------------------------------ C06

def run_names(ck):
    """names and rows agree, for reading and for every way of writing"""
    def work(ck, item):
        (names, group, pre), (auto, direct), typ, deg = item
        w = Lab()
        it = w.it
        isel = mk('sel', 'u')
        sub = ('sub', N, isel)
        alloc = ('alloc', V('num'))
        heap = ck.guard('state', lambda: w.state(typ, deg, auto, direct, pre))
        if heap is None:
            return
        full = [V('%s%d' % (pre, i)) for i in range(6)]
        nm = '%s/%s' % (mode_name(auto, direct), typ)

        def rd(key, f, read, want, h=heap, base={}):
            def go():
                o = restore(h, w.Orbit)
                r = f(o)
                o = r if isinstance(r, E.Obj) else o
                return rows(it.getattr(o, read))

            def one():
                try:
                    got = w.do(go)
                except PyRaise as e:
                    ck.bad(key, '%s: raises %s' % (nm, e.exc))
                    return
                v, t = eqv(got, want, base)
                ck.verdict(key, v, '%s: %s reads %s' % (nm, read, t), t)
            ck.guard(key, one)
        rd('%s shows the rows in documented order' % group, lambda o: None, group, full)
        for i, a in enumerate(names):
            rd('reading %s gives its row' % a, lambda o: None, a, [full[i]])
            new = list(full)
            new[i] = V('v0')
            rd('assigning %s sets its row only' % a, lambda o: it.setattr(o, a, vec('v0')), group, new)
            rd('update(%s) sets its row only' % a,
               lambda o: it.call(it.getattr(o, 'update'), [], {a: vec('v0')}), group, new)
            rd('update(inds, %s) sets its row only' % a,
               lambda o: it.call(it.getattr(o, 'update'), [], {'inds': fresh((), N, {(): isel}, 'b'),
                                                               a: vec('v0', sub)}), group, new,
               base={isel.id: True})
            two = list(new)
            j = (i + 2) % 6
            two[j] = V('v1')
            rd('update of two elements sets both rows (%s)' % a,
               lambda o: it.call(it.getattr(o, 'update'), [], {a: vec('v0'), names[j]: vec('v1')}), group, two)
        if pre == 'c':
            rd('r is the position', lambda o: None, 'r', full[:3])
            rd('v is the velocity', lambda o: None, 'v', full[3:])
            rd('assigning r sets the position', lambda o: it.setattr(o, 'r', mat(3, 'w')), group,
               [V('w0'), V('w1'), V('w2')] + full[3:])
            rd('assigning v sets the velocity', lambda o: it.setattr(o, 'v', mat(3, 'w')), group,
               full[:3] + [V('w0'), V('w1'), V('w2')])
        rd('assigning %s sets all rows' % group, lambda o: it.setattr(o, group, mat(6, 'w')), group,
           [V('w%d' % i) for i in range(6)])
        rd('assigning one vector to %s sets all objects' % group,
           lambda o: it.setattr(o, group, mat(6, 'w', None)), group, [V('w%d' % i) for i in range(6)])
        rd('update(%s) sets all rows' % group,
           lambda o: it.call(it.getattr(o, 'update'), [], {group: mat(6, 'w')}), group,
           [V('w%d' % i) for i in range(6)])
        rd('add(elements) sets the rows by name (%s)' % group,
           lambda o: it.call(it.getattr(o, 'add'), [], dict(
               {n: vec('q%d' % i, alloc) for i, n in enumerate(names)}, num=V('num'))), group,
           [V('q%d' % i) for i in range(6)],
           base={mk('isnew', ('cat', N, V('num'))).id: True})
        rd('construction sets the rows by name (%s)' % group,
           lambda o: w.new(auto_update=auto, direct_update=direct, type=typ, degrees=deg,
                           **{n: vec('q%d' % i) for i, n in enumerate(names)}), group,
           [V('q%d' % i) for i in range(6)])
        ck.saw(it)
    parallel(ck, [(g, mo, typ, deg) for g in ((CART, 'cartesian', 'c'), (KEP, 'kepler', 'k')) for mo in MODES
                  for typ in KINDS for deg in (False, True)], work)
    w = Lab()
    it = w.it
    # the documented lists
    for lst, want in (('CARTESIAN', CART), ('KEPLER', KEP), ('EQUINOCTIAL', ('a', 'h', 'k', 'p', 'q', 'l')),
                      ('ANOMALY', KINDS)):
        key = 'Orbit.%s is the documented list' % lst

        def one():
            v = it.getattr(w.Orbit, lst)
            ck.verdict(key, isinstance(v, (list, tuple)) and tuple(v) == tuple(want), 'is %s' % (v,))
        ck.guard(key, one)
    ck.saw(it)

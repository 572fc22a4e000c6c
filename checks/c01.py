"""Two representations, one orbit: product of the abstract orbit with a small
reference state machine, explored to a fixed point."""
from .orbit import *
import os


class Spec:
    """what a user may rely on for one object of the instance.
    auth: 'k' or 'c' - the representation set last, `syn`: the other one has
    been brought up to date since."""
    __slots__ = ('auth', 'syn', 'typ', 'deg', 'auto', 'direct', 'K', 'C', 'mu')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return Spec(**d)

    @property
    def on(self):
        return self.auto or self.direct

    def key(self):
        return (self.auth, self.syn, self.typ, self.deg, self.auto, self.direct)

    def __str__(self):
        mode = {(True, True): 'auto+direct', (True, False): 'auto', (False, True): 'direct',
                (False, False): 'manual'}[(self.auto, self.direct)]
        return '%s/%s/%s%s/%s' % (mode, self.typ, 'deg' if self.deg else 'rad',
                                  '/synced' if self.syn else '',
                                  {'k': 'kepler set last', 'c': 'cartesian set last'}[self.auth])

    def true_row(self):
        return simp1(mk('anom', 'true', self.typ, self.K[5], self.K[1], self.deg))

    def kep(self):
        """expected Kepler rows, None where nothing is promised"""
        if self.auth == 'k':
            return self.K
        if not (self.on or self.syn):
            return None
        rows = [simp1(mk('c2k', i, tuple(self.C), (self.deg, self.mu))) for i in range(6)]
        rows[5] = simp1(mk('anom', self.typ, 'true', rows[5], rows[1], self.deg))
        return tuple(rows)

    def cart(self):
        if self.auth == 'c':
            return self.C
        if not (self.on or self.syn):
            return None
        rows = tuple(self.K[:5]) + (self.true_row(),)
        return tuple(simp1(mk('k2c', i, rows, (self.deg, self.mu))) for i in range(6))

    def anomaly(self, kind):
        k = self.kep()
        if k is None:
            return None
        return simp1(mk('anom', kind, self.typ, k[5], k[1], self.deg))


TK = tuple(V('k%d' % i) for i in range(6))
TT = tuple(V('t%d' % i) for i in range(6))
TC = tuple(V('c%d' % i) for i in range(6))
STALE = V('s')
STALE_OK = ('m', 'G', 'M0')


class Explorer:
    def __init__(self, ck, tier):
        self.ck, self.tier = ck, tier
        self.w = World()
        self.it = self.w.it
        self.states = {}
        self.todo = []
        self.transitions = 0
        self.reads = 0
        self.seen_ops = set()

    # ---------------------------------------------------------- states
    def canon(self, spec, heap):
        """rename the authoritative terms to tokens and everything else to
        stale tokens; returns (spec, heap, key)"""
        table = {}
        if spec.auth == 'k':
            src, fin = spec.K, TK
        else:
            src, fin = spec.C, TC
        tok = TT
        for t, k in zip(src, tok):
            if not isinstance(t, Node):
                raise Unsupported('constant element')
            if t.op != 'anom':
                table.setdefault(t.id, k)
        for i, t in enumerate(src):
            if t.op == 'anom':
                table.setdefault(t.id, tok[i])
                y = t.args[2]
                if isinstance(y, Node) and y.id not in table:
                    e = subst(t.args[3], table)
                    table[y.id] = mk('anom', t.args[1], t.args[0], tok[i], e, t.args[4])
        if isinstance(spec.mu, Node):
            pass
        final = {a.id: b for a, b in zip(tok, fin)}
        tok = fin

        def strip(n):
            return subst(subst(n, table, memo), final, memo2)
        memo, memo2 = {}, {}
        heap = heap.map(strip)
        # everything that is not a function of the tokens is stale
        keep = {x.id for x in (TK if spec.auth == 'k' else TC)} | {V(s).id for s in STALE_OK}
        for sshape, sp, cells, dt in heap.bufs:
            if dt == 'b':
                continue
            for k in sorted(cells):
                v = cells[k]
                if isinstance(v, Node) and v.op != 'nan' and (
                        any(l.id not in keep for l in leaves(v)) or not self.plain(v)):
                    cells[k] = STALE
        # space: whatever the objects were, they are the objects now
        spaces = {sp for _, sp, _, _ in heap.bufs if sp is not None and sp != UNIT}
        if len(spaces) == 1 and spaces != {N}:
            heap = self.rename_space(heap, spaces.pop())
        spec = spec.but(K=tok if spec.auth == 'k' else None, C=tok if spec.auth == 'c' else None)
        return spec, heap, (spec.key(), heap.key())

    def plain(self, v):
        return all(x.op in ('var', 'k2c', 'c2k', 'anom', 'k2e', 'e2k', 'mul', 'add')
                   for x in subterms(v).values())

    @staticmethod
    def rename_space(heap, sp):
        h = Heap()
        for k, e in heap.attrs.items():
            if e[0] == 'arr':
                e = e[:4] + (N if e[4] == sp else e[4],)
            h.attrs[k] = e
        h.bufs = [(s, N if x == sp else x, c, d) for s, x, c, d in heap.bufs]
        return h

    def push(self, spec, heap, how):
        spec, heap, key = self.canon(spec, heap)
        if key not in self.states:
            self.states[key] = (spec, heap, how)
            self.todo.append(key)
        return key

    def open(self, heap):
        """heap with the booleans of the generic object as flags: other
        objects of the instance may be in any state"""
        base = {}
        h = Heap()
        h.attrs = heap.attrs
        h.bufs = []
        n = 0
        for sshape, sp, cells, dt in heap.bufs:
            if dt == 'b':
                new = {}
                for k, v in cells.items():
                    if isinstance(v, bool):
                        f = mk('var', 'flag%d' % n, 'finite', 'flag')
                        n += 1
                        base[f.id] = v
                        new[k] = f
                    else:
                        new[k] = v
                cells = new
            h.bufs.append((sshape, sp, cells, dt))
        return h, base

    # ---------------------------------------------------------- comparison
    def known_ops(self, n):
        return all(x.op in ('var', 'k2c', 'c2k', 'anom', 'k2e', 'e2k', 'add', 'mul', 'neg', 'div', 'nan',
                            'where', 'mod', 'pi') for x in subterms(n).values()) if isinstance(n, Node) else True

    def same(self, got, want):
        if same(got, want):
            return True
        if got is None:
            return None
        if isinstance(got, Node) and has_op(got, ('unk', 'loopout', 'phi', 'uninit', 'where')):
            return None
        if not self.known_ops(got):
            return None
        return decide(got, want)

    def stale(self, n, spec):
        keep = {x.id for x in (TK if spec.auth == 'k' else TC)} | {V(s).id for s in STALE_OK}
        return [l for l in leaves(n) if l.id not in keep] if isinstance(n, Node) else []

    # ---------------------------------------------------------- reads
    READS = None

    def expectations(self, spec):
        """[(read name, function(obj) -> value, expected rows or None, depends)]"""
        it = self.it
        ga = lambda nm: (lambda o: it.getattr(o, nm))
        out = []
        cart, kep = spec.cart(), spec.kep()
        for i, nm in enumerate(CART):
            out.append((nm, ga(nm), [cart[i]] if cart else None))
        out.append(('r', ga('r'), list(cart[:3]) if cart else None))
        out.append(('v', ga('v'), list(cart[3:]) if cart else None))
        out.append(('cartesian', ga('cartesian'), list(cart) if cart else None))
        for i, nm in enumerate(KEP):
            out.append((nm, ga(nm), [kep[i]] if kep else None))
        out.append(('kepler', ga('kepler'), list(kep) if kep else None))
        for kind in KINDS:
            a = spec.anomaly(kind)
            out.append((kind + '_anomaly', ga(kind + '_anomaly'), [a] if a is not None else None))
        if kep:
            M = spec.anomaly('mean')
            rows = tuple(kep[:5]) + (M,)
            out.append(('equinoctial', ga('equinoctial'),
                        [simp1(mk('k2e', i, rows, (spec.deg,))) for i in range(6)]))
            out.append(('mean_longitude', ga('mean_longitude'),
                        [add(add(M, kep[3]), kep[4])]))
        if kep:
            for nm in ('period', 'mean_motion', 'apoapsis', 'periapsis', 'speed'):
                out.append((nm, ga(nm), 'fresh'))
        if cart:
            out.append(('velocity', ga('velocity'), 'fresh'))
        return out

    def check_state(self, spec, heap, how):
        ck, it = self.ck, self.it
        h, base = self.open(heap)
        for nm, read, want in self.expectations(spec):
            if want is None:
                continue
            self.reads += 1
            key = 'read %s: shows the orbit set last' % nm

            def go():
                o = restore(h, self.w.Orbit)
                r = self.norm(read(o))
                return r, snap(o)
            try:
                r, post = self.w.do(go)
            except Unsupported as e:
                ck.unknown(key, str(e))
                continue
            except PyRaise as e:
                ck.bad(key, 'reading %s raises %r in state %s (reached by %s)' % (nm, e.exc, spec, how))
                continue
            if not isinstance(r, list):
                ck.unknown(key, 'unknown value')
                continue
            for table, ts in split(r, base):
                if want == 'fresh':
                    st = [s for t in ts for s in self.stale(t, spec)]
                    if st:
                        ck.bad(key, '%s depends on an outdated value in state %s (reached by %s): %s' % (
                            nm, spec, how, [show(t) for t in ts]))
                    else:
                        ck.ok(key)
                    continue
                if len(ts) != len(want):
                    ck.unknown(key, 'shape')
                    continue
                for g, wv in zip(ts, want):
                    v = self.same(g, wv)
                    if v is None and self.stale(g, spec):
                        v = False
                    ck.verdict(key, v, 'state %s (reached by %s): got %s, expected %s' % (
                        spec, how, show(g), show(wv)), 'got %s, expected %s' % (show(g), show(wv)))

    def norm(self, r):
        if isinstance(r, Arr):
            return [r.get(k) for k in C.static_indices(r.sshape)]
        if isinstance(r, (Node, int, float)):
            return [r]
        return r

    # ---------------------------------------------------------- operations
    def ops(self, spec):
        """[(label, run(obj) -> next object or None, post)]; post(case, readback) -> Spec"""
        it, w = self.it, self.w
        on, out = spec.on, []
        kok = spec.auth == 'k' or on or spec.syn
        cok = spec.auth == 'c' or on or spec.syn

        def seta(nm, val):
            return lambda o: it.setattr(o, nm, val())

        def setrow(side, i, v):
            def post(sel, rb):
                if side == 'k':
                    K = list(spec.kep())
                    K[i] = v
                    return spec.but(auth='k', K=tuple(K), C=None, syn=spec.direct)
                C_ = list(spec.cart())
                C_[i] = v
                return spec.but(auth='c', C=tuple(C_), K=None, syn=spec.direct)
            return post

        def setrows(side, rows):
            def post(sel, rb):
                if side == 'k':
                    K = list(spec.kep() or [None] * 6)
                    for i, v in rows.items():
                        K[i] = v
                    return spec.but(auth='k', K=tuple(K), C=None, syn=spec.direct)
                C_ = list(spec.cart() or [None] * 6)
                for i, v in rows.items():
                    C_[i] = v
                return spec.but(auth='c', C=tuple(C_), K=None, syn=spec.direct)
            return post
        v0 = V('v0')
        val = lambda: vec('v0')
        if cok:
            for i, nm in enumerate(CART):
                out.append(('%s = value' % nm, seta(nm, val), setrow('c', i, v0)))
            for nm, a in (('r', 0), ('v', 3)):
                out.append(('%s = value' % nm, seta(nm, lambda: mat(3, 'w')),
                            setrows('c', {a + j: V('w%d' % j) for j in range(3)})))
            out.append(('velocity = value', seta('velocity', val), ('readback', 'c', (3, 4, 5))))
        out.append(('cartesian = value', seta('cartesian', lambda: mat(6, 'w')),
                    setrows('c', {j: V('w%d' % j) for j in range(6)})))
        out.append(('kepler = value', seta('kepler', lambda: mat(6, 'w')),
                    setrows('k', {j: V('w%d' % j) for j in range(6)})))
        if kok:
            for i, nm in enumerate(KEP):
                out.append(('%s = value' % nm, seta(nm, val), setrow('k', i, v0)))
            for kind in KINDS:
                def post(sel, rb, kind=kind):
                    K = list(spec.kep())
                    K[5] = simp1(mk('anom', spec.typ, kind, v0, K[1], spec.deg))
                    return spec.but(auth='k', K=tuple(K), C=None, syn=spec.direct)
                out.append(('%s_anomaly = value' % kind, seta(kind + '_anomaly', val), post))
            out.append(('period = value', seta('period', val), ('readback', 'k', (0,))))
            out.append(('mean_motion = value', seta('mean_motion', val), ('readback', 'k', (0,))))
            out.append(('propagate', lambda o: it.call(it.getattr(o, 'propagate'), [V('dt')], {}) and None,
                        ('readback', 'k', (5,))))

            for t in KINDS:
                def post(sel, rb, t=t):
                    if spec.auth == 'c':
                        return spec.but(typ=t)
                    K = list(spec.K)
                    K[5] = simp1(mk('anom', t, spec.typ, K[5], K[1], spec.deg))
                    return spec.but(typ=t, K=tuple(K))
                out.append(('type = %s' % t, (lambda o, t=t: it.setattr(o, 'type', t)), post))

        def equi_post(sel, rb):
            rows = [mk('e2k', i, tuple(V('w%d' % j) for j in range(6)), (spec.deg,)) for i in range(6)]
            rows[5] = simp1(mk('anom', spec.typ, 'mean', rows[5], rows[1], spec.deg))
            return spec.but(auth='k', K=tuple(rows), C=None, syn=spec.direct)
        out.append(('equinoctial = value', seta('equinoctial', lambda: mat(6, 'w')), equi_post))

        # update of a selection
        sel = mk('sel', 'u')
        isel = lambda: fresh((), N, {(): sel}, 'b')
        ssp = ('sub', N, sel)

        def upd(kw):
            return lambda o: it.call(it.getattr(o, 'update'), [], dict(inds=isel(), **kw()))

        def partial(post):
            return lambda case, rb: post(case, rb) if case.get(sel.id, True) else spec
        if cok:
            for i, nm in ((0, 'x'), (5, 'vz')):
                out.append(('update(inds, %s)' % nm,
                            upd(lambda nm=nm: {nm: vec('v0', ssp)}), partial(setrow('c', i, v0))))
            out.append(('update(inds, y, vx)',
                        upd(lambda: {'y': vec('w1', ssp), 'vx': vec('w3', ssp)}),
                        partial(setrows('c', {1: V('w1'), 3: V('w3')}))))
        if kok:
            for i, nm in ((0, 'a'), (5, 'anom')):
                out.append(('update(inds, %s)' % nm,
                            upd(lambda nm=nm: {nm: vec('v0', ssp)}), partial(setrow('k', i, v0))))
            out.append(('update(inds, e, Omega)',
                        upd(lambda: {'e': vec('w1', ssp), 'Omega': vec('w4', ssp)}),
                        partial(setrows('k', {1: V('w1'), 4: V('w4')}))))
        out.append(('update(inds, cartesian)', upd(lambda: {'cartesian': mat(6, 'w', ssp)}),
                    partial(setrows('c', {j: V('w%d' % j) for j in range(6)}))))
        out.append(('update(inds, kepler)', upd(lambda: {'kepler': mat(6, 'w', ssp)}),
                    partial(setrows('k', {j: V('w%d' % j) for j in range(6)}))))
        # explicit conversion
        if spec.auth == 'k' or on or spec.syn:
            if spec.auth == 'k' or spec.syn:
                out.append(('calculate_cartesian()', lambda o: it.call(it.getattr(o, 'calculate_cartesian'), [], {}),
                            lambda s, rb: spec.but(syn=True)))
            if spec.auth == 'c' or spec.syn:
                out.append(('calculate_kepler()', lambda o: it.call(it.getattr(o, 'calculate_kepler'), [], {}),
                            lambda s, rb: spec.but(syn=True)))
        elif spec.auth == 'c':
            out.append(('calculate_kepler()', lambda o: it.call(it.getattr(o, 'calculate_kepler'), [], {}),
                        lambda s, rb: spec.but(syn=True)))
        for f in ('true', 'mean', 'eccentric'):
            if kok:
                out.append(('calc_%s_anomaly()' % f,
                            lambda o, f=f: it.call(it.getattr(o, 'calc_%s_anomaly' % f), [], {}),
                            lambda s, rb: spec.but(syn=spec.syn or (on and spec.auth == 'c'))))
        # reading is an operation as well
        for nm in ('x', 'cartesian', 'r', 'velocity'):
            if cok:
                out.append(('read %s' % nm, lambda o, nm=nm: it.getattr(o, nm) and None,
                            lambda s, rb: spec.but(syn=spec.syn or (on and spec.auth == 'k'))))
        for nm in ('a', 'kepler', 'true_anomaly', 'eccentric_anomaly', 'mean_anomaly'):
            if kok:
                out.append(('read %s' % nm, lambda o, nm=nm: it.getattr(o, nm) and None,
                            lambda s, rb: spec.but(syn=spec.syn or (on and spec.auth == 'c'))))
        # modes
        for nm in ('auto', 'direct'):
            out.append(('%s_update = %s' % (nm, not getattr(spec, nm)),
                        lambda o, nm=nm: it.setattr(o, nm + '_update', not getattr(spec, nm)),
                        lambda s, rb, nm=nm: spec.but(**{nm: not getattr(spec, nm)})))
        # other instances with the same content
        out.append(('copy()', lambda o: it.call(it.getattr(o, 'copy'), [], {}), lambda s, rb: spec))
        out.append(('orb[mask]', lambda o: it.getitem(o, isel()), lambda s, rb: spec))

        def add_(o):
            it.call(it.getattr(o, 'add'), [], dict(num=V('num'), m=vec('m', ('alloc', V('num'))), **{
                nm: vec('w%d' % i, ('alloc', V('num'))) for i, nm in enumerate(KEP)}))

        def add_post(case, rb):
            if rb == 'new':
                return spec.but(auth='k', K=tuple(V('w%d' % i) for i in range(6)), C=None, syn=spec.direct)
            return spec
        out.append(('add(elements)', add_, add_post))
        out.append(('delete(selection)', lambda o: it.call(it.getattr(o, 'delete'), [isel()], {}), lambda s, rb: spec))
        return out

    def step(self, spec, heap, how, label, run, post):
        ck = self.ck
        h, base = self.open(heap)
        key = 'history step %s' % label.split('(inds')[0]
        stepkey = 'step %s: exactly the change requested' % label

        def go():
            o = restore(h, self.w.Orbit)
            r = run(o)
            nxt = r if isinstance(r, E.Obj) else o
            rb = None
            hp = snap(nxt)
            if isinstance(post, tuple):
                rb = self.norm(self.it.getattr(nxt, 'kepler' if post[1] == 'k' else 'cartesian'))
            return hp, rb
        try:
            hp, rb = self.w.do(go)
        except Unsupported as e:
            ck.unknown(stepkey, str(e))
            return
        except PyRaise as e:
            ck.bad(stepkey, '%s raises %r in state %s (reached by %s)' % (label, e.exc, spec, how))
            return
        terms = hp.terms() + (list(rb) if rb else [])
        for table, _ in split(terms, base):
            self.transitions += 1
            memo = {}
            hc = hp.map(lambda v: subst(v, table, memo))
            rbc = [subst(v, table, memo) for v in rb] if rb else None
            isnew = [k for k in table if table[k] and self.opname(k) == 'isnew']
            if isinstance(post, tuple):
                _, side, rows = post
                cur = spec.kep() if side == 'k' else spec.cart()
                for i in range(6):
                    if i not in rows:
                        v = self.same(rbc[i], cur[i])
                        if v is None and isinstance(rbc[i], Node) and self.stale(rbc[i], spec):
                            v = False
                        ck.verdict(stepkey, v, 'row %d of the %s elements changed to %s in state %s' % (
                            i, side, show(rbc[i]), spec))
                    else:
                        st = [x for x in self.stale(rbc[i], spec) if not x.args[0].startswith(('v0', 'dt'))]
                        if st:
                            ck.bad(stepkey, '%s uses an outdated value in state %s: %s' % (label, spec, show(rbc[i])))
                new = list(cur)
                for i in rows:
                    if not isinstance(rbc[i], Node):
                        raise Unsupported('constant element')
                    new[i] = rbc[i]
                ns = spec.but(auth=side, syn=spec.direct, **{'K': tuple(new) if side == 'k' else None,
                                                            'C': tuple(new) if side == 'c' else None})
            else:
                ns = post(table, 'new' if isnew else None)
            ck.ok(stepkey)
            try:
                self.push(ns, hc, label if how == 'start' else '%s; %s' % (how, label))
            except Unsupported as e:
                ck.unknown(stepkey, str(e))

    @staticmethod
    def opname(nid):
        return C._byid[nid].op

    # ---------------------------------------------------------- run
    def start(self, typ, deg, auto, direct, side):
        kw = dict(auto_update=auto, direct_update=direct, degrees=deg, type=typ)
        names = KEP if side == 'k' else CART
        kw.update({nm: vec('w%d' % i) for i, nm in enumerate(names)})
        rows = tuple(V('w%d' % i) for i in range(6))

        def go():
            o = self.w.new(**kw)
            return snap(o)
        hp = self.w.do(go)
        spec = Spec(auth=side, syn=direct, typ=typ, deg=deg, auto=auto, direct=direct,
                    K=rows if side == 'k' else None, C=rows if side == 'c' else None, mu=self.w.mu)
        for table, _ in split(hp.terms(), {}):
            self.push(spec, hp.map(lambda v: subst(v, table)), 'start')

    def expand(self, key):
        spec, heap, how = self.states[key]
        self.check_state(spec, heap, how)
        if spec.deg and self.tier != 'thorough' and how.count(';') >= DEG_DEPTH:
            return
        for label, run, post in self.ops(spec):
            self.seen_ops.add(label)
            try:
                self.step(spec, heap, how, label, run, post)
            except Unsupported as e:
                self.ck.unknown('step %s' % label, str(e))

    def explore_parallel(self, jobs, limit):
        import multiprocessing as mp
        global _EX
        _EX = self
        ctx = mp.get_context('fork')
        t0 = time.time()
        with ctx.Pool(jobs, die_with_parent) as pool:
            pending, rounds = [], 0
            while self.todo or pending:
                if time.time() - t0 > BUDGET:
                    self.ck.unknown('exploration reaches a fixed point', 'out of time')
                    break
                while self.todo and len(pending) < 4 * jobs:
                    batch = [self.states[k] for k in self.todo[:6]]
                    del self.todo[:6]
                    pending.append(pool.apply_async(_work, (batch,)))
                r = pending.pop(0).get(800)
                obl, new, cnt, seen, visited, sites = r
                for k, s, t in obl:
                    self.ck._add(k, s, t)
                self.transitions += cnt[0]
                self.reads += cnt[1]
                self.seen_ops |= seen
                self.ck.functions |= visited
                self.ck.callsites |= sites
                for spec, heap, how in new:
                    self.push(spec, heap, how)
                if sum(1 for o in self.ck.obl if o[1] == 'violated') > 6:
                    break
                if len(self.states) > limit:
                    self.ck.unknown('exploration reaches a fixed point', 'more than %d states' % limit)
                    break
            else:
                self.ck.ok('exploration reaches a fixed point')
            pool.terminate()

    def explore(self, limit):
        done = 0
        while self.todo:
            key = self.todo.pop(0)
            spec, heap, how = self.states[key]
            self.check_state(spec, heap, how)
            done += 1
            if done > limit:
                self.ck.unknown('exploration', 'state limit')
                return
            if len(self.ck.obl) and sum(1 for o in self.ck.obl if o[1] == 'violated') > 6:
                return
            for label, run, post in self.ops(spec):
                self.seen_ops.add(label)
                try:
                    self.step(spec, heap, how, label, run, post)
                except Unsupported as e:
                    self.ck.unknown('step %s' % label, str(e))


DEG_DEPTH = 0
_EX = None
_KNOWN = set()


def _work(batch):
    ex = _EX
    ck = ex.ck
    ck.obl, ck._seen = [], {}
    ck.functions, ck.callsites = set(), set()
    ex.todo, ex.states = [], dict.fromkeys(_KNOWN)
    ex.transitions = ex.reads = 0
    ex.seen_ops = set()
    for spec, heap, how in batch:
        spec, heap, key = ex.canon(spec, heap)
        ex.states[key] = (spec, heap, how)
        ex.expand(key)
    new = [ex.states[k] for k in ex.todo]
    _KNOWN.update(ex.states)
    ck.saw(ex.it)
    return (ck.obl, new, (ex.transitions, ex.reads), ex.seen_ops, ck.functions, ck.callsites)


def run(ck):
    # the fixed point in radians; in degrees the histories up to a length, in the thorough tier all
    degs = (False, True)
    ex = Explorer(ck, ck.tier)
    for deg in degs:
        for typ in KINDS:
            for side in 'kc':
                for auto, direct in ((True, True), (True, False), (False, True), (False, False)):
                    ck.guard('construction', ex.start, typ, deg, auto, direct, side)
    ex.explore_parallel(min(8, os.cpu_count() or 1), 12000)
    ck.count('abstract states', len(ex.states))
    ck.count('transitions', ex.transitions)
    ck.count('reads checked', ex.reads)
    ck.count('operations', len(ex.seen_ops))
    ck.saw(ex.it)
    return ex

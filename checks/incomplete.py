"""C26 orbits some elements of which have not been given yet"""
from .effects import *
from .storage import always_nan

U = mk('sel', 'u')
NAMES = CART + KEP + ('cartesian', 'kepler', 'r', 'v') + tuple(k + '_anomaly' for k in KINDS)
SIDES = {'k': KEP, 'c': CART}


class Orb:
    """what is known of one orbit: side and its elements, None where missing"""

    def __init__(self, w, typ, deg, side, els):
        self.w, self.typ, self.deg, self.side, self.els = w, typ, deg, side, list(els)

    @property
    def complete(self):
        return all(x is not None for x in self.els)

    def expected(self, converted):
        """{name: [term, 'nan' or None: nothing is promised]}"""
        k, c = (self.els, [None] * 6) if self.side == 'k' else ([None] * 6, self.els)
        k, c = (['nan' if x is None else x for x in r] for r in (k, c))
        other = 'nan' if not self.complete else None
        if self.complete and converted:
            if self.side == 'k':
                row = tuple(k[:5]) + (mk_anom('true', self.typ, k[5], k[1], self.deg),)
                c = [simp1(mk('k2c', i, row, (self.deg, self.w.mu))) for i in range(6)]
            else:
                k = [simp1(mk('c2k', i, tuple(c), (self.deg, self.w.mu))) for i in range(6)]
                k[5] = mk_anom(self.typ, 'true', k[5], k[1], self.deg)
        elif self.complete:
            # not converted before asked to
            if self.side == 'k':
                c = [None] * 6
            else:
                k = [None] * 6
        out = dict(zip(CART, ([x] for x in c)))
        out.update(zip(KEP, ([x] for x in k)))
        out.update(cartesian=c, kepler=k, r=c[:3], v=c[3:])
        for kind in KINDS:
            if kind == self.typ:
                a = k[5]
            elif k[5] is None or k[1] is None:
                a = None
            elif k[5] == 'nan' or k[1] == 'nan':
                a = 'nan' if k[5] == 'nan' else None
            else:
                a = mk_anom(kind, self.typ, k[5], k[1], self.deg)
            out[kind + '_anomaly'] = [a]
        return out


_judged = {}


def judge_one(x, y, base):
    k = (C._key(x), C._key(y), tuple(sorted(base.items())))
    if k not in _judged:
        if isinstance(y, str):
            v = always_nan(x, base)
            if not v and not plain_cases(x, base):
                v = None
            _judged[k] = v, 'is %s although not all elements it depends on are known' % show(x, 6)
        else:
            _judged[k] = eqv([x], [y], base)
    return _judged[k]


def judge(ck, key, got, want, base, where):
    for nm, w in want.items():
        g = got.get(nm)
        if not isinstance(g, list) or len(g) != len(w):
            ck.bad(key, '%s: reading %s gives %s' % (where, nm, g)) if isinstance(g, tuple) and g[0] == 'raises' \
                else ck.unknown(key, '%s: %s' % (where, nm))
            continue
        for x, y in zip(g, w):
            if y is None:
                continue
            v, t = judge_one(x, y, base)
            ck.verdict(key, v, '%s: %s %s' % (where, nm, t), '%s: %s %s' % (where, nm, t))
            ck.count('values compared')


def plain_cases(x, base):
    return all(plain(ts[0]) for _, ts, _ in cases([x], base))


ORDERS = (NAMES, tuple(reversed(NAMES)))


def steps(w, names, order):
    """elements given one after the other: [(label, f(o), element)]"""
    return [('%s given' % names[i], lambda o, i=i: w.it.setattr(o, names[i], vec('v%d' % i)), i) for i in order]


def run_incomplete(ck):
    def work(ck, item):
        (auto, direct), typ, deg, side = item
        w = ck.guard('state', Lab)
        if w is None:
            return
        it = w.it
        on = auto or direct
        names = SIDES[side]
        what = 'Kepler' if side == 'k' else 'Cartesian'
        where0 = '%s/%s/%s' % (mode_name(auto, direct), typ, 'degrees' if deg else 'radians')
        heap = ck.guard('empty object', w.state, typ, deg, auto, direct, '0')
        if heap is None:
            return
        hb, base = open_flags(heap)
        vals = [V('v%d' % i) for i in range(6)]

        def explicit(o):
            it.call(it.getattr(o, 'calculate_cartesian' if side == 'k' else 'calculate_kepler'), [], {})

        def check(key, fs, orb, explicitly=False, gate=None):
            """the elements read after fs, and read again in the other order"""
            for reads in ORDERS[:1 + (not noisy)]:
                def go():
                    o = restore(hb, w.Orbit)
                    for f in fs:
                        f(o)
                        if f in noisy:
                            w.observe(o, reads)
                    if explicitly:
                        explicit(o)
                    a = w.observe(o, reads)
                    return a, w.observe(o, reads)
                for got in w.do(go):
                    for orb_, extra in orb if isinstance(orb, list) else [(orb, {})]:
                        judge(ck, key, got, orb_.expected(on or explicitly), {**base, **extra}, where0)

        # nothing given
        noisy = set()
        ck.guard('nothing given', check, 'an orbit nothing is known of', [], Orb(w, typ, deg, side, [None] * 6))
        # one after the other, in several orders, with and without reading in between
        for order in (range(6), (5, 4, 3, 2, 1, 0), (3, 0, 5, 1, 4, 2)):
            st = steps(w, names, order)
            for noise in (False, True):
                fs, els = [], [None] * 6
                noisy = set()
                for label, f, i in st:
                    fs = fs + [f]
                    if noise:
                        noisy.add(f)
                    els[i] = vals[i]
                    n = sum(x is not None for x in els)
                    key = '%s elements given one by one: %s' % (what, 'all given' if n == 6 else 'some given')
                    for ex in (False, True):
                        ck.guard(key, check, key, fs, Orb(w, typ, deg, side, els), ex)
        noisy = set()
        # given together, but for one; then completed
        for j in range(6):
            part = [None if i == j else vals[i] for i in range(6)]
            how = {
                'update': lambda o: it.call(it.getattr(o, 'update'), [], {
                    names[i]: vec('v%d' % i) for i in range(6) if i != j}),
                'matrix': lambda o: it.setattr(o, 'kepler' if side == 'k' else 'cartesian', with_gap(j)),
            }
            fill = {
                'property': lambda o: it.setattr(o, names[j], vec('v%d' % j)),
                'update': lambda o: it.call(it.getattr(o, 'update'), [], {names[j]: vec('v%d' % j)}),
            }
            for hn, h in how.items():
                key = '%s elements but one given by %s' % (what, hn)
                for ex in (False, True):
                    ck.guard(key, check, key, [h], Orb(w, typ, deg, side, part), ex)
                for fl, f in fill.items():
                    key = '%s elements but one given by %s, completed by %s' % (what, hn, fl)
                    for ex in (False, True):
                        for noisy in (set(), {h}):
                            ck.guard(key, check, key, [h, f], Orb(w, typ, deg, side, vals), ex)
        noisy = set()
        # several orbits: some are complete, others are not
        mask = lambda: fresh((), N, {(): U}, 'b')

        def sel(*idx):
            return lambda o: it.call(it.getattr(o, 'update'), [], {
                'inds': mask(), **{names[i]: V('v%d' % i) for i in idx}})
        all6 = sel(*range(6))
        chosen, rest = {U.id: True}, {U.id: False}
        key = '%s elements given for some orbits' % what
        for ex in (False, True):
            for noisy in (set(), {all6}):
                ck.guard(key, check, key, [all6], [(Orb(w, typ, deg, side, vals), chosen),
                                                   (Orb(w, typ, deg, side, [None] * 6), rest)], ex)
        for j in range(6):
            f5 = lambda o: it.call(it.getattr(o, 'update'), [], {names[i]: vec('v%d' % i) for i in range(6) if i != j})
            f1 = sel(j)
            key = '%s elements but one given, completed for some orbits' % what
            part = [None if i == j else vals[i] for i in range(6)]
            for ex in (False, True):
                for noisy in (set(), {f5}, {f5, f1}):
                    ck.guard(key, check, key, [f5, f1], [(Orb(w, typ, deg, side, vals), chosen),
                                                         (Orb(w, typ, deg, side, part), rest)], ex)
        ck.saw(it)
    parallel(ck, [(mo, typ, deg, side) for mo in MODES for typ in KINDS for deg in (False, True) for side in 'kc'
                  if deg == (typ == 'eccentric') or mo == (True, False)], work)


def with_gap(j):
    m = mat(6, 'v')
    m.set((j,), NAN) if hasattr(m, 'set') else m.buf.cells.__setitem__(m.imap[(j,)], NAN)
    return m

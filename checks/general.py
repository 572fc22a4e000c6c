"""Properties every public formula of pyorb.kepler shares: C09 degrees, C10
units, C12 every regime has a value, C13 scalars and arrays agree, C14 inputs
are left alone, C20 objects are independent, C21 integers."""
from .kep import *

ANG, LEN, GM, HH, DIMLESS = 'angle', 'len', 'mu', 'h', 'one'
KEPK = ('len', 'ecc', 'angle', 'angle', 'angle', 'angle')
CARTK = ('len', 'len', 'len', 'vel', 'vel', 'vel')
EQUIK = ('len', 'ecc', 'one', 'one', 'one', 'angle')
SIX = {'kep': KEPK, 'cart': CARTK, 'equi': EQUIK}
SIXV = {'kep': ('a', 'e', 'i', 'w', 'O', 'nu'), 'cart': ('rx', 'ry', 'rz', 'vx', 'vy', 'vz'),
        'equi': ('a', 'h', 'k', 'p', 'q', 'lam')}

# name: parameters (name, kind), result kinds, has degrees
TABLE = {
    'true_to_eccentric': ((('x', ANG), ('e', 'ecc')), (ANG,), True),
    'eccentric_to_true': ((('x', ANG), ('e', 'ecc')), (ANG,), True),
    'eccentric_to_mean': ((('x', ANG), ('e', 'ecc')), (ANG,), True),
    'true_to_mean': ((('x', ANG), ('e', 'ecc')), (ANG,), True),
    'mean_to_eccentric': ((('x', ANG), ('e', 'ecc')), (ANG,), True),
    'mean_to_true': ((('x', ANG), ('e', 'ecc')), (ANG,), True),
    'orbital_distance': ((('h', HH), ('mu', GM), ('e', 'ecc'), ('x', ANG)), (LEN,), True),
    'elliptic_radius': ((('x', ANG), ('a', LEN), ('e', 'ecc')), (LEN,), True),
    'parabolic_radius': ((('x', ANG), ('q', LEN)), (LEN,), True),
    'hyperbolic_radius': ((('x', ANG), ('a', LEN), ('e', 'ecc')), (LEN,), True),
    'true_of_the_asymptote': ((('e', 'ecc'),), (ANG,), True),
    'euler_rotation_matrix': ((('i', ANG), ('w', ANG), ('O', ANG)), (DIMLESS,) * 9, True),
    'orbital_speed': ((('r', LEN), ('a', LEN), ('mu', GM)), ('vel',), False),
    'orbital_period': ((('a', LEN), ('mu', GM)), ('time',), False),
    'semi_major_axis': ((('P', 'time'), ('mu', GM)), (LEN,), False),
    'orbit_total_angular_momentum': ((('a', LEN), ('e', 'ecc'), ('mu', GM)), (HH,), False),
    'parabolic_total_angular_momentum': ((('q', LEN), ('mu', GM)), (HH,), False),
    'stumpff0': ((('z', DIMLESS),), (DIMLESS,), False),
    'stumpff1': ((('z', DIMLESS),), (DIMLESS,), False),
    'stumpff2': ((('z', DIMLESS),), (DIMLESS,), False),
    'stumpff3': ((('z', DIMLESS),), (DIMLESS,), False),
    'stumpff': ((('z', DIMLESS),), (DIMLESS,) * 4, False),
    'kep_to_cart': ((('kep', 'kep'), ('mu', GM)), CARTK, True),
    'cart_to_kep': ((('cart', 'cart'), ('mu', GM)), KEPK, True),
    'kep_to_equi': ((('kep', 'kep'),), EQUIK, True),
    'equi_to_kep': ((('equi', 'equi'),), KEPK, True),
    'cart_to_equi': ((('cart', 'cart'), ('mu', GM)), EQUIK, True),
    'equi_to_cart': ((('equi', 'equi'), ('mu', GM)), CARTK, True),
}
DIMS = {'len': (1, 0), 'vel': (1, -1), 'time': (0, 1), 'mu': (3, -2), 'h': (2, -1), 'ecc': (0, 0), 'angle': (0, 0),
        'one': (0, 0)}
# functions documented for one kind of orbit
ONLY = {'elliptic_radius': ('circular', 'elliptic'), 'parabolic_radius': ('parabolic',),
        'hyperbolic_radius': ('hyperbolic',), 'true_of_the_asymptote': ('parabolic', 'hyperbolic')}


def variables(kind, name):
    """[(variable, kind)] of a parameter"""
    if kind in SIX:
        return [(V(v), k) for v, k in zip(SIXV[kind], SIX[kind])]
    return [(V(name), kind)]


def build(kind, name, shape, dtype='f', vals=None, lib=None):
    """shape: 's' scalar / one orbit, 'a' one per object, 'v' a vector of known
    length is not used"""
    vs = [v for v, k in variables(kind, name)]
    if vals:
        vs = [vals.get(v.id, v) for v in vs]
    org = 'param:' + name
    if kind in SIX:
        return fresh((6,), None if shape == 's' else N, {(i,): v for i, v in enumerate(vs)}, dtype, origin=org)
    if shape == 's':
        return vs[0]
    return fresh((), N, {(): vs[0]}, dtype, origin=org)


def shapes_of(params):
    """combinations of shapes: all scalar, all arrays, one array, one scalar"""
    n = len(params)
    six = [k in SIX for _, k in params]
    out = [('scalars', ('s',) * n), ('arrays', ('a',) * n)]
    if n > 1:
        for i, (nm, k) in enumerate(params):
            if any(six):
                if not six[i]:
                    continue
                out.append(('%s array' % nm, tuple('a' if six[j] else 's' for j in range(n))))
            else:
                out.append(('%s array' % nm, tuple('a' if j == i else 's' for j in range(n))))
                if n > 2:
                    out.append(('%s scalar' % nm, tuple('s' if j == i else 'a' for j in range(n))))
    # a matrix with one column per object only goes with one value or one per object
    res, seen = [], set()
    for lab, sh in out:
        if sh in seen:
            continue
        seen.add(sh)
        res.append((lab, sh))
    return [(lab, sh) for lab, sh in res if not (any(six) and 'a' in sh and sh[six.index(True)] == 's')]


def invoke(w, nm, shape, degrees=False, dtype='f', vals=None, post=None, keep=None):
    params, res, hasdeg = TABLE[nm]
    kw = {}
    if hasdeg and degrees:
        kw['degrees'] = True
    if post:
        kw['post'] = post

    def arg(i):
        n, k = params[i]

        def make():
            a = build(k, n, shape[i], dtype, vals)
            if keep is not None:
                keep.append((n, a))
            return a
        return make
    if any(n == 'mu' for n, _ in params) and params[0][1] in SIX:
        kw['mu'] = arg(1)
        return w.call(nm, arg(0), **kw)
    return w.call(nm, *[arg(i) for i in range(len(params))], **kw)


POSV = [(V(v), GT0) for v in ('r', 'q', 'P', 'mu', 'h')]


def has_ecc(params):
    return any(k == 'ecc' or k == 'kep' for _, k in params)


def orbit_facts(params, rname):
    """a of unbound orbits of the closed forms is not constrained"""
    names = {n for n, _ in params}
    f = [x for x in POSV if x[0].args[0] in names]
    if 'kep' in names or 'a' in names:
        f.append((V('a'), GT0))
    return f


def install_parts(w, nm):
    """the conversions that are made of others: the first part gives the
    symbols a, e, i ..., the last one gives what it was given (in radians);
    the parts have obligations of their own"""
    log = []

    def first(part):
        def h(it, f, b):
            six = b['cart' if part == 'cart_to_kep' else 'equi']
            cells = rows(six)
            want = [V(v) for v in SIXV['cart' if part == 'cart_to_kep' else 'equi']]
            deg = b.get('degrees') is True
            if b.get('degrees') not in (True, False):
                raise Unsupported('degrees is not known')
            log.append((part, cells, b.get('mu'), deg))
            if part == 'equi_to_kep' and deg:
                want[5] = fn('radians', want[5])
                cells = cells[:5] + [fn('radians', cells[5])]
            if not all(same(x, y) for x, y in zip(cells, want)):
                raise Unsupported('%s of something else' % part)
            mu_ok(b)
            vs = [V(v) for v in SIXV['kep']]
            if deg:
                vs = vs[:2] + [fn('degrees', v) for v in vs[2:]]
            return fresh((6,), six.space, {(i,): v for i, v in enumerate(vs)}, 'f')
        return h

    def mu_ok(b):
        m = b.get('mu')
        if isinstance(m, Arr):
            m = m.get(())
        if 'mu' in b and not same(m, MU):
            raise Unsupported('another gravitational parameter')

    def last(part):
        def h(it, f, b):
            six = b['kep']
            deg = b.get('degrees') is True
            if b.get('degrees') not in (True, False):
                raise Unsupported('degrees is not known')
            mu_ok(b)
            cells = rows(six)
            if deg:
                cells = cells[:2] + [fn('radians', c) for c in cells[2:]]
            return fresh((6,), six.space, {(i,): v for i, v in enumerate(cells)}, 'f')
        return h
    if nm == 'cart_to_equi':
        w.it.intrinsics[KQ + 'cart_to_kep'] = first('cart_to_kep')
    if nm == 'equi_to_cart':
        w.it.intrinsics[KQ + 'equi_to_kep'] = first('equi_to_kep')
        w.it.intrinsics[KQ + 'kep_to_cart'] = last('kep_to_cart')
    return log


def kinds_of(nm):
    """kinds of the results when the parts are installed"""
    return KEPK if nm == 'equi_to_cart' else TABLE[nm][1]


def regimes_of(nm):
    params = TABLE[nm][0]
    if nm in ('cart_to_equi', 'equi_to_cart'):
        params = (('kep', 'kep'),)
    if not has_ecc(params):
        yield '', Agree(orbit_facts(params, None))
        return
    for rname, iv, val in REGIMES:
        if nm in ONLY and rname not in ONLY[nm]:
            continue
        yield ', %s orbit' % rname, Agree(([(EC, iv)] if iv else []) + orbit_facts(params, rname),
                                          {EC: val} if val is not None else {})


def how_of(kinds, degrees):
    return [('degrees' if degrees else 'angle') if k == ANG else 'value' for k in kinds]


def names_present(ck, w):
    for nm in TABLE:
        if w.has(nm):
            yield nm


def leaves(t, f=None):
    """f of every alternative of a gated term; conversions and factors are
    moved inside"""
    f = f or (lambda x: x)
    if isinstance(t, Node):
        if t.op == 'where':
            return where(t.args[0], leaves(t.args[1], f), leaves(t.args[2], f))
        if t.op == 'fn' and t.args[0] in ('degrees', 'radians') and has_op(t.args[1], ('where',)):
            return leaves(t.args[1], lambda x: f(fn(t.args[0], x)))
    return f(t)


# ------------------------------------------------------------------ C09

def run_degrees(ck):
    def work(ck, nm):
        t0 = time.time()
        w = Kep()
        install_solver(w)
        install_parts(w, nm)
        params, kinds, hasdeg = TABLE[nm]
        kinds = kinds_of(nm)
        for label, sh in shapes_of(params):
            key0 = '%s of %s in degrees' % (nm, label)

            def one(label=label, sh=sh, key0=key0):
                deg = invoke(w, nm, sh, degrees=True)
                rad = invoke(w, nm, sh)
                tab = {v.id: fn('radians', v) for n, k in params for v, kk in variables(k, n) if kk == ANG}
                want = [subst(t, tab) for t in rad]
                ingr = nm == 'equi_to_cart'         # compared where the last part takes them, in radians
                if not ingr:
                    want = [leaves(t, lambda x: mul(x, div(180, PI))) if k == ANG else t for t, k in zip(want, kinds)]
                    deg = [leaves(t) for t in deg]
                for rname, ag in regimes_of(nm):
                    if len(deg) != len(kinds):
                        ck.bad(key0, '%d results instead of %d' % (len(deg), len(kinds)))
                        return
                    for i, k in enumerate(kinds):
                        v, t = ag.agree([deg[i]], [want[i]], 'value' if k != ANG or nm in FULL else
                                        'angle' if ingr else 'degrees')
                        ck.verdict(key0 + rname, v, 'result %d: %s' % (i, t), 'result %d: %s' % (i, t))
            ck.guard(key0, one)
        ck.saw(w.it)
        if os.environ.get('VERIF_TIMES'):
            print(nm, round(time.time() - t0, 1), flush=True)
    w = Kep()
    parallel(ck, [nm for nm in names_present(ck, w) if TABLE[nm][2]], work)


# anomalies of unbound orbits are no angles: full turns count
FULL = ('true_to_eccentric', 'eccentric_to_mean', 'true_to_mean', 'mean_to_eccentric')


# ------------------------------------------------------------------ C10

class Dim(Exception):
    pass


ANYD = 'any'


class Dims:
    """(length, time, mass) exponents of terms; mismatches are collected"""

    def __init__(self, table):
        self.table, self.memo, self.bad, self.n = table, {}, [], 0

    def show(self, d):
        if d in (None, ANYD):
            return str(d)
        return ' '.join('%s^%s' % (n, x) for n, x in zip('LTM', d) if x) or 'a plain number'

    def join(self, ds, what, t):
        self.n += 1
        out = ANYD
        for d in ds:
            if d is None:
                return None
            if d == ANYD:
                continue
            if out == ANYD:
                out = d
            elif out != d:
                self.bad.append('%s of %s and %s in %s' % (what, self.show(out), self.show(d), show(t, 4)))
                return None
        return out

    def need0(self, d, what, t):
        self.n += 1
        if d in (None, ANYD):
            return
        if any(d):
            self.bad.append('%s of %s in %s' % (what, self.show(d), show(t, 4)))

    def of(self, t):
        if isinstance(t, bool):
            return ANYD
        if isnum(t):
            return ANYD if t == 0 or t != t or t in (INF, -INF) else (0, 0, 0)
        if isinstance(t, (str, tuple)) or t is None:
            return None
        if t.id not in self.memo:
            self.memo[t.id] = None
            self.memo[t.id] = self.go(t)
        return self.memo[t.id]

    def scale(self, d, k):
        return d if d in (None, ANYD) else tuple(x * k for x in d)

    def go(self, t):
        a = t.args
        if t.id in self.table:
            return self.table[t.id]
        if t.op in ('nan', 'uninit'):
            return ANYD
        if t.op == 'pi':
            return (0, 0, 0)
        if t.op in ('size', 'positive', 'iterations'):
            return (0, 0, 0)
        if t.op in ('neg', 'at', 'pick', 'maybe'):
            return self.of(a[0])
        if t.op == 'add':
            return self.join([self.of(x) for x in a], 'a sum', t)
        if t.op in ('mul', 'div'):
            p, q = self.of(a[0]), self.of(a[1])
            if p is None or q is None:
                return None
            if p == ANYD:
                return ANYD
            if q == ANYD:
                return ANYD if t.op == 'mul' else None
            return tuple(x + y if t.op == 'mul' else x - y for x, y in zip(p, q))
        if t.op == 'pow':
            d = self.of(a[0])
            if isnum(a[1]):
                return self.scale(d, nf.nice(a[1]) if not isinstance(a[1], Fraction) else a[1])
            self.need0(d, 'a variable power', t)
            return (0, 0, 0) if d == (0, 0, 0) else None
        if t.op == 'mod':
            return self.join([self.of(a[0]), self.of(a[1])], 'a remainder', t)
        if t.op in ('lt', 'le', 'eq'):
            self.join([self.of(a[0]), self.of(a[1])], 'a comparison', t)
            return ANYD
        if t.op in ('and', 'or', 'not'):
            for x in a:
                self.of(x)
            return ANYD
        if t.op == 'where':
            self.of(a[0])
            return self.join([self.of(a[1]), self.of(a[2])], 'alternatives', t)
        if t.op == 'kepsol':
            self.need0(self.of(a[1]), "Kepler's equation", t)
            self.need0(self.of(a[2]), "Kepler's equation", t)
            return (0, 0, 0)
        if t.op == 'fn':
            nm, ds = a[0], [self.of(x) for x in a[1:]]
            if nm == 'sqrt':
                return self.scale(ds[0], F(1, 2))
            if nm == 'cbrt':
                return self.scale(ds[0], F(1, 3))
            if nm == 'abs':
                return ds[0]
            if nm in ('sign', 'isnan', 'isfinite', 'isinf'):
                return ANYD if nm != 'sign' else (0, 0, 0)
            if nm in ('arctan2',):
                return (0, 0, 0) if self.join(ds, 'the arc tangent', t) else None
            if nm in ('minimum', 'maximum', 'hypot', 'fmod', 'fmin', 'fmax'):
                return self.join(ds, nm, t)
            if nm in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'arcsin', 'arccos', 'arctan', 'arcsinh', 'arccosh',
                      'arctanh', 'exp', 'log', 'log2', 'log10', 'log1p', 'expm1', 'radians', 'degrees', 'deg2rad',
                      'rad2deg'):
                for d in ds:
                    self.need0(d, nm, t)
                return (0, 0, 0)
        return None


def dim3(kind):
    return DIMS[kind] + (0,)


def units_of(got, tab, wants, name):
    """(True|False|None, text, rules applied): the terms have the dimensions wanted"""
    D = Dims(tab)
    v, txt = True, ''
    ds = [D.of(t) for t in got]
    if not D.bad and all(d is not None for d in ds):
        for i, (d, k) in enumerate(zip(ds, wants)):
            if d != ANYD and d != k:
                return False, '%s has units %s instead of %s' % (name(i), D.show(d), D.show(k)), D.n
        return True, '', D.n
    n = D.n
    # alternatives that are chosen together
    for table, ts, ass in cases(got, {}):
        D = Dims(tab)
        for a, _ in ass:
            D.of(a)
        for i, (t, k) in enumerate(zip(ts, wants)):
            d = D.of(t)
            if D.bad:
                break
            if d is None:
                v, txt = None, '%s has no units' % name(i)
            elif d != ANYD and d != k:
                return False, '%s has units %s instead of %s' % (name(i), D.show(d), D.show(k)), n
        n += D.n
        if D.bad:
            return False, D.bad[0], n
    return v, txt, n


def run_units(ck):
    w = Kep()
    install_solver(w)
    for nm in names_present(ck, w):
        params, kinds, hasdeg = TABLE[nm]
        if nm in ('cart_to_equi', 'equi_to_cart'):
            pass
        tab = {v.id: dim3(k) for n, kk in params for v, k in variables(kk, n)}
        for label, sh in shapes_of(params):
            for deg in ((False, True) if hasdeg else (False,)):
                key = '%s of %s%s' % (nm, label, ' in degrees' if deg else '')

                def one(nm=nm, sh=sh, deg=deg, key=key, tab=tab, kinds=kinds):
                    got = invoke(w, nm, sh, degrees=deg)
                    v, txt, n = units_of(got, tab, [dim3(k) for k in kinds], lambda i: 'result %d' % i)
                    ck.count('unit rules applied', n)
                    ck.verdict(key, v, txt, txt)
                ck.guard(key, one)
    ck.saw(w.it)
    units_of_orbit(ck)


def units_of_orbit(ck):
    """the derived quantities of an orbit object"""
    w = Lab()
    tab = {}
    for s, d in (('G', (3, -2, -1)), ('M0', (0, 0, 1)), ('m', (0, 0, 1))):
        tab[V(s).id] = d
    pre = {'k': ('len', 'ecc', 'angle', 'angle', 'angle', 'angle'), 'c': CARTK}
    WANT = {'period': 'time', 'mean_motion': 'freq', 'speed': 'vel', 'apoapsis': 'len', 'periapsis': 'len'}
    dims = dict(DIMS, freq=(0, -1))
    for typ in KINDS:
        for deg in (False, True):
            for q, k in WANT.items():
                key = '%s of an orbit with %s anomalies%s' % (q, typ, ' in degrees' if deg else '')

                def one(q=q, k=k, typ=typ, deg=deg, key=key):
                    wk = Kep()
                    install_solver(wk)

                    def go():
                        o = wk.it.call(wk.Orbit, [wk.M0], dict(num=wk.n, G=wk.G, m=vec('m'), degrees=deg, type=typ,
                                                               **{n: vec(n) for n in KEP if n != 'anom'}, anom=vec('anom')))
                        return rows(wk.it.getattr(o, q))
                    got = wk.do(go)
                    t2 = dict(tab)
                    for n, kk in zip(KEP, pre['k']):
                        t2[V(n).id] = dim3(kk)
                    v, txt, n = units_of(got, t2, [dims[k] + (0,)] * len(got), lambda i: 'it')
                    ck.count('unit rules applied', n)
                    ck.verdict(key, v, txt, txt)
                    ck.saw(wk.it)
                ck.guard(key, one)


# ------------------------------------------------------------------ C12

def reach_uninit(t, lits, facts, steps):
    """a case in which memory that was never written is the result"""
    steps[0] += 1
    if steps[0] > 4000:
        raise Unsupported('too many cases')
    if not has_op(t, ('uninit',)):
        return None
    gs = []
    if isinstance(t, Node) and t.op == 'where':
        at = {}
        logic.atoms(t.args[0], at)
        gs = list(at.values())
    gs = gs or [g for g in value_gates([t])]
    gs = [g for g in gs if not has_op(g, ('where',))] or gs
    if gs:
        g = gs[0]
        for v in (True, False):
            if v and is_nan_term(g):
                continue
            l2 = lits + [(g, v)]
            if possible(l2, facts):
                r = reach_uninit(subst(t, {g.id: v}), l2, facts, steps)
                if r is not None:
                    return r
        return None
    return lits, t


def is_nan_term(t):
    """a comparison of, or arithmetic on, something that is not a number"""
    if t is NAN:
        return True
    if not isinstance(t, Node) or t.op not in ('lt', 'le', 'eq', 'add', 'mul', 'div', 'neg', 'pow', 'mod', 'fn'):
        return False
    if t.op == 'fn' and t.args[0] in ('isnan', 'isfinite', 'isinf', 'fmin', 'fmax'):
        return False
    return any(is_nan_term(x) for x in t.args)


def possible(lits, facts):
    cs = [l for l in lits if l[0].op in ('lt', 'le', 'eq')]
    if not logic.consistent(cs):
        return False
    if facts is None:
        return True
    try:
        return nf.Deciding(facts, [l for l in cs if not has_op(l[0], ('uninit', 'nan', 'where'))]).possible()
    except nf.Impossible:
        return False


def uninit_case(t, facts):
    r = reach_uninit(t, [], facts, [0])
    if r is None:
        return None
    lits, x = r
    txt = 'memory that was never written'
    if lits:
        txt += ' when ' + ' and '.join(('' if v else 'not ') + show(q, 4) for q, v in lits)
    return txt[:900]


def run_regimes(ck):
    def work(ck, nm):
        w = Kep()
        install_solver(w)
        params, kinds, hasdeg = TABLE[nm]
        if nm in ('cart_to_equi', 'equi_to_cart'):
            install_parts(w, nm)
        for label, sh in shapes_of(params):
            for deg in ((False, True) if hasdeg else (False,)):
                key0 = '%s of %s%s' % (nm, label, ' in degrees' if deg else '')

                def defined(key0=key0, sh=sh, deg=deg):
                    got = invoke(w, nm, sh, degrees=deg)
                    res, txt = True, ''
                    for i, t in enumerate(got):
                        r = uninit_case(t, [])
                        if r:
                            res, txt = False, 'result %d is %s' % (i, r)
                    ck.verdict(key0 + ' has a value in every case', res, txt)
                ck.guard(key0, defined)
                # elements that are not numbers
                for n, kk in params:
                    for v, k in variables(kk, n):
                        key = '%s with %s not a number' % (key0, v.args[0])

                        def nans(key=key, sh=sh, deg=deg, v=v):
                            if nm in ('cart_to_equi', 'equi_to_cart') or label == 'scalars' and nm in ():
                                w.it.intrinsics.pop(KQ + 'cart_to_kep', None)
                                w.it.intrinsics.pop(KQ + 'equi_to_kep', None)
                                w.it.intrinsics.pop(KQ + 'kep_to_cart', None)
                            got = invoke(w, nm, sh, degrees=deg, vals={v.id: NAN})
                            res, txt = True, ''
                            for i, t in enumerate(got):
                                r = uninit_case(t, [])
                                if r:
                                    res, txt = False, 'result %d is %s' % (i, r)
                            ck.verdict(key, res, txt)
                        ck.guard(key, nans)
        ck.saw(w.it)
    w = Kep()
    parallel(ck, names_present(ck, w), work)


# ------------------------------------------------------------------ C13

def shape_of(r):
    if isinstance(r, (tuple, list)):
        return tuple(shape_of(x) for x in r)
    if isinstance(r, Arr):
        sp = r.space
        return (r.sshape, 'one' if sp is None else 'each' if sp is N or sp == N else 'some')
    return ((), 'one')


def expected_shape(nm, sh):
    params = TABLE[nm][0]
    each = 'each' if 'a' in sh else 'one'
    if nm == 'stumpff':
        return tuple(((), each) for _ in range(4))
    if nm == 'euler_rotation_matrix':
        return ((3, 3), each)
    if any(k in SIX for _, k in params):
        return ((6,), 'each' if sh[0] == 'a' else 'one')
    return ((), each)


def run_shapes(ck):
    def work(ck, nm):
        w = Kep()
        install_solver(w)
        params, kinds, hasdeg = TABLE[nm]
        install_parts(w, nm)
        kinds = kinds_of(nm)
        shs = shapes_of(params)

        def both(sh, deg):
            box = []

            def post(r):
                box.append(shape_of(r))
                return w.rows(r)
            t = invoke(w, nm, sh, degrees=deg, post=post)
            return t, box[0], list(w.it.events_last)
        for deg in ((False, True) if hasdeg else (False,)):
            dl = ' in degrees' if deg else ''
            ref = ck.guard('%s of scalars%s' % (nm, dl), both, shs[0][1], deg)
            if ref is None:
                continue
            for label, sh in shs:
                key = '%s of %s%s' % (nm, label, dl)

                def one(key=key, sh=sh, deg=deg):
                    got, shape, evs = both(sh, deg)
                    want = expected_shape(nm, sh)
                    if nm == 'equi_to_cart':
                        pass
                    ck.verdict(key + ' has the shape of the input', True if shape == want else
                               None if "'some'" in str(shape) else False, 'it is %s instead of %s' % (
                        shape, want))
                    for e in evs:
                        if e['kind'] == 'space_mismatch' and e.get('definite') or e['kind'] == 'axis_mismatch':
                            ck.bad(key + ' combines values of the same objects', 'values of different objects or axes '
                                   'are combined')
                            break
                    else:
                        ck.ok(key + ' combines values of the same objects')
                    if len(got) != len(ref[0]):
                        ck.bad(key + ' has the values of one orbit', '%d values' % len(got))
                        return
                    if sh == shs[0][1]:
                        return
                    for rname, ag in regimes_of(nm):
                        for i, (x, y, h) in enumerate(zip(got, ref[0], how_of(kinds, deg))):
                            v, t = ag.agree([x], [y], h)
                            ck.verdict(key + rname + ' has the values of one orbit', v, 'result %d: %s' % (i, t),
                                       'result %d: %s' % (i, t))
                ck.guard(key, one)
        ck.saw(w.it)
    w = Kep()
    parallel(ck, names_present(ck, w), work)


# ------------------------------------------------------------------ C14

def run_inputs(ck):
    def work(ck, nm):
        w = Kep()
        install_solver(w)
        params, kinds, hasdeg = TABLE[nm]
        for label, sh in shapes_of(params):
            if 'a' not in sh and not any(k in SIX for _, k in params):
                continue
            for deg in ((False, True) if hasdeg else (False,)):
                for dt in ('f', 'f4', 'i'):
                    key = '%s of %s%s%s' % (nm, label, ' in degrees' if deg else '', {'f': '', 'f4': ', single precision',
                                                                                      'i': ', integers'}[dt])

                    def one(key=key, sh=sh, deg=deg, dt=dt):
                        keep, box = [], []

                        def post(r):
                            res, txt = True, ''
                            for n, a in keep:
                                if not isinstance(a, Arr):
                                    continue
                                k = dict(params)[n]
                                want = [v for v, _ in variables(k, n)]
                                if rows(a) is None or a.sshape != ((6,) if k in SIX else ()):
                                    res, txt = False, 'the shape of %s changes' % n
                                elif a.buf.dtype != dt:
                                    res, txt = False, 'the type of %s changes' % n
                                else:
                                    for i, (x, y) in enumerate(zip(rows(a), want)):
                                        if not same(x, y):
                                            res, txt = False, 'row %d of %s becomes %s' % (i, n, show(x, 5))
                            outs = list(r) if isinstance(r, (tuple, list)) else [r]
                            al, atxt = True, ''
                            for n, a in keep:
                                for x in outs:
                                    if isinstance(a, Arr) and isinstance(x, Arr) and x.buf is a.buf:
                                        al, atxt = False, 'the result is memory of %s' % n
                            box.append((res, txt, al, atxt))
                            return None
                        invoke(w, nm, sh, degrees=deg, dtype=dt, post=post, keep=keep)
                        res, txt, al, atxt = box[0]
                        ck.verdict(key + ' leaves its input alone', res, txt)
                        ck.verdict(key + ' gives new memory', al, atxt)
                    ck.guard(key, one)
        ck.saw(w.it)
    w = Kep()
    parallel(ck, names_present(ck, w), work)


# ------------------------------------------------------------------ C21

def run_integers(ck):
    def work(ck, nm):
        w = Kep()
        install_solver(w)
        params, kinds, hasdeg = TABLE[nm]
        for label, sh in shapes_of(params):
            if 'a' not in sh and not any(k in SIX for _, k in params):
                continue
            for deg in ((False, True) if hasdeg else (False,)):
                key = '%s of %s%s' % (nm, label, ' in degrees' if deg else '')

                def one(key=key, sh=sh, deg=deg):
                    box = []

                    def post(r):
                        outs = list(r) if isinstance(r, (tuple, list)) else [r]
                        box.append([x.buf.dtype for x in outs if isinstance(x, Arr)])
                        return w.rows(r)
                    want = invoke(w, nm, sh, degrees=deg, post=post)
                    got = invoke(w, nm, sh, degrees=deg, dtype='i', post=post)
                    evs = [e for e in w.it.events_last if e['kind'] in ('trunc_store', 'trunc_cast')]
                    ck.verdict(key + ' are real numbers', 'i' not in box[1] and 'b' not in box[1],
                               'the result has an integer type')
                    ck.verdict(key + ' are not cut to integers on the way', not evs,
                               '%d stores into integer memory' % len(evs))
                    bad = [i for i, (x, y) in enumerate(zip(got, want)) if not same(x, y)]
                    if not bad:
                        ck.ok(key + ' have the values of real input')
                        return
                    kk = kinds
                    for rname, ag in regimes_of(nm):
                        for i in bad:
                            v, t = ag.agree([got[i]], [want[i]], how_of(kk, deg)[i])
                            ck.verdict(key + rname + ' have the values of real input', v, 'result %d: %s' % (i, t),
                                       'result %d: %s' % (i, t))
                ck.guard(key, one)
        ck.saw(w.it)
    w = Kep()
    parallel(ck, names_present(ck, w), work)

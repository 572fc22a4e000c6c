"""C30 anomalies, C24 closed forms, C29 Stumpff functions, C25 rotations."""
from .kep import *
from pyabs.engine import DT
from .solver import SHAPES

S_ = lambda x: fn('sin', x)             # noqa
C_ = lambda x: fn('cos', x)             # noqa


def half(x):
    return mul(0.5, x)


def positive(*vs):
    return [(v, GT0) for v in vs]


# ------------------------------------------------------------------ C30

ROOT_E = fs(sub(1, mul(EC, EC)))
ANOM_REF = {
    'true_to_eccentric': {
        'circular': (X, 'angle'),
        'elliptic': (fn('arctan2', mul(ROOT_E, S_(X)), add(EC, C_(X))), 'angle'),
        'parabolic': (fn('tan', half(X)), 'value'),
        'hyperbolic': (mul(2, fn('arctanh', mul(fs(div(sub(EC, 1), add(EC, 1))), fn('tan', half(X))))), 'sinh')},
    'eccentric_to_true': {
        'circular': (X, 'angle'),
        'elliptic': (fn('arctan2', mul(ROOT_E, S_(X)), sub(C_(X), EC)), 'angle'),
        'parabolic': (mul(2, fn('arctan', X)), 'angle'),
        'hyperbolic': (mul(2, fn('arctan', mul(fs(div(add(EC, 1), sub(EC, 1))), fn('tanh', half(X))))), 'angle')},
    'eccentric_to_mean': {
        'circular': (X, 'value'),
        'elliptic': (sub(X, mul(EC, S_(X))), 'value'),
        'parabolic': (add(X, div(power(X, 3), 3)), 'value'),
        'hyperbolic': (sub(mul(EC, fn('sinh', X)), X), 'value')},
}
# the true anomaly of an unbound orbit is inside its asymptotes
INSIDE = (cmp('lt', 0, add(1, mul(EC, C_(X)))), True)


def regime(iv, val, extra=(), lits=()):
    return Agree(([(EC, iv)] if iv else []) + list(extra), {EC: val} if val is not None else {}, lits)


def run_anomalies(ck):
    w = Kep()
    install_solver(w)
    for nm, ref in ANOM_REF.items():
        for label, f, g in SHAPES:
            def one(nm=nm, label=label, f=f, g=g, ref=ref):
                got = w.call(nm, lambda: f('x'), lambda: g('e'))
                for rname, iv, val in REGIMES:
                    key = '%s of %s, %s orbit' % (nm, label, rname)
                    want, how = ref[rname]
                    v, t = regime(iv, val).agree(got, [want], how)
                    ck.verdict(key, v, t, t)
                    ck.count('regimes compared')
            ck.guard('%s of %s' % (nm, label), one)
    # the conversions in two steps are the composition of the two
    for nm, first, second in (('true_to_mean', 'true_to_eccentric', 'eccentric_to_mean'),
                              ('mean_to_true', 'mean_to_eccentric', 'eccentric_to_true')):
        for label, f, g in SHAPES:
            for deg in (False, True):
                def two(nm=nm, label=label, f=f, g=g, first=first, second=second, deg=deg):
                    opts = {} if first == 'true_to_eccentric' else dict(solver_options=lambda: dict(tol=TOL))
                    got = w.call(nm, lambda: f('x'), lambda: g('e'), degrees=deg, **opts)
                    mid = w.call(first, lambda: f('x'), lambda: g('e'), degrees=deg, **opts)
                    want = w.call(second, V('y'), lambda: g('e'), degrees=deg)
                    want = [subst(t, {V('y').id: mid[0]}) for t in want]
                    for rname, iv, val in REGIMES:
                        key = '%s of %s, %s orbit, is %s then %s' % (nm, label, rname, first, second)
                        ag = regime(iv, val)
                        v, t = ag.agree(got, want, 'value')
                        ck.verdict(key, v, t, t)
                ck.guard('%s of %s' % (nm, label), two)
    # inverse pairs, in each regime
    for first, second in (('true_to_eccentric', 'eccentric_to_true'), ('eccentric_to_true', 'true_to_eccentric')):
        for label, f, g in SHAPES[:2]:
            def inv(first=first, second=second, label=label, f=f, g=g):
                mid = w.call(first, lambda: f('x'), lambda: g('e'))
                out = w.call(second, lambda: f('y'), lambda: g('e'))
                for rname, iv, val in REGIMES:
                    key = '%s undoes %s for %s, %s orbit' % (second, first, label, rname)
                    unbound = rname in ('parabolic', 'hyperbolic')
                    how = 'angle'
                    if unbound and second == 'true_to_eccentric':
                        how = 'sinh' if rname == 'hyperbolic' else 'value'
                    ag = regime(iv, val, lits=[INSIDE] if unbound and first == 'true_to_eccentric' else [])
                    res = True
                    for ts, l1 in ag.cases(mid):
                        ag2 = Agree(ag.facts, {EC: val} if val is not None else {}, l1)
                        o2 = [subst(t, {V('y').id: ts[0]}) for t in out]
                        v, t = ag2.agree(o2, [X], how)
                        if v is not True:
                            res = v
                            break
                    # an inversion that is not decided is left to the formulas above
                    ck.verdict(key, res, '%s' % t, t)
            ck.guard('%s after %s' % (second, first), inv)
    ck.saw(w.it)


# ------------------------------------------------------------------ C24

A_, H_, R_, Q_, P_ = V('a'), V('h'), V('r'), V('q'), V('P')
POS = positive(A_, H_, R_, Q_, P_, MU)
CLOSED = (
    # function, parameters, value, constraints
    ('orbital_period', ('a', 'mu'), mul(PI2, fs(div(power(A_, 3), MU)))),
    ('semi_major_axis', ('P', 'mu'), fn('cbrt', mul(MU, power(div(P_, PI2), 2)))),
    ('orbital_speed', ('r', 'a', 'mu'), fs(mul(MU, sub(div(2, R_), div(1, A_))))),
    ('elliptic_radius', ('x', 'a', 'e'), mul(A_, sub(1, mul(EC, C_(X))))),
    ('parabolic_radius', ('x', 'q'), div(mul(2, Q_), add(1, C_(X)))),
    ('hyperbolic_radius', ('x', 'a', 'e'), div(mul(A_, sub(mul(EC, EC), 1)), add(1, mul(EC, C_(X))))),
    ('orbital_distance', ('h', 'mu', 'e', 'x'), div(power(H_, 2), mul(MU, add(1, mul(EC, C_(X)))))),
    ('orbit_total_angular_momentum', ('a', 'e', 'mu'), fs(mul(mul(MU, A_), sub(1, mul(EC, EC))))),
    ('parabolic_total_angular_momentum', ('q', 'mu'), fs(mul(2, mul(MU, Q_)))),
    ('true_of_the_asymptote', ('e',), fn('arccos', neg(div(1, EC)))),
)
PVAR = {'x': X, 'e': EC, 'a': A_, 'h': H_, 'r': R_, 'q': Q_, 'P': P_, 'mu': MU}


def run_closed(ck):
    w = Kep()
    for nm, params, ref in CLOSED:
        for label, mkp in (('scalars', lambda n: PVAR[n]), ('arrays', lambda n: fresh((), N, {(): PVAR[n]}, 'f',
                                                                                     origin='param:' + n))):
            key = '%s of %s' % (nm, label)

            def one(nm=nm, params=params, ref=ref, mkp=mkp, key=key):
                got = w.call(nm, *[(lambda p=p: mkp(p)) for p in params])
                facts = list(POS)
                lits = []
                if 'e' in params:
                    iv = (F(0), F(1), False, True)
                    if nm in ('hyperbolic_radius', 'true_of_the_asymptote'):
                        iv = (F(1), INF, True, True)
                    elif nm == 'orbital_distance':
                        iv = (F(0), INF, False, True)
                    facts.append((EC, iv))
                if nm == 'orbital_speed':
                    lits = [(cmp('le', R_, mul(2, A_)), True)]
                ag = Agree(facts, {}, lits)
                v, t = ag.agree(got, [ref])
                if v is not True and nm == 'true_of_the_asymptote':
                    v, t = ag.agree(got, [ref], 'cos')
                ck.verdict(key, v, t, t)
                if nm == 'orbital_speed':
                    # negative semi-major axes stand for unbound orbits
                    neg_a = Agree([f for f in facts if f[0] is not A_] + [(A_, (-INF, F(0), True, True))])
                    v, t = neg_a.agree(got, [ref])
                    ck.verdict(key + ' with a negative semi-major axis', v, t, t)
                if nm == 'orbit_total_angular_momentum':
                    hyp = Agree([f for f in facts if f[0] not in (A_, EC)] + [(A_, (-INF, F(0), True, True)),
                                                                             (EC, (F(1), INF, True, True))])
                    v, t = hyp.agree(got, [ref])
                    ck.verdict(key + ' of an unbound orbit', v, t, t)
            ck.guard(key, one)
    # period and semi-major axis are each other's inverse
    key = 'semi_major_axis undoes orbital_period'

    def inv():
        p = w.call('orbital_period', A_, MU)
        a = w.call('semi_major_axis', P_, MU)
        v, t = Agree(POS).agree([subst(a[0], {P_.id: p[0]})], [A_])
        ck.verdict(key, v, t, t)
        p2 = [subst(p[0], {A_.id: a[0]})]
        v, t = Agree(POS).agree(p2, [P_])
        ck.verdict('orbital_period undoes semi_major_axis', v, t, t)
    ck.guard(key, inv)
    ck.saw(w.it)


# ------------------------------------------------------------------ C29

Z = V('z')


def by_zero(t):
    """a quotient with the denominator zero, or something computed with one"""
    if not isinstance(t, Node) or t.op not in ('div', 'neg', 'add', 'mul'):
        return False
    if t.op == 'div':
        return isnum(t.args[1]) and t.args[1] == 0 or by_zero(t.args[0])
    return any(by_zero(x) for x in t.args)


def run_stumpff(ck):
    w = Kep()
    sp, sn = fs(Z), fs(neg(Z))
    REF = {
        'stumpff0': (C_(sp), 1, fn('cosh', sn)),
        'stumpff1': (div(S_(sp), sp), 1, div(fn('sinh', sn), sn)),
        'stumpff2': (div(sub(1, C_(sp)), Z), 0.5, div(sub(fn('cosh', sn), 1), neg(Z))),
        'stumpff3': (div(sub(sp, S_(sp)), mul(sp, Z)), 1 / 6, div(sub(fn('sinh', sn), sn), mul(neg(Z), sn))),
    }
    REGS = (('positive', [(Z, GT0)], {}, 0), ('zero', [], {Z: 0}, 1),
            ('negative', [(Z, (-INF, F(0), True, True))], {}, 2))
    for label, arg in (('a scalar', lambda: Z), ('an array', lambda: fresh((), N, {(): Z}, 'f', origin='param:z'))):
        for nm, refs in REF.items():
            key0 = '%s of %s' % (nm, label)

            def one(nm=nm, refs=refs, arg=arg, key0=key0):
                got = w.call(nm, arg)
                for rname, facts, eqs, i in REGS:
                    ag = Agree(facts, eqs)
                    v, t = ag.agree(got, [refs[i]])
                    if v is None and rname == 'zero' and any(by_zero(ts[0]) for ts, _ in ag.cases(got)):
                        v, t = False, 'divides by zero'
                    ck.verdict('%s, %s argument' % (key0, rname), v, t, t)
            ck.guard(key0, one)
        key = 'stumpff of %s is the four functions in order' % label

        def four(arg=arg, key=key):
            got = w.call('stumpff', arg)
            for rname, facts, eqs, i in REGS:
                v, t = Agree(facts, eqs).agree(got, [REF[n][i] for n in sorted(REF)])
                ck.verdict(key + ', %s argument' % rname, v, t, t)
        ck.guard(key, four)
    ck.saw(w.it)


# ------------------------------------------------------------------ C25

def matmul3(a, b):
    out = []
    for i in range(3):
        for j in range(3):
            t = 0
            for k in range(3):
                t = add(t, mul(a[3 * i + k], b[3 * k + j]))
            out.append(t)
    return out


def rot(axis, t):
    c, s = C_(t), S_(t)
    if axis == 'x':
        return [1, 0, 0, 0, c, neg(s), 0, s, c]
    if axis == 'y':
        return [c, 0, s, 0, 1, 0, neg(s), 0, c]
    return [c, neg(s), 0, s, c, 0, 0, 0, 1]


def run_rotation(ck):
    w = Kep()
    for ax in 'xyz':
        for dt in (None, 'f4'):
            nm = 'rot_mat_' + ax
            key = '%s turns by the given angle around its axis' % nm + ('' if dt is None else ', in single precision')

            def one(nm=nm, ax=ax, dt=dt, key=key):
                kw = {} if dt is None else dict(dtype=DT(dt))
                got = w.call(nm, X, **kw)
                v, t = Agree().agree(got, rot(ax, X))
                ck.verdict(key, v, t, t)
            ck.guard(key, one)
    I_, W_, O_ = V('i'), V('w'), V('O')
    ref = matmul3(matmul3(rot('z', O_), rot('x', I_)), rot('z', W_))
    for deg in (False, True):
        for label, kinds in (('scalars', (0, 0, 0)), ('arrays', (1, 1, 1)), ('an inclination array', (1, 0, 0)),
                             ('a periapsis array', (0, 1, 0)), ('a node array', (0, 0, 1))):
            key = 'euler_rotation_matrix of %s%s is node, inclination, periapsis in this order' % (
                label, ' in degrees' if deg else '')

            def one(deg=deg, kinds=kinds, key=key):
                args = [(lambda v=v: fresh((), N, {(): v}, 'f', origin='param:x')) if k else v
                        for k, v in zip(kinds, (I_, W_, O_))]
                got = w.call('euler_rotation_matrix', *args, degrees=deg)
                want = ref
                if deg:
                    want = [subst(t, {v.id: fn('radians', v) for v in (I_, W_, O_)}) if isinstance(t, Node) else t
                            for t in ref]
                v, t = Agree().agree(got, want)
                ck.verdict(key, v, t, t)
                # rows and columns of unit length, right handed
                if len(got) == 9:
                    tr = [got[3 * j + i] for i in range(3) for j in range(3)]
                    v, t = Agree().agree(matmul3(got, tr), [1, 0, 0, 0, 1, 0, 0, 0, 1])
                    ck.verdict(key.replace('is node', 'is orthogonal: node'), v, t, t)
            ck.guard(key, one)
    ck.saw(w.it)

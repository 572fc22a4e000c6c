"""C28 Kepler to Cartesian, C31 Cartesian to Kepler, C32 equinoctial elements:
the conversions are the textbook definitions."""
from .general import *
from .formulas import matmul3, rot, S_, C_

KA, KE, KI, KW, KO, KN = [V(v) for v in SIXV['kep']]
RX, RY, RZ, VX, VY, VZ = [V(v) for v in SIXV['cart']]


def dot(a, b):
    t = 0
    for x, y in zip(a, b):
        t = add(t, mul(x, y))
    return t


def cross(a, b):
    return [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])),
            sub(mul(a[0], b[1]), mul(a[1], b[0]))]


def norm(a):
    return fs(dot(a, a))


def in_degrees(terms, kinds, vs):
    t = {v.id: fn('radians', v) for v, k in zip(vs, kinds) if k == ANG}
    return [subst(x, t) for x in terms]


# ------------------------------------------------------------------ C28

def perifocal(rname):
    """semi-latus rectum"""
    if rname == 'parabolic':
        return mul(2, KA)
    if rname == 'hyperbolic':
        return mul(KA, sub(mul(KE, KE), 1))
    return mul(KA, sub(1, mul(KE, KE)))


def kep_to_cart_ref(rname):
    p = perifocal(rname)
    R = matmul3(matmul3(rot('z', KO), rot('x', KI)), rot('z', KW))
    r = div(p, add(1, mul(KE, C_(KN))))
    vs = fs(div(MU, p))
    P = [mul(r, C_(KN)), mul(r, S_(KN)), 0]
    W = [mul(vs, neg(S_(KN))), mul(vs, add(KE, C_(KN))), 0]
    return [dot(R[3 * i:3 * i + 3], P) for i in range(3)] + [dot(R[3 * i:3 * i + 3], W) for i in range(3)]


def run_kep_to_cart(ck):
    nm = 'kep_to_cart'
    w = Kep()
    names = ('x', 'y', 'z', 'vx', 'vy', 'vz')
    for label, sh in shapes_of(TABLE[nm][0]):
        for deg in (False, True):
            key0 = '%s of %s%s' % (nm, label, ' in degrees' if deg else '')

            def one(sh=sh, deg=deg, key0=key0):
                got = invoke(w, nm, sh, degrees=deg)
                for rname, iv, val in REGIMES:
                    ag = Agree([(KA, GT0), (MU, GT0)] + ([(EC, iv)] if iv else []), {EC: val} if val is not None else {})
                    want = kep_to_cart_ref(rname)
                    if deg:
                        want = in_degrees(want, KEPK, [V(v) for v in SIXV['kep']])
                    if len(got) != 6:
                        ck.bad(key0, '%d values' % len(got))
                        return
                    for n, x, y in zip(names, got, want):
                        v, t = ag.agree([x], [y])
                        ck.verdict('%s, %s orbit, is the defined %s' % (key0, rname, n), v, t, t)
                # the default is the gravitational parameter of the Sun
            ck.guard(key0, one)
    ck.saw(w.it)


# ------------------------------------------------------------------ C31

def unclip(t):
    """the argument of an inverse cosine or sine is not cut: it lies within
    -1 and 1 for real vectors"""
    def inner(x):
        if isinstance(x, Node) and x.op == 'where':
            a, b = x.args[1], x.args[2]
            for c, o in ((a, b), (b, a)):
                if isnum(c) and abs(c) == 1:
                    return inner(o)
            return where(x.args[0], inner(a), inner(b))
        if isinstance(x, Node) and x.op == 'fn' and x.args[0] in ('minimum', 'maximum', 'fmin', 'fmax', 'clip'):
            o = [y for y in x.args[1:] if not (isnum(y) and abs(y) == 1)]
            if len(o) == 1:
                return inner(o[0])
        return x

    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Node):
            return x
        if x.id not in memo:
            if x.op == 'fn' and x.args[0] in ('arccos', 'arcsin'):
                memo[x.id] = fn(x.args[0], inner(go(x.args[1])))
            elif not x.args or x.op == 'var':
                memo[x.id] = x
            elif x.op == 'where':
                memo[x.id] = where(go(x.args[0]), go(x.args[1]), go(x.args[2]))
            elif x.op == 'fn':
                memo[x.id] = fn(*[go(y) for y in x.args])
            elif x.op in C.REBUILD:
                memo[x.id] = C.REBUILD[x.op](*[go(y) for y in x.args])
            else:
                memo[x.id] = x
        return memo[x.id]
    return go(t)


def cart_to_kep_ref(elim, ilim):
    r, v = [RX, RY, RZ], [VX, VY, VZ]
    rn, v2 = norm(r), dot(v, v)
    rv = dot(r, v)
    h = cross(r, v)
    hn = norm(h)
    ev = [div(sub(mul(sub(v2, div(MU, rn)), x), mul(rv, y)), MU) for x, y in zip(r, v)]
    e = norm(ev)
    en = sub(mul(0.5, v2), div(MU, rn))
    i = fn('arccos', div(h[2], hn))
    n = [neg(h[1]), h[0], 0]
    nn = norm(n)
    a0 = div(neg(MU), mul(2.0, en))
    ecc, inc = cmp('lt', elim, e), and_(cmp('lt', ilim, i), cmp('lt', i, sub(PI, ilim)))
    pro = cmp('lt', i, mul(PI, 0.5))

    def turn(c, flip):
        x = fn('arccos', c)
        return where(flip, sub(mul(2.0, PI), x), x)
    one_sided = lambda y: where(pro, cmp('lt', y, 0), cmp('le', 0, y))     # noqa
    out = {
        'a': where(cmp('eq', e, 1), div(mul(hn, hn), mul(2.0, MU)), where(cmp('lt', 1, e), neg(a0), a0)),
        'e': e,
        'i': i,
        'O': where(inc, turn(div(n[0], nn), cmp('lt', n[1], 0)), 0),
        'w': where(ecc, where(inc, turn(div(dot(n, ev), mul(nn, e)), cmp('lt', ev[2], 0)),
                              turn(div(ev[0], e), one_sided(ev[1]))), 0),
        'nu': where(ecc, turn(div(dot(ev, r), mul(e, rn)), cmp('lt', rv, 0)),
                    where(inc, turn(div(dot(n, r), mul(nn, rn)), cmp('lt', RZ, 0)),
                          turn(div(RX, rn), one_sided(RY)))),
    }
    return [out[k] for k in SIXV['kep']]


class Canon:
    """one term for equal roots, inverse cosines and gates in the terms that
    are compared"""

    def __init__(self, facts):
        self.d = nf.Deciding(facts)
        self.pool, self.memo, self.n = {}, {}, 0

    def __call__(self, t):
        if isinstance(t, tuple):
            return tuple(self(y) for y in t)
        if not isinstance(t, Node):
            return t
        if t.id in self.memo:
            return self.memo[t.id]
        if not t.args or t.op == 'var':
            r = t
        elif t.op == 'where':
            r = where(self(t.args[0]), self(t.args[1]), self(t.args[2]))
        elif t.op == 'fn':
            r = fn(*[self(y) for y in t.args])
            if isinstance(r, Node) and r.op == 'fn' and r.args[0] in ('sqrt', 'arccos') and not has_op(r, ('where',)):
                r = self.rep(r)
        elif t.op in ('lt', 'le', 'eq'):
            a, b = self(t.args[0]), self(t.args[1])
            r = cmp(t.op, self.part(a), self.part(b))
        elif t.op in C.REBUILD:
            r = C.REBUILD[t.op](*[self(y) for y in t.args])
        else:
            r = t
        self.memo[t.id] = r
        return r

    def part(self, x):
        if not isinstance(x, Node) or x.op in ('var', 'fn', 'where', 'pi') or has_op(x, ('where',)) or \
                logic.constval(x) is not None:
            return x
        return self.rep(x, 'cmp')

    def rep(self, r, kind=None):
        kind = kind or r.args[0]
        for q in self.pool.setdefault(kind, []):
            if q is r:
                return q
        for q in self.pool[kind]:
            x, y = (q.args[1], r.args[1]) if kind != 'cmp' else (q, r)
            self.n += 1
            try:
                if self.d.equal(x, y) is True:
                    return q
            except nf.Impossible:
                pass
        self.pool[kind].append(r)
        return r


def boundary(lits):
    """the case is a limit between two gates: equality of two quantities"""
    le = {(x.args[0], x.args[1]) for x, v in lits if x.op == 'le' and v and isinstance(x, Node)}
    nl = {(x.args[0], x.args[1]) for x, v in lits if x.op == 'lt' and not v}
    k = lambda s: {(C._key(a), C._key(b)) for a, b in s}         # noqa
    return bool(k(le) & k(nl))


def run_cart_to_kep(ck):
    nm = 'cart_to_kep'
    jobs = [(label, sh, deg, j) for label, sh in shapes_of(TABLE[nm][0]) for deg in (False, True) for j in range(6)]

    def work(ck, job):
        label, sh, deg, j = job
        w = Kep()
        t0 = time.time()
        elim, ilim = w.k.ns.get('e_lim', 1e-9), w.k.ns.get('i_lim', mul(PI, 1e-9))
        key = '%s of %s%s is the defined %s' % (nm, label, ' in degrees' if deg else '', SIXV['kep'][j])
        got = [unclip(t) for t in invoke(w, nm, sh, degrees=deg)]
        if len(got) != 6:
            ck.bad(key, '%d values' % len(got))
            return
        want = [unclip(t) for t in cart_to_kep_ref(elim, ilim)]
        if deg:
            want = [leaves(t, lambda x: mul(x, div(180, PI))) if k == ANG else t for t, k in zip(want, KEPK)]
            got = [leaves(t) for t in got]
        cn = Canon([(MU, GT0)])
        got = [cn(got[j])]
        want = [cn(want[j])]
        R3, V3 = [RX, RY, RZ], [VX, VY, VZ]
        H3 = cross(R3, V3)
        ag = Agree([(MU, GT0)], {}, [(cmp('lt', 0, dot(R3, R3)), True), (cmp('lt', 0, dot(H3, H3)), True)])
        how = ('degrees' if deg else 'angle') if KEPK[j] == ANG else 'value'
        v, t = ag.agree(got, want, how)
        ck.verdict(key, v, t, t)
        ck.saw(w.it)
        if os.environ.get('VERIF_TIMES'):
            print(key, v, round(time.time() - t0, 1), flush=True)
    parallel(ck, jobs, work)


# ------------------------------------------------------------------ C32

def run_equinoctial(ck):
    w = Kep()
    install_solver(w)
    elim = w.k.ns.get('e_lim', 1e-9)
    A, H, K_, P, Q, L = [V(v) for v in SIXV['equi']]
    ob, hi = add(KW, KO), mul(0.5, KI)
    k2e = [KA, mul(KE, S_(ob)), mul(KE, C_(ob)), mul(fn('tan', hi), S_(KO)), mul(fn('tan', hi), C_(KO)), add(ob, KN)]
    e = fs(add(mul(H, H), mul(K_, K_)))
    lp, om = fn('arctan2', H, K_), fn('arctan2', P, Q)
    ecc = cmp('lt', elim, e)
    e2k = [A, e, mul(2, fn('arctan', fs(add(mul(P, P), mul(Q, Q))))), where(ecc, sub(lp, om), 0), om,
           where(ecc, sub(L, lp), sub(L, om))]
    vk, ve = [V(v) for v in SIXV['kep']], [V(v) for v in SIXV['equi']]
    for nm, ref, kin, vin, kout in (('kep_to_equi', k2e, KEPK, vk, EQUIK), ('equi_to_kep', e2k, EQUIK, ve, KEPK)):
        for label, sh in shapes_of(TABLE[nm][0]):
            for deg in (False, True):
                key0 = '%s of %s%s' % (nm, label, ' in degrees' if deg else '')

                def one(nm=nm, ref=ref, kin=kin, vin=vin, kout=kout, sh=sh, deg=deg, key0=key0):
                    got = invoke(w, nm, sh, degrees=deg)
                    want = ref
                    if deg:
                        want = in_degrees(want, kin, vin)
                        want = [leaves(t, lambda x: mul(x, div(180, PI))) if k == ANG else t
                                for t, k in zip(want, kout)]
                    for nme, x, y, h in zip(SIXV['equi' if nm == 'kep_to_equi' else 'kep'], got, want,
                                            how_of(kout, deg)):
                        v, t = Agree().agree([x], [y], h)
                        ck.verdict('%s is the defined %s' % (key0, nme), v, t, t)
                ck.guard(key0, one)
    # from and to Cartesian: through the Kepler elements with the mean anomaly
    for nm in ('cart_to_equi', 'equi_to_cart'):
        w2 = Kep()
        install_solver(w2)
        install_parts(w2, nm)
        for label, sh in shapes_of(TABLE[nm][0]):
            for deg in (False, True):
                key0 = '%s of %s%s' % (nm, label, ' in degrees' if deg else '')

                def two(nm=nm, sh=sh, deg=deg, key0=key0):
                    got = invoke(w2, nm, sh, degrees=deg)
                    out = EQUIK if nm == 'cart_to_equi' else KEPK
                    anom = 'true_to_mean' if nm == 'cart_to_equi' else 'mean_to_true'
                    M = w2.call(anom, KN, KE)[0]
                    if nm == 'cart_to_equi':
                        want = k2e[:5] + [add(ob, where(cmp('lt', elim, KE), M, KN))]
                        if deg:
                            want[5] = leaves(want[5], lambda x: mul(x, div(180, PI)))
                    else:
                        want = [KA, KE, KI, KW, KO, where(cmp('lt', elim, KE), M, KN)]
                    for rname, iv, val in REGIMES:
                        ag = Agree([(KA, GT0)] + ([(EC, iv)] if iv else []), {EC: val} if val is not None else {})
                        for i, (x, y, k) in enumerate(zip(got, want, out)):
                            h = 'value' if k != ANG else 'degrees' if deg and nm == 'cart_to_equi' else 'angle'
                            v, t = ag.agree([x], [y], h)
                            ck.verdict('%s, %s orbit, element %d' % (key0, rname, i), v, t, t)
                ck.guard(key0, two)
        ck.saw(w2.it)
    # the two are each other's inverse
    key = 'kep_to_equi undoes equi_to_kep'

    def inv():
        mid = invoke(w, 'equi_to_kep', ('s',))
        out = invoke(w, 'kep_to_equi', ('s',))
        got = [subst(t, {a.id: b for a, b in zip(vk, mid)}) for t in out]
        for nme, x, y, h in zip(SIXV['equi'], got, ve, how_of(EQUIK, False)):
            # the limit of circularity leaves a rest below it
            ag = Agree([], {}, [(cmp('lt', elim, e), True)])
            v, t = ag.agree([x], [y], h)
            ck.verdict(key + ', ' + nme, v, t, t)
    ck.guard(key, inv)
    ck.saw(w.it)

"""C22 derived quantities, C26 objects with unknown elements, C27 unbound
orbits."""
from .kep import *

NU = V('nu')
SYM = [V(s) for s in ('a', 'e', 'i', 'w', 'O')]
A_, E_ = SYM[0], SYM[1]


class Known:
    """an orbit in some state of the object; its Kepler elements are called a,
    e, i, w, O, nu and its Cartesian ones rx, ry, rz, vx, vy, vz in every term"""

    def __init__(self, typ, deg, auto, direct, hist, **kw):
        self.w = w = Lab()
        self.it = w.it
        self.typ, self.deg = typ, deg
        heap = w.state(typ, deg, auto, direct, hist, **kw)
        self.hb, self.base = open_flags(heap)
        self.on = auto or direct
        self.has_k, self.has_c = self.on or hist == 'k', self.on or hist == 'c'
        self.nm = '%s/%s/%s/%s' % (mode_name(auto, direct), typ, 'degrees' if deg else 'radians', hist)
        self.names = {}
        kep = self.read('kepler')
        if kep[5].op == 'anom' and isinstance(kep[5].args[2], Node):
            # the anomaly it was computed from is the symbol
            kep = kep[:5] + [kep[5].args[2]]
        for t, v in zip(kep, SYM + [NU]):
            if isinstance(t, Node):
                self.names.setdefault(t.id, v)
        self.kep = self.read('kepler')
        self.nu = self.kep[5]
        cart = self.read('cartesian')
        self.cart = [V(s) for s in ('rx', 'ry', 'rz', 'vx', 'vy', 'vz')]
        for t, v in zip(cart, self.cart):
            if isinstance(t, Node):
                self.names.setdefault(t.id, v)
        self.turn = 360 if deg else PI2
        self.mu = w.mu

    def plain(self, t):
        if not isinstance(t, Node):
            return t
        return subst(subst(t, self.base), self.names)

    def read(self, nm, f=None):
        """terms of a property after f"""
        def go():
            o = restore(self.hb, self.w.Orbit)
            if f:
                f(o)
            r = self.it.getattr(o, nm)
            return rows(r) if rows(r) is not None else r
        r = self.w.do(go)
        return [self.plain(t) for t in r] if isinstance(r, list) else r

    def anom(self, to, x=None, frm=None):
        return mk_anom(to, frm or self.typ, self.nu if x is None else x, E_, self.deg)

    def agree(self, rname, iv, val, extra=()):
        return Agree([(A_, GT0)] + POSITIVE + ([(E_, iv)] if iv else []) + list(extra), {E_: val} if val is not None
                     else {})


def unbound(rname):
    return rname in ('parabolic', 'hyperbolic')


def quantities(k, rname):
    """name -> (terms, how)"""
    mu, turn = k.mu, k.turn
    n = mul(div(turn, PI2), fs(div(mu, power(A_, 3))))
    nu = k.anom('true')
    ang = fn('radians', nu) if k.deg else nu
    par = add(1, mul(E_, fn('cos', ang)))
    q = A_ if rname == 'parabolic' else mul(A_, sub(1, E_)) if not unbound(rname) else mul(A_, sub(E_, 1))
    p = mul(q, add(1, E_))
    r = div(p, par)
    inv = {'parabolic': 0, 'hyperbolic': neg(div(1, A_))}.get(rname, div(1, A_))
    out = {
        'mean_motion': ([div(n, fs(2)) if rname == 'parabolic' else n], 'value'),
        'periapsis': ([q], 'value'),
        'speed': ([fs(mul(mu, sub(div(2, r), inv)))], 'value'),
        'mean_longitude': ([add(add(k.anom('mean'), SYM[3]), SYM[4])], 'value'),
        'velocity': ([fs(add(add(power(k.cart[3], 2), power(k.cart[4], 2)), power(k.cart[5], 2)))], 'value'),
    }
    if not unbound(rname):
        out['period'] = ([mul(PI2, fs(div(power(A_, 3), mu)))], 'value')
        out['apoapsis'] = ([mul(A_, add(1, E_))], 'value')
    else:
        out['apoapsis'] = ([INFTY], 'inf')
    return out


INFTY = float('inf')


def is_inf(t):
    return isinstance(t, float) and t == INFTY or isinstance(t, Node) and t.op in ('inf', 'cst') and 'inf' in str(t.args)


# the true anomaly is inside the asymptotes
def inside(k, rname):
    nu = k.anom('true')
    ang = fn('radians', nu) if k.deg else nu
    e = {'parabolic': 1, 'circular': 0}.get(rname, E_)
    return [(cmp('lt', 0, add(1, mul(e, fn('cos', ang)))), True)] if unbound(rname) else []


def run_derived(ck):
    def work(ck, item):
        (auto, direct), typ, deg, hist = item
        k = ck.guard('state', Known, typ, deg, auto, direct, hist)
        if k is None:
            return
        it = k.it
        for nm in ('period', 'mean_motion', 'apoapsis', 'periapsis', 'speed', 'mean_longitude', 'velocity'):
            got = ck.guard('reading %s' % nm, k.read, nm)
            if got is None or not (k.has_c if nm == 'velocity' else k.has_k):
                continue
            for rname, iv, val in REGIMES:
                want = quantities(k, rname).get(nm)
                if want is None:
                    continue
                key = '%s of %s orbits' % (nm, rname)

                def one(nm=nm, got=got, want=want, rname=rname, iv=iv, val=val, key=key):
                    ag = k.agree(rname, iv, val)
                    ag.lits = inside(k, rname)
                    if want[1] == 'inf':
                        v, t = True, ''
                        for ts, lits in ag.cases(got):
                            if not is_inf(ts[0]):
                                v, t = False, 'is %s instead of infinite' % show(ts[0], 8)
                    else:
                        v, t = ag.agree(got, want[0], want[1], no_infinity)
                    ck.verdict(key, v, '%s: %s' % (k.nm, t), '%s: %s' % (k.nm, t))
                    ck.count('quantities compared')
                ck.guard(key, one)
        setters(ck, k, auto or direct)
        ck.saw(it)
    items = [(mo, typ, deg, hist) for mo in MODES for typ in KINDS for deg in (False, True) for hist in ('k', 'c', 'kx', 'ca')
             if any(mo) or hist in 'kc']
    parallel(ck, items, work)


def same_rows(ck, k, key, ag, got, want, which):
    for i in which:
        v, t = ag.agree([got[i]], [want[i]])
        ck.verdict(key, v, '%s: element %d: %s' % (k.nm, i, t), '%s: %s' % (k.nm, t))


def no_infinity(t, memo=None):
    """the inverse of something over zero is zero"""
    memo = {} if memo is None else memo
    if not isinstance(t, Node) or not has_op(t, ('div',)):
        return t
    if t.id in memo:
        return memo[t.id]
    if t.op == 'div' and isinstance(t.args[1], Node) and t.args[1].op == 'div' and isnum(t.args[1].args[1]) and \
            t.args[1].args[1] == 0:
        r = 0
    elif t.op in ('add', 'mul', 'div', 'neg'):
        f = {'add': add, 'mul': mul, 'div': div, 'neg': neg}[t.op]
        r = f(*[no_infinity(x, memo) for x in t.args])
    elif t.op == 'fn':
        r = fn(t.args[0], *[no_infinity(x, memo) for x in t.args[1:]])
    else:
        r = t
    memo[t.id] = r
    return r


def setters(ck, k, on):
    """period, mean motion and speed that are set"""
    it = k.it
    x = V('v0')
    mu = k.mu
    pos = [(x, GT0)]
    for how, val in (('an array', lambda: vec('v0')), ('a number', lambda: x)):
        for nm in ('period', 'mean_motion') if k.has_k else ():
            f = lambda o, nm=nm, val=val: it.setattr(o, nm, val())
            key0 = 'setting %s to %s' % (nm, how)

            def one(nm=nm, f=f, key0=key0):
                got = k.read('kepler', f)
                for rname, iv, val in REGIMES:
                    ag = k.agree(rname, iv, val, pos)
                    per = x
                    if nm == 'mean_motion':
                        per = div(k.turn, x)
                        if rname == 'parabolic':
                            per = div(per, fs(2))
                    elif unbound(rname):
                        continue
                    a = fn('cbrt', mul(mu, power(div(per, PI2), 2)))
                    key = '%s, %s orbits' % (key0, rname)
                    same_rows(ck, k, key + ', gives the size', ag, got, [a], [0])
                    same_rows(ck, k, key + ', keeps the other elements', ag, got, k.kep, range(1, 6))
                for other in ('m', 'epoch'):
                    same_value(ck, k, '%s keeps %s' % (key0, other), other, f)
                if on:
                    cart = k.read('cartesian', f)
                    kk = list(got[:5]) + [k.anom('true')]
                    wc = [simp1(mk('k2c', i, tuple(kk), (k.deg, mu))) for i in range(6)]
                    wc = [k.plain(t) for t in wc]
                    v, t = eqv(cart, wc, k.base)
                    ck.verdict('%s moves the Cartesian elements' % key0, v, '%s: %s' % (k.nm, t), t)
            ck.guard(key0, one)
        if not k.has_c:
            continue
        f = lambda o, val=val: it.setattr(o, 'velocity', val())
        key0 = 'setting velocity to %s' % how

        def vel(f=f, key0=key0):
            got = k.read('cartesian', f)
            V3 = k.cart[3:]
            norm = fs(add(add(power(V3[0], 2), power(V3[1], 2)), power(V3[2], 2)))
            want = k.cart[:3] + [div(mul(v, x), norm) for v in V3]
            ag = Agree(POSITIVE + pos)
            same_rows(ck, k, key0 + ' scales the velocity', ag, got, want, range(3, 6))
            same_rows(ck, k, key0 + ' keeps the position', ag, got, want, range(3))
            if on:
                kep = k.read('kepler', f)
                c2k = [simp1(mk('c2k', i, tuple(got), (k.deg, mu))) for i in range(6)]
                if k.typ != 'true':
                    c2k[5] = simp1(mk('anom', k.typ, 'true', c2k[5], c2k[1], k.deg))
                v, t = eqv(kep, c2k, k.base)
                ck.verdict('%s moves the Kepler elements' % key0, v, '%s: %s' % (k.nm, t), t)
        ck.guard(key0, vel)


def same_value(ck, k, key, nm, f):
    a, b = k.read(nm), k.read(nm, f)
    if isinstance(a, list) and isinstance(b, list):
        v, t = eqv(b, a, k.base)
    else:
        v, t = keyof(a) == keyof(b), '%s instead of %s' % (b, a)
    ck.verdict(key, v, '%s: %s' % (k.nm, t), t)


# ------------------------------------------------------------------ C27

def peel(t, typ):
    """the mean anomaly an anomaly was computed from"""
    if typ == 'mean':
        return t
    if isinstance(t, Node) and t.op == 'anom' and t.args[0] == typ and t.args[1] == 'mean':
        return t.args[2]
    return None


def run_propagate(ck):
    def work(ck, item):
        (auto, direct), typ, deg, hist = item
        k = ck.guard('state', lambda: Known(typ, deg, auto, direct, hist, epoch=V('ep')))
        if k is None:
            return
        it = k.it
        dt = V('dt')
        for how, val in (('a number', lambda: dt), ('an array', lambda: vec('dt'))):
            def f(o, val=val):
                it.call(it.getattr(o, 'propagate'), [val()], {})
            key0 = 'propagation by %s' % how

            def one(key0=key0, f=f):
                got = k.read('kepler', f)
                for rname, iv, val in REGIMES:
                    ag = k.agree(rname, iv, val)
                    key = '%s, %s orbits' % (key0, rname)
                    same_rows(ck, k, key + ', keeps the shape and plane', ag, got, k.kep, range(5))
                    n = quantities(k, rname)['mean_motion'][0][0]
                    M = add(k.anom('mean'), mul(n, dt))
                    if val is not None:
                        M = subst(M, {E_.id: val})
                    for ts, lits in ag.cases(got[5:]):
                        Y = peel(ts[0], typ)
                        if Y is None and rname != 'circular' and wrapped_mean(ag.facts, val, lits, ts[0], M, k.turn):
                            ck.bad(key + ', moves by mean motion', '%s: the mean anomaly is taken as %s anomaly' % (
                                k.nm, typ))
                            continue
                        t = bad_wrap(ag.facts, val, lits, Y, M, k.turn, unbound(rname))
                        if t:
                            ck.bad(key + ', moves by mean motion', '%s: %s' % (k.nm, t))
                            continue
                        if Y is None and isinstance(ts[0], Node) and ts[0].op == 'anom':
                            ck.bad(key + ', moves by mean motion', '%s: the %s anomaly is taken as mean anomaly' % (
                                k.nm, ts[0].args[1]))
                            continue
                        if Y is None:
                            ck.unknown(key + ', moves by mean motion', '%s: %s' % (k.nm, show(ts[0], 8)))
                            continue
                        ag2 = Agree(ag.facts, {E_: val} if val is not None else {}, lits)
                        hw = 'value' if unbound(rname) else 'degrees' if deg else 'angle'
                        v, t = ag2.agree([Y], [M], hw)
                        if v is None and hw != 'value':
                            v, t = Agree(ag.facts, {E_: val} if val is not None else {}, lits).agree(
                                [whole(Y, k.turn)], [M])
                        ck.verdict(key + ', moves by mean motion', v, '%s: %s' % (k.nm, t), '%s: %s' % (k.nm, t))
                        ck.count('propagations compared')
                for other in ('m', 'epoch', 'M0', 'G', 'type', 'degrees'):
                    same_value(ck, k, '%s keeps %s' % (key0, other), other, f)
                if auto or direct:
                    cart = k.read('cartesian', f)
                    kk = list(got[:5]) + [mk_anom('true', typ, got[5], E_, deg)]
                    wc = [k.plain(simp1(mk('k2c', i, tuple(kk), (deg, k.mu)))) for i in range(6)]
                    v, t = eqv(cart, wc, k.base)
                    ck.verdict('%s moves the Cartesian elements' % key0, v, '%s: %s' % (k.nm, t), t)
            ck.guard(key0, one)
        ck.saw(it)
    items = [(mo, typ, deg, hist) for mo in MODES for typ in KINDS for deg in (False, True) for hist in ('k', 'c', 'kx', 'ca')
             if any(mo) or hist == 'k']
    parallel(ck, items, work)


def wrapped_mean(facts, val, lits, t, M, turn):
    """t is the mean anomaly itself"""
    return Agree(facts, {E_: val} if val is not None else {}, lits).agree([whole(t, turn)], [M])[0] is True


def bad_wrap(facts, val, lits, t, M, turn, unbound):
    """the mean anomaly reduced by something that is no whole number of turns, or of an orbit that never returns"""
    if not (isinstance(t, Node) and t.op == 'mod'):
        return None
    if Agree(facts, {E_: val} if val is not None else {}, lits).agree([t.args[0]], [M])[0] is not True:
        return None
    if unbound:
        return 'the mean anomaly of an orbit that never returns is reduced modulo %s' % show(t.args[1], 4)
    c, u = constval(t.args[1]), constval(turn)
    if c and u and abs(c / u - round(c / u)) > 1e-9:
        return 'the mean anomaly is reduced modulo %s' % show(t.args[1], 4)
    return None


def whole(t, turn):
    """without whole turns"""
    if isinstance(t, Node) and t.op == 'mod' and same(t.args[1], turn):
        return t.args[0]
    return t

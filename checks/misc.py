"""C16 constants, C17 gravitational constant in other units, C33 equivalence
of Kepler elements."""
from .kep import *
from pyabs import engine as E
from . import general

# ------------------------------------------------------------------ C16

# what the documentation of the constants says, in SI units.  Measured values
# have their uncertainty, the others are exact.
CONSTANTS = {
    'pi': (math.pi, 0), 'e': (math.e, 0), '_2pi': (2 * math.pi, 0), '_4pi': (4 * math.pi, 0),
    'c': (299792458.0, 0), 'G': (6.6743e-11, 1e-4), 'wgs84_a': (6378137.0, 0), 'wgs84_invf': (298.257223563, 0),
    'wgs84_f': (1 / 298.257223563, 1e-14), 'wgs84_omega': (7292115e-11, 1e-8), 'wgs84_GM': (3986004.418e8, 1e-8),
    'wgs84_M_earth': (3986004.418e8 / 6.6743e-11, 1e-4), 'AU': (149597870700.0, 0), 'M_sol': (1.98847e30, 1e-3),
    'GM_sol': (1.32712440018e20, 1e-9),
    'K_a': (0, 0), 'K_e': (1, 0), 'K_i': (2, 0), 'K_om': (3, 0), 'K_OM': (4, 0), 'K_nu': (5, 0),
    'E_a': (0, 0), 'E_h': (1, 0), 'E_k': (2, 0), 'E_p': (3, 0), 'E_q': (4, 0), 'E_lam': (5, 0)}
EXPORTED = {'G': 'G', 'AU': 'AU', 'M_sol': 'M_sol', 'GM_sol': 'GM_sol', 'GM_earth': 'wgs84_GM',
            'M_earth': 'wgs84_M_earth'}


def number(x):
    """value of a constant term"""
    if isinstance(x, bool):
        return None
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, Node):
        try:
            return C.constval(x)
        except Exception:
            return None
    return None


def run_constants(ck):
    w = Kep()
    it = w.it
    c = w.mod.ns.get('const')
    if c is None:
        raise Missing('pyorb.const')

    def read(nm):
        return it.getattr(c, nm)
    names = list(CONSTANTS)
    for nm in names:
        key = 'const.%s has its documented value' % nm

        def val(nm=nm, key=key):
            try:
                v = w.do(lambda: read(nm))
            except PyRaise as e:
                ck.bad(key, 'there is no such constant: %s' % e.exc)
                return
            x = number(v)
            ref, tol = CONSTANTS[nm]
            if x is None:
                ck.unknown(key, 'value is %s' % show(v))
                return
            ck.verdict(key, abs(x - ref) <= max(tol, 1e-15) * abs(ref), 'is %r instead of %r' % (x, ref))
        ck.guard(key, val)
    # products of constants that are given on their own
    key = 'the mass and the gravitational parameter of the Earth agree'

    def earth():
        m, g, gm = (number(w.do(lambda n=n: read(n))) for n in ('wgs84_M_earth', 'G', 'wgs84_GM'))
        ck.verdict(key, abs(m * g / gm - 1) < 1e-12, '%r * %r is not %r' % (m, g, gm))
    ck.guard(key, earth)
    key = 'the mass and the gravitational parameter of the Sun agree'

    def sun():
        m, g, gm = (number(w.do(lambda n=n: read(n))) for n in ('M_sol', 'G', 'GM_sol'))
        ck.verdict(key, abs(m * g / gm - 1) < 1e-4, '%r * %r is not %r' % (m, g, gm))
    ck.guard(key, sun)
    for nm, src in EXPORTED.items():
        key = 'pyorb.%s is const.%s' % (nm, src)

        def exp(nm=nm, src=src, key=key):
            v = w.mod.ns.get(nm)
            ck.verdict(key, v is not None and number(v) == number(w.do(lambda: read(src))), 'is %s' % (
                'missing' if v is None else show(v)))
        ck.guard(key, exp)
    # assignments and deletions
    every = sorted(n for n in (c.attrs if isinstance(c, E.Obj) else {}) if not n.startswith('__'))
    every = every or names
    for nm in every:
        if callable(w.do(lambda: read(nm))):
            continue
        for what, f in (('rebound', lambda: it.setattr(c, nm, -17.5)),
                        ('deleted', lambda: delete(it, c, nm)),
                        ('deleted and rebound', lambda: (attempt(lambda: delete(it, c, nm)), it.setattr(c, nm, -17.5)))):
            key = 'const.%s cannot be %s' % (nm, what)

            def bind(nm=nm, f=f, key=key):
                def go():
                    before = read(nm)
                    exc = None
                    try:
                        f()
                    except PyRaise as e:
                        exc = e.exc
                    try:
                        after = read(nm)
                    except PyRaise:
                        after = None
                    return before, exc, after
                before, exc, after = w.do(go)
                if exc is None:
                    ck.bad(key, 'it is accepted')
                elif 'TypeError' not in exc.names and 'ConstError' not in str(exc):
                    ck.bad(key, 'it raises %s instead of ConstError' % exc)
                else:
                    ck.verdict(key, same(before, after) if after is not None else False,
                               'it raises but the value is %s' % show(after))
                ck.count('assignments tried')
            ck.guard(key, bind)
    shared_state(ck)
    function_state(ck)
    ck.saw(it)


def delete(it, o, nm):
    f = it.getattr(o, '__delattr__')
    return it.call(f, [nm], {})


def attempt(f):
    try:
        f()
    except PyRaise:
        pass


def shared(w):
    """everything that belongs to the modules and to the class"""
    out = {}
    for mn, m in w.it.modules.items():
        for k, v in (m.attrs if isinstance(m, E.Obj) else m.ns).items():
            if isinstance(v, (int, float, str, tuple, list, dict, Node)) and not k.startswith('__'):
                out['%s.%s' % (mn, k)] = keyof(v)
            elif isinstance(v, Arr):
                out['%s.%s' % (mn, k)] = keyof(v.buf.cells)
            elif isinstance(v, E.Obj):
                for a, x in v.attrs.items():
                    if isinstance(x, (int, float, str, tuple, list, dict, Node)):
                        out['%s.%s.%s' % (mn, k, a)] = keyof(x)
            elif isinstance(v, E.FuncVal):
                for a, x in list(enumerate(v.defaults)) + list(v.kwdefaults.items()) + list(v.attrs.items()):
                    if isinstance(x, (int, float, str, tuple, list, dict, Node)):
                        out['%s.%s default %s' % (mn, k, a)] = keyof(x)
                    elif isinstance(x, Arr):
                        out['%s.%s default %s' % (mn, k, a)] = keyof(x.buf.cells)
    for k, v in class_ns(w.Orbit).items():
        if isinstance(v, (int, float, str, tuple, list, dict, Node)) and not k.startswith('__'):
            out['Orbit.' + k] = keyof(v)
    return out


def class_ns(cls):
    for n in ('ns', 'attrs', 'members'):
        if isinstance(getattr(cls, n, None), dict):
            return getattr(cls, n)
    raise Unsupported('class namespace')


def shared_state(ck):
    """no operation on orbits changes constants, module variables or class
    attributes"""
    from . import public
    ck.count('shared values watched', len(shared(Lab())))

    def work(ck, item):
        (auto, direct), typ, deg = item
        w = Lab()
        it = w.it
        before = shared(w)
        for hist in ('k', 'c', 'kx', 'ca'):
            heap = ck.guard('state', lambda: w.state(typ, deg, auto, direct, hist))
            if heap is None:
                continue
            hb, base = open_flags(heap)
            for label, f in public.operations(w):
                key = '%s leaves constants and class attributes alone' % label

                def one(label=label, f=f, key=key):
                    def go():
                        o = restore(hb, w.Orbit)
                        attempt(lambda: f(o))
                        return shared(w)
                    after = w.do(go)
                    evs = [e for e in it.events_last if e['kind'] in ('moduleset', 'classset')]
                    d = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
                    if d or evs:
                        ck.bad(key, 'changes %s' % (sorted(d) or evs[0].get('name', evs[0])))
                    else:
                        ck.ok(key)
                ck.guard(key, one)
        ck.saw(it)
    parallel(ck, [(mo, typ, deg) for mo in MODES for typ in KINDS for deg in (False, True)], work)


def function_state(ck):
    """no function changes module state, whatever its arguments are, nor hands
    out memory that it keeps"""
    def work(ck, nm):
        w = Kep()
        install_solver(w)
        f = w.fn(nm)
        params, kinds, hasdeg = general.TABLE.get(nm, ((('z', general.DIMLESS),), (general.DIMLESS,), False))
        opts = 'solver_options' in params_of(f)
        for label, sh in general.shapes_of(params):
            for deg in ((False, True) if hasdeg else (False,)):
                for given in ((False, True) if opts else (False,)):
                    what = '%s of %s%s%s' % (nm, label, ' in degrees' if deg else '', ', solver options' if given else '')

                    def one(sh=sh, deg=deg, given=given, what=what):
                        def go():
                            a = [general.build(k, n, s_) for (n, k), s_ in zip(params, sh)]
                            kw = {'degrees': True} if deg else {}
                            if given:
                                kw['solver_options'] = {'tol': TOL, 'max_iter': MAXIT, 'degree': V('dg')}
                            before = shared(w)
                            r = w.it.call(f, a[:1] if params[0][1] in general.SIX else a,
                                          {**kw, **({'mu': a[1]} if params[0][1] in general.SIX and len(a) > 1 else {})})
                            kept = [x.buf.memo for x in (r if isinstance(r, (tuple, list)) else (r,))
                                    if isinstance(x, Arr) and x.buf.memo]
                            return before, shared(w), kept
                        before, after, kept = w.do(go)
                        d = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
                        evs = [e for e in w.it.events_last if e['kind'] in ('moduleset', 'classset')]
                        ck.verdict(what + ' leaves module state alone', not d and not evs, 'changes %s' % (
                            sorted(d) or [e.get('name', e) for e in evs]))
                        kept += [e['what'] for e in w.it.events_last if e['kind'] == 'memo_result']
                        ck.verdict(what + ' does not hand out what it keeps', not kept,
                                   'the result is kept by %s and returned again' % kept[:1])
                    ck.guard(what + ' leaves module state alone', one)
        ck.saw(w.it)
    parallel(ck, general.names_present(ck, Kep()), work)


def params_of(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


# ------------------------------------------------------------------ C17

MASS = {'kg': 1.0, 'g': 1e-3, 'msun': 1.98847e30, 'msol': 1.98847e30}
TIME = {'s': 1.0, 'h': 3600.0, 'd': 86400.0, 'y': 365.25 * 86400.0}
LENGTH = {'m': 1.0, 'cm': 1e-2, 'km': 1e3, 'au': 149597870700.0, 'pc': 3.0856775814913674e16}


def spellings(n, mass):
    out = [n, n.upper(), n.capitalize(), n[:1] + n[1:].upper()]
    if mass and len(n) > 2:
        out += ['M_sun', 'M sol', 'M-sun', 'm_SOL']
    return sorted(set(out))


def run_get_g(ck):
    w = Kep()
    it = w.it
    f = w.mod.ns.get('get_G')
    if f is None:
        raise Missing('pyorb.get_G')
    G = number(w.do(lambda: it.getattr(w.mod.ns['const'], 'G')))
    msun = number(w.do(lambda: it.getattr(w.mod.ns['const'], 'M_sol')))

    def call(*a, **kw):
        def go():
            try:
                return it.call(f, list(a), kw), None
            except PyRaise as e:
                return None, e.exc
        return w.do(go)

    def judge(key, args, ref, kw=None):
        def one():
            v, exc = call(*args, **(kw or {}))
            if exc is not None:
                ck.bad(key, 'raises %s' % exc)
                return
            x = number(v)
            if x is None:
                ck.unknown(key, 'is %s' % show(v))
                return
            ck.count('unit combinations')
            ck.verdict(key, abs(x - ref) <= 1e-12 * abs(ref), 'is %r instead of %r' % (x, ref))
        ck.guard(key, one)
    MASS['msun'] = MASS['msol'] = msun
    for ln, l in LENGTH.items():
        for mn, m in MASS.items():
            for tn, t in TIME.items():
                judge('get_G of %s, %s, %s' % (ln, mn, tn), (ln, mn, tn), G * m * t * t / l ** 3)
    ref = lambda l, m, t: G * MASS[m] * TIME[t] ** 2 / LENGTH[l] ** 3
    for n in LENGTH:
        for s in spellings(n, False):
            judge('length spelled %r' % s, (s, 'kg', 's'), ref(n, 'kg', 's'))
    for n in TIME:
        for s in spellings(n, False):
            judge('time spelled %r' % s, ('m', 'kg', s), ref('m', 'kg', n))
    for n in MASS:
        for s in spellings(n, True):
            n2 = 'msun' if len(n) > 2 else n
            judge('mass spelled %r' % s, ('m', s, 's'), ref('m', n2, 's'))
    judge('units given by keyword', (), ref('km', 'g', 'h'), dict(time='h', length='km', mass='g'))
    # own units as numbers, in every position
    L, M, T = V('L'), V('M'), V('T')
    pos = [(x, GT0) for x in (L, M, T)]
    for i in range(8):
        args = [L if i & 1 else 'km', M if i & 2 else 'g', T if i & 4 else 'h']
        vals = [L if i & 1 else 1e3, M if i & 2 else 1e-3, T if i & 4 else 3600.0]
        key = 'get_G of %s' % ', '.join('a number' if isinstance(a, Node) else a for a in args)

        def num(args=args, vals=vals, key=key):
            v, exc = call(*args)
            if exc is not None:
                ck.bad(key, 'raises %s' % exc)
                return
            got = [div(v, G)]
            want = [div(mul(vals[1], power(vals[2], 2)), power(vals[0], 3))]
            if not isinstance(got[0], Node):
                x, y = number(got[0]), number(want[0])
                r, t = (None, '') if x is None or y is None else (abs(x - y) <= 1e-12 * abs(y), '%r, %r' % (x, y))
            else:
                r, t = agree_float(pos, v, mul(G, want[0]))
            ck.verdict(key, r, t, t)
        ck.guard(key, num)
    # what is not a unit
    for bad in ('', 'xyz', 'kgs', 'ms', 'feet', 'lightyear', 'mm', 'sun'):
        for i, nm in enumerate(('length', 'mass', 'time')):
            args = ['m', 'kg', 's']
            args[i] = bad
            key = 'unknown %s unit %r is rejected' % (nm, bad)

            def rej(args=args, key=key):
                v, exc = call(*args)
                ck.verdict(key, exc is not None and 'TypeError' in exc.names, 'gives %s' % (
                    show(v) if exc is None else exc))
            ck.guard(key, rej)
    for i, nm in enumerate(('length', 'mass', 'time')):
        for bad in (None, [1.0], {}):
            args = ['m', 'kg', 's']
            args[i] = bad
            key = 'a %s of type %s is rejected' % (nm, type(bad).__name__)

            def rejt(args=args, key=key):
                v, exc = call(*args)
                ck.verdict(key, exc is not None and 'TypeError' in exc.names, 'gives %s' % (
                    show(v) if exc is None else exc))
            ck.guard(key, rejt)
    ck.saw(it)


def agree_float(facts, got, want):
    """equal up to the rounding of constant factors"""
    v, t = Agree(facts).agree([got], [want])
    if v is True:
        return v, t
    xs = [x for x in subterms(got).values() if x.op == 'var']
    ys = [x for x in subterms(want).values() if x.op == 'var']
    if {x.id for x in xs} != {y.id for y in ys}:
        return False, 'depends on %s' % [show(x) for x in xs]
    # the quotient is a constant near one
    q = nf.Deciding(facts, [])
    for k in (1,):
        r = div(got, want)
        c = constant_of(q, r)
        if c is not None:
            return abs(c - 1) < 1e-12, '%s instead of %s' % (show(got, 9), show(want, 9))
    return v, t


def constant_of(d, r):
    """the number a term without dependence on its variables is"""
    t = {}
    for x in subterms(r).values():
        if x.op == 'var':
            t[x.id] = 1.0
    one = number(subst(r, t))
    t2 = {k: 2.0 + i for i, k in enumerate(t)}
    two = number(subst(r, t2))
    if one is None or two is None:
        return None
    if abs(one - two) > 1e-9 * abs(one):
        return two / one * 2 if one else 2.0
    return one


# ------------------------------------------------------------------ C33

def run_equivalent(ck):
    w = Kep()
    w.fn('kep_equivalent')
    elim, ilim = w.k.ns.get('e_lim', 1e-9), w.k.ns.get('i_lim', mul(PI, 1e-9))
    P = [V('p%d' % i) for i in range(6)]
    Q = [V('q%d' % i) for i in range(6)]
    NM = ('a', 'e', 'i', 'omega', 'Omega', 'nu')

    def go():
        def six(vs):
            return fresh((6,), None, {(i,): v for i, v in enumerate(vs)}, 'f', origin='param:k')
        return w.it.call(w.fn('kep_equivalent'), [six(P), six(Q)], {})
    r = ck.guard('kep_equivalent', lambda: w.do(go))
    if r is None and not isinstance(r, bool):
        ck.unknown('kep_equivalent', 'no result')
        return
    D = [V('d%d' % i) for i in range(6)]
    thr = [('circular', 1, elim), ('planar', 2, ilim)]
    # differences: each element equal or not, the angles also in ways that
    # keep sums
    shifts = []
    for bits in range(64):
        shifts.append([D[i] if bits >> i & 1 else 0 for i in range(6)])
    for bits in range(8):
        b = [D[i] if bits >> i & 1 else 0 for i in range(3)]
        shifts.append(b + [D[3], neg(D[3]), 0])                      # omega + Omega kept
        shifts.append(b + [D[3], 0, neg(D[3])])                      # omega + nu
        shifts.append(b + [0, D[4], neg(D[4])])                      # Omega + nu
        shifts.append(b + [D[3], D[4], neg(add(D[3], D[4]))])        # all three
    import itertools
    n = 0
    for shift in shifts:
        for small in itertools.product((True, False), repeat=4):
            e1, e2, i1, i2 = small
            if shift[1] == 0 and e1 != e2 or shift[2] == 0 and i1 != i2:
                continue
            planar, circ = i1 and i2, e1 and e2
            om = add(shift[3], shift[4]) if planar else shift[3]
            need = [shift[0], shift[1] if not circ else 0]
            if circ:
                need.append(add(om, shift[5]))
            else:
                need += [om, shift[5]]
            if not planar:
                need += [shift[2], shift[4]]
            elif shift[2] != 0 or shift[1] != 0 and circ:
                continue        # below the limit: either answer
            if circ and shift[1] != 0:
                continue
            want = all(same(x, 0) or nf.Deciding([], []).equal(x, 0) is True for x in need)
            diff = [nm for nm, s in zip(NM, shift) if s != 0]
            key = 'elements that differ in %s, %s%s%s' % (
                ', '.join(diff) or 'nothing',
                'circular' if circ else 'eccentric' if not (e1 or e2) else 'one circular',
                ', planar' if planar else ', inclined' if not (i1 or i2) else ', one planar',
                ', sums kept' if sum(1 for s in shift[3:] if s != 0) > 1 and any(
                    same(add(shift[a], shift[b]), 0) for a, b in ((3, 4), (3, 5), (4, 5))) or same(
                        add(add(shift[3], shift[4]), shift[5]), 0) and shift[3] != 0 else '')

            def one(shift=shift, small=small, want=want, key=key):
                table = {q.id: add(p, s) for p, q, s in zip(P, Q, shift)}
                t = judge(subst(r, table), small, P, table, elim, ilim)
                if t is None:
                    ck.unknown(key, 'is %s' % show(subst(r, table), 6))
                else:
                    ck.verdict(key, t == want, 'they are %s' % ('equivalent' if t else 'not equivalent'))
            ck.guard(key, one)
            n += 1
    ck.count('patterns of differences', n)
    ck.saw(w.it)


def judge(r, small, P, table, elim, ilim):
    """truth of a term over closeness of elements and the two limits, with
    differences that are either zero or larger than any tolerance"""
    e1, e2, i1, i2 = small
    d = nf.Deciding([], [])
    memo = {}

    def low(x):
        """('e', True) if x is an eccentricity or inclination below its limit"""
        for j, (a, b) in ((1, (e1, e2)), (2, (i1, i2))):
            if same(x, P[j]):
                return a
            for q, s in table.items():
                if same(x, s) and s is not P[j] and any(same(x, add(P[j], z)) for z in (V('d%d' % j),)):
                    return b
        return None

    def size(x):
        if isinstance(x, Node) and x.op == 'fn' and x.args[0] in ('abs',):
            return size(x.args[1])
        return low(x)

    def plainly(x):
        """the alternatives of a term that are chosen"""
        gates = {}
        for y in (subterms(x).values() if isinstance(x, Node) else ()):
            if y.op == 'where':
                v = truth(y.args[0])
                if v is not None:
                    gates[y.args[0].id] = v
        return subst(x, gates) if gates else x

    def truth(t):
        if isinstance(t, bool):
            return t
        if not isinstance(t, Node):
            return bool(t) if isinstance(t, (int, float)) else None
        if t.id in memo:
            return memo[t.id]
        memo[t.id] = v = truth1(t)
        return v

    def truth1(t):
        if t.op == 'not':
            v = truth(t.args[0])
            return None if v is None else not v
        if t.op in ('and', 'or'):
            vs = [truth(x) for x in t.args]
            stop = t.op == 'or'
            if any(v is stop for v in vs):
                return stop
            return None if any(v is None for v in vs) else not stop
        if t.op == 'where':
            v = truth(t.args[0])
            return None if v is None else truth(t.args[1 if v else 2])
        if t.op == 'fn' and t.args[0] == 'isclose':
            if len(t.args) > 3 and any(not isnum(z) or z > m * 1.0001 for z, m in zip(t.args[3:], (1e-5, 1e-8))):
                return True         # too loose to see a difference
            return d.equal(plainly(t.args[1]), plainly(t.args[2]))
        if t.op in ('lt', 'le', 'eq'):
            a, b = t.args
            if t.op == 'eq' and isinstance(a, bool):
                v = truth(b)
                return None if v is None else v == a
            if t.op == 'eq' and (a == 0 or a == 1) and isinstance(b, Node) and b.op in ('fn', 'and', 'or', 'not'):
                v = truth(b)
                return None if v is None else v == bool(a)
            if t.op != 'eq':
                # |x - y| < tolerance
                for x, y, flip in ((a, b, False), (b, a, True)):
                    if isnum(y) or isinstance(y, Node) and not has_op(y, ('var',)):
                        v = size(x)
                        if v is not None:
                            return v != flip
                        if isinstance(x, Node) and x.op == 'fn' and x.args[0] == 'abs':
                            z = d.equal(x.args[1], 0)
                            if z is not None:
                                return z != flip
                        if isinstance(x, Node) and x.op == 'fn' and x.args[0] in ('maximum', 'minimum'):
                            vs = [size(z) for z in x.args[1:]]
                            if None not in vs:
                                return (all(vs) if x.args[0] == 'maximum' else any(vs)) != flip
            if t.op == 'eq':
                return d.equal(a, b)
        return None
    return truth(r)


# ------------------------------------------------------------------ C34

def run_wrapper(ck):
    """the decorator for angle units: which arguments and results of the
    decorated function are converted"""
    w = Kep()
    it = w.it
    f = it.load('pyorb.unit').ns.get('angle_units')
    if f is None:
        raise Missing('pyorb.unit.angle_units')
    RES = [V('r0'), V('r1'), V('r2')]

    def given(shape, i):
        return V('p%d' % i) if shape == 'numbers' else vec('p%d' % i)

    def one(ci, key, shape, inds, keys, outs, dflt, given_deg, nret, kws, fk):
        seen, results = [], []

        def body(a, k):
            seen.append((list(a), dict(k)))
            if nret == 0:
                return None
            rs = [r if shape == 'numbers' else vec('r%d' % i) for i, r in enumerate(RES[:max(nret, 1)])]
            return rs[0] if nret == 1 else tuple(rs)

        def go():
            args = [given(shape, i) for i in range(3)]
            bufs = [x for x in args if isinstance(x, Arr)]
            kw = {n: given(shape, 5 + i) for i, n in enumerate(kws)}
            bufs += [x for x in kw.values() if isinstance(x, Arr)]
            before = [x.get() for x in bufs]
            dec = it.call(f, [None if inds is None else list(inds), None if keys is None else list(keys),
                              list(outs) if isinstance(outs, tuple) else outs], {} if dflt is None else dict(degrees=dflt))
            g = it.call(dec, [E.Builtin('decorated', body)], {})
            call = dict(kw)
            if given_deg is not None:
                call['degrees'] = given_deg
            for _ in range(fk):
                # a function is decorated once and called many times
                r = it.call(g, list(args), dict(call))
                results.append(r)
            changed = [i for i, (x, v) in enumerate(zip(bufs, before)) if not same(x.get(), v)]
            return changed
        exc = None
        try:
            changed = w.do(go)
        except PyRaise as e:
            ck.bad(key, '%s: raises %s' % (ci, e.exc))
            return
        deg = given_deg if given_deg is not None else bool(dflt)
        if changed:
            ck.bad(key, '%s: the arguments of the caller are changed' % ci)
            return
        if len(seen) != fk:
            ck.bad(key, '%s: the function is called %d times' % (ci, len(seen)))
            return

        def term(x):
            return x.get() if isinstance(x, Arr) else x

        def same_as(x, name, conv, what):
            want = fn(conv, V(name)) if conv else V(name)
            v, t = Agree([], {}).agree([term(x)], [want], 'value')
            if v is not True:
                ck.verdict(key, v, '%s: %s is %s instead of %s' % (ci, what, show(term(x)), show(want)),
                           '%s: %s' % (ci, t))
            return v is True
        for (a, k), r in zip(seen, results):
            if len(a) != 3 or set(k) != set(kws):
                ck.bad(key, '%s: the function gets %d arguments and %s' % (ci, len(a), sorted(k)))
                return
            pos = {i % 3 for i in inds or ()}
            for i in range(3):
                if not same_as(a[i], 'p%d' % i, 'radians' if deg and i in pos else None, 'argument %d' % i):
                    return
            for i, n in enumerate(kws):
                if not same_as(k[n], 'p%d' % (5 + i), 'radians' if deg and n in (keys or ()) else None,
                               'argument %s' % n):
                    return
            if nret == 0:
                if r is not None:
                    ck.bad(key, '%s: a function without result gives %s' % (ci, show(r)))
                    return
                continue
            rs = [r] if nret == 1 else list(r) if isinstance(r, (tuple, list)) else [
                Arr_row(r, i) for i in range(nret)] if isinstance(r, Arr) else None
            if rs is None or len(rs) != nret:
                ck.verdict(key, None if not isinstance(r, (tuple, list)) else False, '%s: %d results' % (ci, len(rs or ())),
                           '%s: result %s' % (ci, show(r)))
                return
            conv = set(range(nret)) if outs is True else {i % nret for i in outs} if outs else set()
            for i in range(nret):
                if not same_as(rs[i], 'r%d' % i, 'degrees' if deg and i in conv else None, 'result %d' % i):
                    return
        ck.ok(key)
        ck.count('configurations')

    def Arr_row(r, i):
        rr = rows(r)
        return rr[i] if rr is not None and len(rr) > i else None
    for shape in ('numbers', 'arrays'):
        for dflt in (None, False, True):
            for gd in (None, False, True):
                for inds in (None, (0,), (1,), (0, 2), (-1,)):
                    for keys, kws in ((None, ()), (('th',), ('th',)), (('th', 'ph'), ('th',)), (('th', 'ph'), ('ph', 'th')), (('th',), ()),
                                      (('th',), ('q', 'th')), (None, ('th',))):
                        for outs, nret in ((None, 1), (None, 3), (True, 1), (True, 3), ((0,), 2), ((1,), 3), ((0, 2), 3), ((-1,), 2), ((-1, 0), 3),
                                           (None, 0), (True, 0), ((0,), 0)):
                            if nret != 1 and inds not in (None, (0, 2)) or keys and kws == () and inds != (1,):
                                continue
                            key = 'angles of %s, %s by %s' % (
                                shape, 'degrees' if (gd if gd is not None else dflt) else 'radians',
                                'the call' if gd is not None else 'default' if dflt is None else 'the decorator')
                            ci = 'positions %s, keywords %s given %s, results %s of %d' % (inds, keys, kws, outs, nret)
                            ck.guard(key, one, ci, key, shape, inds, keys, outs, dflt, gd, nret, kws,
                                     2 if inds == (0, 2) else 1)
    ck.saw(it)

"""Normal form of real expressions.

A value graph without gates is brought to a quotient of polynomials over interned
generators (variables, roots, sines of irreducible angles, inverse functions ...)
modulo the relations that hold between them (sin^2 = 1 - cos^2, sqrt(p)^2 = p,
...).  Equal normal forms are equal functions; different normal forms are
different functions if the generators left in the difference are independent.
Arithmetic is exact; nothing is evaluated at sample points.
"""
from fractions import Fraction as F
from math import gcd
from .core import *         # noqa


class NoForm(Exception):
    """no normal form"""


class Impossible(Exception):
    """the assumptions exclude each other"""


class Refine(Exception):
    pass


INF = float('inf')
MAXTERMS = 6000

# ------------------------------------------------------------ intervals
# (lo, hi, lo open, hi open)

ALL = (-INF, INF, True, True)


def iadd(a, b):
    return (a[0] + b[0], a[1] + b[1], a[2] or b[2], a[3] or b[3])


def _m(x, y):
    if x == 0 or y == 0:
        return F(0)
    return x * y


def imul(a, b):
    c = []
    for i, io in ((a[0], a[2]), (a[1], a[3])):
        for j, jo in ((b[0], b[2]), (b[1], b[3])):
            p = _m(i, j)
            o = io or jo
            if p == 0:
                # an attained zero is attained whatever the other does
                o = not ((i == 0 and not io) or (j == 0 and not jo))
            c.append((p, o))
    lo = min(x for x, _ in c)
    hi = max(x for x, _ in c)
    return (lo, hi, all(o for x, o in c if x == lo), all(o for x, o in c if x == hi))


def ipow(a, n):
    r = (F(1), F(1), False, False)
    if n % 2 == 0 and n:
        p = ipow(a, n // 2) if n > 2 else a
        if p[0] >= 0 or p[1] <= 0:
            return imul(p, p)
        q = imul(p, p)
        return (F(0), q[1], False, q[3])
    for _ in range(n):
        r = imul(r, a)
    return r


def imeet(a, b):
    lo, lop = max((a[0], a[2]), (b[0], b[2]))
    hi, hop = min((a[1], not a[3]), (b[1], not b[3]))
    hop = not hop
    if lo > hi or lo == hi and (lop or hop):
        raise Impossible()
    return (lo, hi, lop, hop)


def isign(i):
    """set of possible signs"""
    s = set()
    if i[0] < 0:
        s.add(-1)
    if i[1] > 0:
        s.add(1)
    if i[0] < 0 < i[1] or (i[0] == 0 and not i[2]) or (i[1] == 0 and not i[3]):
        s.add(0)
    return s


# ------------------------------------------------------------ generators

class Gen:
    __slots__ = ('id', 'kind', 'args', 'canon', 'opaque', 'rule', 'base', 'period', 'iv', 'partner')

    def __repr__(self):
        return '%s%d' % (self.kind, self.id)


ONE = {(): F(1)}
ZERO = {}
INVERSE = ('arctan', 'arccos', 'arcsin', 'arctan2', 'arctanh', 'arcsinh', 'arccosh', 'log')
OPAQUE_OPS = ('phi', 'loopout', 'unk', 'where', 'uninit', 'call', 'maybe', 'reduce', 'mixed')


class R:
    """quotient of polynomials"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n, self.d = n, d

    def key(self):
        return (tuple(sorted(self.n.items())), tuple(sorted(self.d.items())))


def nice(x):
    """exact value of a literal; decimals are meant as written"""
    if isinstance(x, bool):
        raise NoForm('truth value in arithmetic')
    if isinstance(x, int):
        return F(x)
    if x != x or x in (INF, -INF):
        raise NoForm('not a finite number')
    f = F(x).limit_denominator(1000)
    if f and abs(float(f) - x) <= 4e-16 * abs(x):
        return f
    return F(repr(x))


class Ctx:
    def __init__(self, intervals=None):
        self.unit = {}
        self.ivs0 = dict(intervals or {})       # node id -> interval
        self.plan = []                          # assumptions in order
        self.reset()

    def reset(self):
        self.gens = []
        self.bucket = {}
        self.memo = {}
        self.cache = {}
        self.pf = {}            # canonical polynomial key -> set of signs
        self.irr = []           # polynomials that occur as factors
        self.ivs = dict(self.ivs0)
        self.pi = self.gen('pi', (), canon=True)
        self.pi.iv = (F(314159, 100000), F(31416, 10000), True, True)

    # -------------------------------------------------------- generators
    def gen(self, kind, args, canon=True, opaque=False, eq=None):
        b = self.bucket.setdefault(kind, [])
        for g in b:
            if len(g.args) == len(args) and (eq(g) if eq else all(self.areq(x, y) for x, y in zip(g.args, args))):
                return g
        g = Gen()
        g.id, g.kind, g.args, g.canon, g.opaque = len(self.gens), kind, args, canon, opaque
        g.rule = g.base = g.period = g.partner = None
        g.iv = ALL
        for a in args:
            if isinstance(a, R):
                for h in self.gens_of(a):
                    g.canon = g.canon and h.canon
                    g.opaque = g.opaque or h.opaque
        self.gens.append(g)
        b.append(g)
        return g

    def areq(self, x, y):
        if isinstance(x, R) and isinstance(y, R):
            return self.eq(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.areq(p, q) for p, q in zip(x, y))
        if isinstance(x, R) or isinstance(y, R):
            return False
        if isinstance(x, Node) or isinstance(y, Node):
            return x is y
        return type(x) is type(y) and x == y

    def gens_of(self, r):
        if isinstance(r, tuple):
            out = []
            for x in r:
                out += self.gens_of(x)
            return out
        if not isinstance(r, R):
            return []
        ids = {g for p in (r.n, r.d) for m in p for g, _ in m}
        return [self.gens[i] for i in sorted(ids)]

    # -------------------------------------------------------- polynomials
    def mono_mul(self, a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for g, e in b:
            d[g] = d.get(g, 0) + e
        return tuple(sorted(d.items()))

    def red_mono(self, m):
        """polynomial a monomial reduces to, None if it is reduced"""
        r = self.cache.get(m, 0)
        if r != 0:
            return r
        r = None
        for i, (g, e) in enumerate(m):
            rule = self.gens[g].rule
            if rule is not None and e >= rule[0]:
                k, p = rule
                q, rest = divmod(e, k)
                mm = m[:i] + (((g, rest),) if rest else ()) + m[i + 1:]
                r = {mm: F(1)}
                for _ in range(q):
                    r = self.pmul(r, p)
                r = self.preduce(r)
                break
        self.cache[m] = r
        return r

    def preduce(self, p):
        if not any(self.red_mono(m) is not None for m in p):
            return p
        out = {}
        for m, c in p.items():
            r = self.red_mono(m)
            if r is None:
                out[m] = out.get(m, 0) + c
            else:
                for m2, c2 in r.items():
                    out[m2] = out.get(m2, 0) + c * c2
        return {m: c for m, c in out.items() if c}

    def padd(self, a, b, s=1):
        out = dict(a)
        for m, c in b.items():
            v = out.get(m, 0) + s * c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        return out

    def pmul(self, a, b):
        if len(a) * len(b) > 60 * MAXTERMS:
            raise NoForm('expression too large')
        out = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mono_mul(m1, m2)
                r = self.red_mono(m)
                if r is None:
                    out[m] = out.get(m, 0) + c1 * c2
                else:
                    for m3, c3 in r.items():
                        out[m3] = out.get(m3, 0) + c1 * c2 * c3
        out = {m: c for m, c in out.items() if c}
        if len(out) > MAXTERMS:
            raise NoForm('expression too large')
        return out

    def ppow(self, p, n):
        r = ONE
        while n:
            if n & 1:
                r = self.pmul(r, p)
            n >>= 1
            if n:
                p = self.pmul(p, p)
        return r

    def lead(self, p):
        """leading monomial in a fixed admissible order"""
        ids = sorted({g for m in p for g, _ in m})
        pos = {g: i for i, g in enumerate(ids)}

        def key(m):
            v = [0] * len(ids)
            for g, e in m:
                v[pos[g]] = e
            return (sum(v), v)
        return max(p, key=key)

    def pdiv(self, n, d):
        """exact quotient in the free polynomial ring, None if there is none"""
        if not d:
            return None
        if len(d) == 1:
            (m, c), = d.items()
            out = {}
            for k, v in n.items():
                q = self.mono_div(k, m)
                if q is None:
                    return None
                out[q] = v / c
            return out
        if len(n) < len(d) and len(n) <= 1:
            return None
        ids = sorted({g for p in (n, d) for m in p for g, _ in m})
        pos = {g: i for i, g in enumerate(ids)}

        def dense(m):
            v = [0] * len(ids)
            for g, e in m:
                v[pos[g]] = e
            return (sum(v),) + tuple(v)
        N = {dense(m): c for m, c in n.items()}
        D = {dense(m): c for m, c in d.items()}
        ld = max(D)
        # smallest terms have to divide as well
        if any(x < y for x, y in zip(min(N), min(D))) and min(N)[0] < min(D)[0]:
            return None
        Q = {}
        steps = 0
        while N:
            ln = max(N)
            q = tuple(x - y for x, y in zip(ln, ld))
            if min(q) < 0:
                return None
            c = N[ln] / D[ld]
            Q[q] = c
            for m, v in D.items():
                k = tuple(x + y for x, y in zip(q, m))
                w = N.get(k, 0) - c * v
                if w:
                    N[k] = w
                else:
                    N.pop(k, None)
            steps += 1
            if steps > 400 or len(N) > MAXTERMS:
                return None
        return {tuple((ids[i], e) for i, e in enumerate(q[1:]) if e): c for q, c in Q.items()}

    @staticmethod
    def mono_div(a, b):
        d = dict(a)
        for g, e in b:
            v = d.get(g, 0) - e
            if v < 0:
                return None
            if v:
                d[g] = v
            else:
                d.pop(g, None)
        return tuple(sorted(d.items()))

    @staticmethod
    def mono_gcd(ms):
        ms = list(ms)
        d = dict(ms[0])
        for m in ms[1:]:
            e = dict(m)
            d = {g: min(x, e[g]) for g, x in d.items() if g in e}
            if not d:
                break
        return tuple(sorted(d.items()))

    def primitive(self, p):
        """(content, primitive polynomial with positive leading coefficient)"""
        dn, nm = 1, 0
        for c in p.values():
            dn = dn * c.denominator // gcd(dn, c.denominator)
        for c in p.values():
            nm = gcd(nm, abs(c.numerator * (dn // c.denominator)))
        k = F(nm, dn)
        if p[self.lead(p)] < 0:
            k = -k
        return k, {m: c / k for m, c in p.items()}

    # -------------------------------------------------------- quotients
    def num(self, c):
        c = F(c)
        return R({(): c} if c else {}, ONE)

    def g(self, gen):
        return R({((gen.id, 1),): F(1)}, ONE)

    def make(self, n, d):
        if not d:
            raise NoForm('division by zero')
        if not n:
            return R({}, ONE)
        if len(d) == 1 and () in d:
            c = d[()]
            return R(n if c == 1 else {m: v / c for m, v in n.items()}, ONE)
        k = self.mono_gcd(list(n) + list(d))
        if k:
            n = {self.mono_div(m, k): c for m, c in n.items()}
            d = {self.mono_div(m, k): c for m, c in d.items()}
        if len(d) > 1:
            q = self.pdiv(n, d)
            if q is not None:
                return self.make(self.preduce(q), ONE)
            if len(n) > 1:
                q = self.pdiv(d, n)
                if q is not None:
                    n, d = ONE, self.preduce(q)
            if len(n) > 1 and len(d) > 1:
                for f in self.irr:
                    while len(d) > 1:
                        a = self.pdiv(d, f)
                        if a is None:
                            break
                        b = self.pdiv(n, f)
                        if b is None:
                            break
                        n, d = b, a
        elif len(n) > 1:
            pass
        if len(d) == 1 and () in d:
            c = d[()]
            return R({m: v / c for m, v in n.items()}, ONE)
        c, d = self.primitive(d)
        if c != 1:
            n = {m: v / c for m, v in n.items()}
        return R(n, d)

    def add(self, a, b, s=1):
        if a.d == b.d:
            return self.make(self.padd(a.n, b.n, s), a.d)
        if len(a.d) == 1 and len(b.d) == 1:
            (m1, c1), = a.d.items()
            (m2, c2), = b.d.items()
            l = dict(m1)
            for g, e in m2:
                l[g] = max(l.get(g, 0), e)
            l = tuple(sorted(l.items()))
            n = self.padd(self.pmul(a.n, {self.mono_div(l, m1): c2}), self.pmul(b.n, {self.mono_div(l, m2): c1}), s)
            return self.make(n, self.pmul({l: F(1)}, {(): c1 * c2}))
        q = self.pdiv(b.d, a.d)
        if q is not None:
            return self.make(self.padd(self.pmul(a.n, q), b.n, s), b.d)
        q = self.pdiv(a.d, b.d)
        if q is not None:
            return self.make(self.padd(a.n, self.pmul(b.n, q), s), a.d)
        k1, k2 = self.mono_gcd(a.d), self.mono_gcd(b.d)
        p1 = {self.mono_div(m, k1): c for m, c in a.d.items()}
        p2 = {self.mono_div(m, k2): c for m, c in b.d.items()}
        if p1 == p2:
            l = dict(k1)
            for g, e in k2:
                l[g] = max(l.get(g, 0), e)
            l = tuple(sorted(l.items()))
            n = self.padd(self.pmul(a.n, {self.mono_div(l, k1): F(1)}), self.pmul(b.n, {self.mono_div(l, k2): F(1)}), s)
            return self.make(n, self.pmul({l: F(1)}, p1))
        return self.make(self.padd(self.pmul(a.n, b.d), self.pmul(b.n, a.d), s), self.pmul(a.d, b.d))

    def sub(self, a, b):
        return self.add(a, b, -1)

    def mul(self, a, b):
        if a.d == ONE and b.d == ONE:
            return R(self.pmul(a.n, b.n), ONE)
        if a.d == b.n:
            return self.make(a.n, b.d)
        if b.d == a.n:
            return self.make(b.n, a.d)
        # cancel crosswise first, the products stay small
        x, y = self.make(a.n, b.d), self.make(b.n, a.d)
        return self.make(self.pmul(x.n, y.n), self.pmul(x.d, y.d))

    def inv(self, a):
        return self.make(a.d, a.n)

    def div(self, a, b):
        if not b.n:
            raise NoForm('division by zero')
        return self.mul(a, R(b.d, b.n))

    def pow(self, a, n):
        if n < 0:
            return self.pow(self.inv(a), -n)
        r = self.num(1)
        while n:
            if n & 1:
                r = self.mul(r, a)
            n >>= 1
            if n:
                a = self.mul(a, a)
        return r

    def neg(self, a):
        return R({m: -c for m, c in a.n.items()}, a.d)

    def eq(self, a, b):
        if a.d == b.d:
            return a.n == b.n
        return not self.padd(self.pmul(a.n, b.d), self.pmul(b.n, a.d), -1)

    def const(self, a):
        """rational value, None if it is not constant"""
        if a.d == ONE:
            if not a.n:
                return F(0)
            if len(a.n) == 1 and () in a.n:
                return a.n[()]
        return None

    # -------------------------------------------------------- signs
    def interval(self, p):
        r = (F(0), F(0), False, False)
        for m, c in p.items():
            t = (c, c, False, False)
            for g, e in m:
                t = imul(t, ipow(self.gens[g].iv, e))
            r = iadd(r, t)
        return r

    def signs(self, p, deep=True):
        """possible signs of a polynomial"""
        if not p:
            return {0}
        k, q = self.primitive(p)
        f = 1 if k > 0 else -1
        key = tuple(sorted(q.items()))
        s = {-1, 0, 1}
        if key in self.pf:
            s = s & self.pf[key]
        s = s & isign(self.interval(q))
        if len(s) > 1:
            s = s & self.vertex_signs(q)
        if len(s) > 1 and deep:
            # shift by a fact: p = c*fact + rest with rest of known sign
            fs = self.factors(p)
            if len(fs[1]) > 1 or fs[1] and fs[1][0][1] > 1:
                t = {1 if fs[0] > 0 else -1}
                for q2, e in fs[1]:
                    a = self.signs(q2, False)
                    if e % 2 == 0:
                        a = {x * x for x in a}
                    t = {x * y for x in t for y in a}
                s = {x * f for x in t} & s
        if not s:
            raise Impossible()
        return {x * f for x in s}

    def vertex_signs(self, p):
        """signs of a polynomial that is affine in powers of bounded generators:
        its extremes are at the corners"""
        every = {-1, 0, 1}
        ex = {}
        for m in p:
            for g, e in m:
                if ex.setdefault(g, e) != e:
                    return every
        if len(ex) > 6:
            return every
        vs = []
        for g, e in ex.items():
            lo, hi, lop, hop = ipow(self.gens[g].iv, e)
            if lo == -INF or hi == INF:
                return every
            vs.append((g, lo, hi, lop, hop))
        closed = [v for v in vs if not (v[3] and v[4])]
        opened = [v for v in vs if v[3] and v[4]]

        def value(pt):
            t = F(0)
            for m, c in p.items():
                for g, e in m:
                    c = c * pt[g]
                t += c
            return t

        def corners(vs):
            out = [{}]
            for g, lo, hi, _, _ in vs:
                out = [dict(o, **{}) | {g: x} for o in out for x in (lo, hi)]
            return out
        pos = neg = True        # strictly
        nneg = npos = True
        for c in corners(closed):
            w = [value(c | o) for o in corners(opened)]
            nneg = nneg and min(w) >= 0
            npos = npos and max(w) <= 0
            pos = pos and max(w) > 0
            neg = neg and min(w) < 0
        if nneg:
            return {1} if pos else {0, 1}
        if npos:
            return {-1} if neg else {-1, 0}
        return every

    def sgn(self, r):
        """-1, 0, 1 or None"""
        s = {x * y for x in self.signs(r.n) for y in self.signs(r.d)}
        if len(s) == 1:
            return s.pop()
        return None

    def nonneg(self, r):
        s = {x * y for x in self.signs(r.n) for y in self.signs(r.d)}
        return -1 not in s

    def single(self, q):
        """the generator the polynomial consists of"""
        if len(q) == 1:
            (m, c), = q.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return self.gens[m[0][0]]
        return None

    def factors(self, p):
        """(constant, [(polynomial, exponent)])"""
        k, p = self.primitive(p)
        out = []
        m = self.mono_gcd(p)
        if m:
            p = {self.mono_div(x, m): c for x, c in p.items()}
            for g, e in m:
                out.append(({((g, 1),): F(1)}, e))
        if len(p) > 1:
            cand = []
            ids = {g for m in p for g, _ in m}
            for i in ids:
                g = self.gens[i]
                v = ((i, 1),)
                if g.kind == 'cos':
                    cand.append((self.psub1(i, -1), {((g.partner.id, 1),): F(1)}, 2))
                elif g.kind == 'sinh':
                    cand.append((self.psub1(i, 1), {((g.partner.id, 1),): F(1)}, 2))
                if g.kind in ('var', 'cos', 'free'):
                    cand.append(({v: F(1), (): F(-1)}, None, 1))
                    cand.append(({v: F(1), (): F(1)}, None, 1))
            for f in self.irr:
                cand.append((f, None, 1))
            for f, rep, mult in cand:
                if len(p) == 1:
                    break
                e = 0
                while len(p) > 1:
                    q = self.pdiv(p, f)
                    if q is None:
                        break
                    p, e = q, e + 1
                if e:
                    if rep is not None:
                        out.append((rep, mult * e))
                    else:
                        out.append((f, e))
            if p:
                k2, p = self.primitive(p)
                k *= k2
            if p != ONE:
                if len(p) == 1:
                    (mm, c), = p.items()
                    k *= c
                    for g, e in mm:
                        out.append(({((g, 1),): F(1)}, e))
                else:
                    q = self.psqrt(p)
                    if q is not None:
                        out.append((q, 2))
                    else:
                        out.append((p, 1))
        return k, out

    def psub1(self, i, s):
        """1 + s*g^2"""
        return {(): F(1), ((i, 2),): F(s)}

    def psqrt(self, p):
        """polynomial whose square is p in the free ring"""
        c = p[self.lead(p)]
        l = self.lead(p)
        if any(e % 2 for _, e in l):
            return None
        r = isq(c)
        if r is None or len(p) > 200:
            return None
        root = {tuple((g, e // 2) for g, e in l): r}
        lm = list(root)[0]

        def sq(q):
            out = {}
            for m1, c1 in q.items():
                for m2, c2 in q.items():
                    m = self.mono_mul(m1, m2)
                    out[m] = out.get(m, 0) + c1 * c2
            return {m: c for m, c in out.items() if c}
        for _ in range(20):
            rest = self.padd(p, sq(root), -1)
            if not rest:
                return root
            m = self.lead(rest)
            q = self.mono_div(m, lm)
            if q is None or q in root:
                return None
            root[q] = rest[m] / (2 * r)
        return None

    def register(self, p):
        if len(p) > 1 and p not in self.irr:
            self.irr.append(p)

    # -------------------------------------------------------- assumptions
    def restrict(self, r, allowed):
        """the value has one of the signs"""
        ds = self.signs(r.d)
        p = r.n
        if len(ds) > 1 or 0 in ds:
            p = self.pmul(r.n, r.d)
            ds = {1}
        s = ds.pop()
        allowed = {x * s for x in allowed}
        if not p:
            if 0 not in allowed:
                raise Impossible()
            return
        cur = self.signs(p)
        if not cur & allowed:
            raise Impossible()
        k, q = self.primitive(p)
        f = 1 if k > 0 else -1
        al = {x * f for x in allowed}
        # linear in one generator
        if len(q) <= 2:
            lin = [m for m in q if m]
            if len(lin) == 1 and len(lin[0]) == 1 and lin[0][0][1] == 1:
                g = self.gens[lin[0][0][0]]
                c = -q.get((), F(0)) / q[lin[0]]
                iv = ALL
                if al == {1}:
                    iv = (c, INF, True, True)
                elif al == {0, 1}:
                    iv = (c, INF, False, True)
                elif al == {-1}:
                    iv = (-INF, c, True, True)
                elif al == {-1, 0}:
                    iv = (-INF, c, True, False)
                elif al == {0}:
                    iv = (c, c, False, False)
                g.iv = imeet(g.iv, iv)
        fs = self.factors(q)
        if len(fs[1]) > 1:
            unk = [(x, e) for x, e in fs[1] if len(self.signs(x, False)) > 1]
            if len(unk) == 1 and unk[0][1] == 1 and 0 not in al:
                s = 1 if fs[0] > 0 else -1
                for x, e in fs[1]:
                    if x is not unk[0][0]:
                        s *= list(self.signs(x, False))[0] ** e
                x = unk[0][0]
                kk, xx = self.primitive(x)
                s *= 1 if kk > 0 else -1
                self._pf(xx, {y * s for y in al})
        self._pf(q, al)

    def _pf(self, q, al):
        key = tuple(sorted(q.items()))
        self.pf[key] = self.pf.get(key, {-1, 0, 1}) & al
        if not self.pf[key]:
            raise Impossible()
        self.register(q)

    def assume(self, atom, val):
        """comparison literal over finite values"""
        a, b = atom.args
        r = self.sub(self.nf(b), self.nf(a))
        al = {'lt': {1}, 'le': {0, 1}, 'eq': {0}}[atom.op]
        if not val:
            al = {-1, 0, 1} - al
        self.restrict(r, al)

    # -------------------------------------------------------- roots, abs
    def absp(self, p):
        k, fs = self.factors(p)
        out = self.num(abs(k))
        for q, e in fs:
            s = self.signs(q)
            r = R(q, ONE)
            if -1 not in s:
                pass
            elif 1 not in s:
                r = self.neg(r)
            elif e % 2 == 0:
                pass
            else:
                g = self.gen('abs', (r,), canon=False)
                if g.rule is None:
                    g.rule = (2, self.pmul(q, q))
                    g.iv = (F(0), INF, False, True)
                r = self.g(g)
            out = self.mul(out, self.pow(r, e))
        return out

    def abs(self, r):
        s = self.sgn(r)
        if s is not None:
            return r if s >= 0 else self.neg(r)
        return self.div(self.absp(r.n), self.absp(r.d))

    def sqrtgen(self, p):
        """generator of the root of a polynomial of positive content 1"""
        r = R(p, ONE)
        g = self.gen('sqrt', (r,))
        if g.rule is None:
            g.rule = (2, p)
            pos = self.signs(p) == {1}
            g.iv = (F(0), INF, pos, True)
            self.register(p)
            self.cache = {}
        return self.g(g)

    def sqrt(self, r):
        if not r.n:
            return self.num(0)
        s = self.sgn(r)
        if s == -1:
            raise NoForm('root of a negative value')
        k1, f1 = self.factors(r.n)
        k2, f2 = self.factors(r.d)
        k = k1 / k2
        for fs, inv in ((f1, False), (f2, True)):
            for q, e in fs:
                g = self.single(q)
                if e % 2 and g is not None and g.rule and g.rule[0] == 3:
                    # c = c^4/c^3 and 1/c = c^2/c^3: the root of a cube root is no new value
                    c, cube = self.g(g), R(g.rule[1], ONE)
                    if inv:
                        return self.mul(self.abs(c), self.sqrt(self.div(self.mul(r, c), cube)))
                    return self.mul(self.mul(c, c), self.sqrt(self.div(r, self.mul(c, cube))))
        out = self.num(1)
        sign = 1
        if k < 0:
            sign, k = -1, -k
        out = self.mul(out, self.sqrtnum(k))
        rest = ONE
        # the same factor in both is one factor
        for fs, inv in ((f1, False), (f2, True)):
            for q, e in fs:
                h, odd = divmod(e, 2)
                t = self.num(1)
                if h:
                    t = self.pow(self.absp(q), h)
                if odd:
                    sg = self.signs(q)
                    if 1 not in sg:
                        sign, q2 = -sign, {m: -c for m, c in q.items()}
                        sg = {-x for x in sg}
                    else:
                        q2 = q
                    if -1 not in sg:
                        c, q3 = self.primitive(q2)
                        if c < 0:
                            c, q3 = -c, {m: -v for m, v in q3.items()}
                        t = self.mul(t, self.mul(self.sqrtnum(c), self.sqrtgen(q3)))
                    else:
                        rest = self.pmul(rest, q2)
                        if inv:
                            # sqrt(x/q) = sqrt(x*q)/|q|
                            t = self.mul(t, self.absp(q2))
                out = self.div(out, t) if inv else self.mul(out, t)
        if rest != ONE:
            rest = {m: c * sign for m, c in rest.items()}
            c, q = self.primitive(rest)
            if c < 0:
                c, q = -c, {m: -v for m, v in q.items()}
            out = self.mul(out, self.mul(self.sqrtnum(c), self.sqrtgen(q)))
        elif sign < 0:
            raise NoForm('root of a negative value')
        return out

    def sqrtnum(self, k):
        n = k.numerator * k.denominator
        out, i = 1, 2
        if n > 10 ** 30:
            g = self.gen('sqrt', (self.num(n),))
            g.rule = (2, {(): F(n)})
            g.iv = (F(0), INF, True, True)
            return self.mul(self.g(g), self.num(F(1, k.denominator)))
        while i * i <= n and i < 2000:
            while n % (i * i) == 0:
                n //= i * i
                out *= i
            i += 1
        r = isq(F(n))
        if r is not None:
            out, n = out * r, 1
        res = self.num(F(out) / k.denominator)
        if n != 1:
            g = self.gen('sqrt', (self.num(n),))
            g.rule = (2, {(): F(n)})
            g.iv = (F(0), INF, True, True)
            res = self.mul(res, self.g(g))
        return res

    def cbrt(self, r):
        if not r.n:
            return self.num(0)
        k1, f1 = self.factors(r.n)
        k2, f2 = self.factors(r.d)
        for fs, inv in ((f1, False), (f2, True)):
            for q, e in fs:
                g = self.single(q)
                if e % 3 and g is not None and g.rule and g.rule[0] == 2:
                    # s = s^3/s^2: the cube root of a root is no new value
                    s, sq = self.g(g), R(g.rule[1], ONE)
                    if inv:
                        return self.div(self.cbrt(self.mul(r, self.mul(s, sq))), s)
                    return self.mul(s, self.cbrt(self.div(self.div(r, s), sq)))
        k = k1 / k2
        sign = 1 if k > 0 else -1
        k = abs(k)
        n = k.numerator * k.denominator ** 2
        o, i = 1, 2
        while i ** 3 <= n and i < 2000:
            while n % i ** 3 == 0:
                n //= i ** 3
                o *= i
            i += 1
        out = self.num(F(o * sign, k.denominator))
        rest = {(): F(n)}
        for fs, inv in ((f1, False), (f2, True)):
            for q, e in fs:
                if inv:
                    # 1/q^e = q^(3j-e) / q^(3j)
                    j = -(-e // 3)
                    out = self.div(out, self.pow(R(q, ONE), j))
                    e = 3 * j - e
                h, odd = divmod(e, 3)
                out = self.mul(out, self.pow(R(q, ONE), h))
                if odd:
                    rest = self.pmul(rest, self.ppow(q, odd))
        if rest != ONE:
            c, q = self.primitive(rest)
            if c < 0:
                rest = {m: -v for m, v in rest.items()}
                out = self.neg(out)
            g = self.gen('cbrt', (R(rest, ONE),))
            if g.rule is None:
                g.rule = (3, rest)
                s = self.signs(rest)
                g.iv = (F(0), INF, s == {1}, True) if -1 not in s else ALL
                self.cache = {}
            out = self.mul(out, self.g(g))
        return out

    # -------------------------------------------------------- angles
    def terms(self, r):
        """[(coefficient, R with coefficient 1)]"""
        if len(r.d) == 1:
            (dm, dc), = r.d.items()
            return [(c / dc, self.make({m: F(1)}, {dm: F(1)})) for m, c in r.n.items()]
        c = r.n[self.lead(r.n)]
        return [(c, R({m: v / c for m, v in r.n.items()}, r.d))]

    def wrapped(self, t):
        """(generator, cofactor) if the term is a multiple of a wrapped value"""
        if len(t.n) != 1:
            return None
        (m, c), = t.n.items()
        for g, e in m:
            w = self.gens[g]
            if w.base is not None and e == 1:
                co = self.make({self.mono_div(m, ((g, 1),)): c}, t.d)
                return w, co
        return None

    def turns(self, r):
        """r as a rational multiple of pi, None"""
        if not r.n:
            return F(0)
        if r.d == ONE and len(r.n) == 1:
            (m, c), = r.n.items()
            if m == ((self.pi.id, 1),):
                return c
        return None

    def unwrap(self, r, half):
        """replace wrapped values by their representatives when the
        difference is a multiple of 2 pi (pi if `half`)"""
        for _ in range(8):
            again = False
            for q, t in self.terms(r):
                w = self.wrapped(t)
                if w is None:
                    continue
                g, co = w
                co = self.mul(co, self.num(q))
                k = self.turns(self.mul(co, g.period))
                if k is None:
                    continue
                k = k if half else k / 2
                if k.denominator == 1:
                    r = self.add(r, self.mul(co, self.sub(g.base, self.g(g))))
                    again = True
                    break
            if not again:
                return r
        raise NoForm('nested wrapping')

    def base_angle(self, q, t, kind):
        """(multiple, unit, key): q*t = multiple * unit * t"""
        inv = self.inverse_gen(t)
        key = (kind,) + t.key()
        # generator numbers are stable only within one attempt
        u = self.unit.get(self.stable(key))
        if u is None:
            u = abs(q) if inv is None else F(gcd(q.numerator, q.denominator), q.denominator)
            self.unit[self.stable(key)] = u
        n = q / u
        if n.denominator != 1:
            self.unit[self.stable(key)] = fgcd(u, abs(q))
            raise Refine()
        return int(n), u, inv

    def stable(self, key):
        def name(g):
            x = self.gens[g]
            return (x.kind,) + tuple(self.argname(a) for a in x.args)
        kind, n, d = key
        return (kind, tuple(sorted((tuple((name(g), e) for g, e in m), c) for m, c in n)) if False else
                str([([(name(g), e) for g, e in m], str(c)) for m, c in n]),
                str([([(name(g), e) for g, e in m], str(c)) for m, c in d]))

    def argname(self, a):
        if isinstance(a, R):
            return str([([(self.gname(g), e) for g, e in m], str(c)) for p in (a.n, a.d)
                        for m, c in sorted(p.items())])
        if isinstance(a, tuple):
            return str([self.argname(x) for x in a])
        if isinstance(a, Node):
            return 'n%d' % a.id
        return repr(a)

    def gname(self, g):
        x = self.gens[g]
        return (x.kind,) + tuple(self.argname(a) for a in x.args)

    def inverse_gen(self, t):
        if t.d == ONE and len(t.n) == 1:
            (m, c), = t.n.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                g = self.gens[m[0][0]]
                if g.kind in INVERSE:
                    return g
        return None

    def cs_unit(self, u, t, inv):
        """cos and sin of the angle u*t"""
        if inv is not None and u == 1:
            x = inv.args[0]
            one = self.num(1)
            if inv.kind == 'arccos':
                return x, self.sqrt(self.sub(one, self.mul(x, x)))
            if inv.kind == 'arcsin':
                return self.sqrt(self.sub(one, self.mul(x, x))), x
            if inv.kind == 'arctan':
                c = self.inv(self.sqrt(self.add(one, self.mul(x, x))))
                return c, self.mul(x, c)
            if inv.kind == 'arctan2':
                y, x = inv.args
                n = self.sqrt(self.add(self.mul(y, y), self.mul(x, x)))
                return self.div(x, n), self.div(y, n)
        arg = self.mul(self.num(u), t)
        c = self.gen('cos', (arg,))
        if c.partner is None:
            s = self.gen('sin', (arg,))
            c.partner, s.partner = s, c
            if inv is not None:
                c.canon = s.canon = False
            c.iv = s.iv = (F(-1), F(1), False, False)
            s.rule = (2, self.psub1(c.id, -1))
            self.cache = {}
        return self.g(c), self.g(c.partner)

    def cossin(self, r, half=False):
        """cos, sin of an angle (up to a common sign if half)"""
        r = self.unwrap(r, half)
        C, S = self.num(1), self.num(0)
        if not r.n:
            return C, S
        for q, t in self.terms(r):
            k = self.turns(t)
            if k is not None:
                q = q * k * 2           # quarter turns
                if q.denominator != 1:
                    c, s = self.special(q)
                else:
                    c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][int(q) % 4]
                    c, s = self.num(c), self.num(s)
            else:
                n, u, inv = self.base_angle(q, t, 'a')
                c1, s1 = self.cs_unit(u, t, inv)
                if n < 0:
                    n, s1 = -n, self.neg(s1)
                if n > 12:
                    raise NoForm('large multiple of an angle')
                c, s = self.num(1), self.num(0)
                for _ in range(n):
                    c, s = (self.sub(self.mul(c, c1), self.mul(s, s1)), self.add(self.mul(s, c1), self.mul(c, s1)))
            C, S = (self.sub(self.mul(C, c), self.mul(S, s)), self.add(self.mul(S, c), self.mul(C, s)))
        return C, S

    def special(self, q):
        """cos, sin of q quarter turns"""
        q = q % 4
        rot = 0
        while q >= 1:
            q -= 1
            rot += 1
        h = F(1, 2)
        if q == h:
            x = self.mul(self.num(h), self.sqrtnum(F(2)))
            c, s = x, x
        elif q == F(1, 3):
            c, s = self.mul(self.num(h), self.sqrtnum(F(3))), self.num(h)
        elif q == F(2, 3):
            c, s = self.num(h), self.mul(self.num(h), self.sqrtnum(F(3)))
        else:
            raise NoForm('constant angle')
        for _ in range(rot):
            c, s = self.neg(s), c
        return c, s

    def ch_unit(self, u, t, inv):
        if inv is not None and u == 1:
            x = inv.args[0]
            one = self.num(1)
            if inv.kind == 'arctanh':
                c = self.inv(self.sqrt(self.sub(one, self.mul(x, x))))
                return c, self.mul(x, c)
            if inv.kind == 'arcsinh':
                return self.sqrt(self.add(one, self.mul(x, x))), x
            if inv.kind == 'arccosh':
                return x, self.sqrt(self.sub(self.mul(x, x), one))
        arg = self.mul(self.num(u), t)
        s = self.gen('sinh', (arg,))
        if s.partner is None:
            c = self.gen('cosh', (arg,))
            c.partner, s.partner = s, c
            if inv is not None:
                c.canon = s.canon = False
            c.iv = (F(1), INF, False, True)
            sg = self.signs(arg.n) if arg.d == ONE else {-1, 0, 1}
            s.iv = (F(0), INF, sg == {1}, True) if -1 not in sg else ALL
            c.rule = (2, self.psub1(s.id, 1))
            self.cache = {}
        return self.g(s.partner), self.g(s)

    def coshsinh(self, r):
        C, S = self.num(1), self.num(0)
        if not r.n:
            return C, S
        for q, t in self.terms(r):
            n, u, inv = self.base_angle(q, t, 'h')
            c1, s1 = self.ch_unit(u, t, inv)
            if n < 0:
                n, s1 = -n, self.neg(s1)
            if n > 12:
                raise NoForm('large multiple')
            for _ in range(n):
                C, S = (self.add(self.mul(C, c1), self.mul(S, s1)), self.add(self.mul(S, c1), self.mul(C, s1)))
        return C, S

    # -------------------------------------------------------- inverse functions
    def wrap(self, base, period):
        """a value that differs from base by a multiple of the period"""
        g = self.gen('wrap', (base, period), canon=False)
        g.base, g.period = base, period
        return self.g(g)

    def frac(self, r):
        """r - floor(r)"""
        for _ in range(8):
            again = False
            for q, t in self.terms(r) if r.n else []:
                w = self.wrapped(t)
                if w is None:
                    continue
                g, co = w
                co = self.mul(co, self.num(q))
                k = self.const(self.mul(co, g.period))
                if k is not None and k.denominator == 1:
                    r = self.add(r, self.mul(co, self.sub(g.base, self.g(g))))
                    again = True
                    break
            if not again:
                break
        for q, t in self.terms(r) if r.n else []:
            if self.const(t) == 1:
                r = self.sub(r, self.num(q.numerator // q.denominator))
                break
        c = self.const(r)
        if c is not None:
            return self.num(c)
        # known to lie in [0, 1)
        if r.d == ONE:
            iv = self.interval(r.n)
            if iv[0] >= 0 and (iv[1] < 1 or iv[1] == 1 and iv[3]):
                return r
        g = self.gen('frac', (r,), canon=False)
        g.base, g.period = r, self.num(1)
        g.iv = (F(0), F(1), False, True)
        return self.g(g)

    def mod(self, a, b):
        s = self.sgn(b)
        if s != 1:
            raise NoForm('modulus of unknown sign')
        return self.mul(b, self.frac(self.div(a, b)))

    def trig_pair(self, y, x):
        """the angle whose sine and cosine are proportional to y and x"""
        for g in self.bucket.get('cos', []):
            if g.partner is None:
                continue
            c, s = self.g(g), self.g(g.partner)
            d = self.sub(self.mul(y, c), self.mul(x, s))
            if not d.n:
                return g.args[0], self.sgn(self.add(self.mul(y, s), self.mul(x, c)))
        return None

    def odd(self, r):
        """(sign, representative)"""
        if r.n and r.n[self.lead(r.n)] < 0:
            return -1, self.neg(r)
        return 1, r

    def inverse(self, name, args):
        x = args[0]
        if name == 'arctan2':
            y, x = args
            if not y.n and self.sgn(x) == 1:
                return self.num(0)
            p = self.trig_pair(y, x)
            if p is not None and p[1] == 1:
                return self.wrap(p[0], self.mul(self.num(2), self.g(self.pi)))
            if self.sgn(x) == 1:
                return self.inverse('arctan', [self.div(y, x)])

            def eq(g):
                y2, x2 = g.args
                return self.eq(self.mul(y, x2), self.mul(x, y2)) and \
                    self.sgn(self.add(self.mul(x, x2), self.mul(y, y2))) == 1
            return self.g(self.gen('arctan2', (y, x), canon=False, eq=eq))
        c = self.const(x)
        h = self.mul(self.num(F(1, 2)), self.g(self.pi))
        if name == 'arccos':
            if c in (1, 0, -1):
                return self.num(0) if c == 1 else h if c == 0 else self.g(self.pi)
            s, x = self.odd(x)
            g = self.g(self.igen('arccos', x))
            return g if s > 0 else self.sub(self.g(self.pi), g)
        if name == 'arcsin':
            if c in (1, 0, -1):
                return self.mul(self.num(c), h)
        if name in ('arctan', 'arctanh', 'arcsinh') and c == 0:
            return self.num(0)
        if name == 'arctan':
            if c in (1, -1):
                return self.mul(self.num(c / 2), h)
            p = self.trig_pair(x, self.num(1))
            if p is not None:
                return self.wrap(p[0], self.g(self.pi))
        if name in ('arctanh', 'arcsinh'):
            for g in self.bucket.get('sinh', []):
                if g.partner is None:
                    continue
                s, ch = self.g(g), self.g(g.partner)
                want = self.div(s, ch) if name == 'arctanh' else s
                for sg in (1, -1):
                    if self.eq(x, self.mul(self.num(sg), want)):
                        return self.mul(self.num(sg), g.args[0])
        if name in ('arctan', 'arcsin', 'arctanh', 'arcsinh'):
            s, x = self.odd(x)
            g = self.g(self.igen(name, x))
            return g if s > 0 else self.neg(g)
        return self.g(self.igen(name, x))

    def igen(self, name, x):
        g = self.gen(name, (x,), canon=False)
        p = F(31416, 10000)
        g.iv = {'arccos': (F(0), p, False, True), 'arctan': (-p / 2, p / 2, True, True),
                'arcsin': (-p / 2, p / 2, True, True), 'arccosh': (F(0), INF, False, True)}.get(name, ALL)
        return g

    # -------------------------------------------------------- terms
    def nf(self, x):
        if not isinstance(x, Node):
            if isnum(x):
                return self.num(nice(x))
            raise NoForm('no number: %r' % (x,))
        r = self.memo.get(x.id)
        if r is None:
            r = self.memo[x.id] = self.nf1(x)
        return r

    def leafgen(self, x):
        g = self.gen('var', (x,))
        if x.id in self.ivs:
            g.iv = self.ivs.pop(x.id)
        return self.g(g)

    def nf1(self, x):
        op, a = x.op, x.args
        if op in ('var', 'ext', 'cst'):
            return self.leafgen(x)
        if op == 'pi':
            return self.g(self.pi)
        if op == 'add':
            return self.add(self.nf(a[0]), self.nf(a[1]))
        if op == 'mul':
            return self.mul(self.nf(a[0]), self.nf(a[1]))
        if op == 'neg':
            return self.neg(self.nf(a[0]))
        if op == 'div':
            return self.div(self.nf(a[0]), self.nf(a[1]))
        if op == 'pow':
            if isnum(a[1]):
                e = nice(a[1])
                b = self.nf(a[0])
                if e.denominator == 1 and abs(e) <= 40:
                    return self.pow(b, int(e))
                if e.denominator == 2 and abs(e) <= 20:
                    return self.pow(self.sqrt(b), e.numerator)
                if e.denominator == 3 and abs(e) <= 20 and self.nonneg(b):
                    return self.pow(self.cbrt(b), e.numerator)
            return self.freegen(x)
        if op == 'mod':
            return self.mod(self.nf(a[0]), self.nf(a[1]))
        if op == 'fn':
            return self.function(x, a[0], a[1:])
        if op in ('lt', 'le', 'eq', 'and', 'or', 'not', 'nan', 'str'):
            raise NoForm('no number: %s' % op)
        if op in OPAQUE_OPS:
            g = self.gen('opaque', (x,), canon=False, opaque=True)
            return self.g(g)
        return self.freegen(x)

    def freegen(self, x):
        def conv(y):
            if isinstance(y, tuple):
                return tuple(conv(z) for z in y)
            if isinstance(y, Node):
                try:
                    return self.nf(y)
                except NoForm:
                    return y
            return y
        return self.g(self.gen('free', (x.op,) + tuple(conv(y) for y in x.args)))

    def function(self, x, name, a):
        if name in ('sin', 'cos', 'tan'):
            c, s = self.cossin(self.nf(a[0]), name == 'tan')
            return s if name == 'sin' else c if name == 'cos' else self.div(s, c)
        if name in ('sinh', 'cosh', 'tanh'):
            c, s = self.coshsinh(self.nf(a[0]))
            return s if name == 'sinh' else c if name == 'cosh' else self.div(s, c)
        if name == 'sqrt':
            return self.sqrt(self.nf(a[0]))
        if name == 'cbrt':
            return self.cbrt(self.nf(a[0]))
        if name == 'square':
            return self.pow(self.nf(a[0]), 2)
        if name in ('neg', 'negative'):
            return self.neg(self.nf(a[0]))
        if name == 'reciprocal':
            return self.inv(self.nf(a[0]))
        if name in ('positive', 'real', 'conj', 'nan_to_num'):
            return self.nf(a[0])
        if name == 'abs':
            return self.abs(self.nf(a[0]))
        if name == 'sign':
            r = self.nf(a[0])
            s = self.sgn(r)
            if s is not None:
                return self.num(s)
            sg, r = self.odd(r)
            g = self.gen('sign', (r,), canon=False)
            g.iv = (F(-1), F(1), False, False)
            return self.g(g) if sg > 0 else self.neg(self.g(g))
        if name in ('radians', 'degrees'):
            k = self.div(self.g(self.pi), self.num(180))
            r = self.nf(a[0])
            return self.mul(r, k) if name == 'radians' else self.div(r, k)
        if name in INVERSE and name != 'log':
            return self.inverse(name, [self.nf(y) for y in a])
        if name == 'floor':
            r = self.nf(a[0])
            return self.sub(r, self.frac(r))
        if name in ('maximum', 'minimum'):
            p, q = self.nf(a[0]), self.nf(a[1])
            s = {u * v for dd in [self.sub(p, q)] for u in self.signs(dd.n) for v in self.signs(dd.d)}
            big = None
            if -1 not in s:
                big = (p, q)
            elif 1 not in s:
                big = (q, p)
            if big:
                return big[0] if name == 'maximum' else big[1]
        r = self.freegen(x)
        g = self.gens[list(r.n)[0][0][0]]
        if name in ('log', 'exp', 'maximum', 'minimum', 'log1p', 'expm1', 'floor', 'ceil', 'round', 'trunc', 'fmod'):
            g.canon = False
        return r

    # -------------------------------------------------------- decisions
    def differ(self, a, b):
        """True: equal.  False: different functions.  None: not decided"""
        n = self.padd(self.pmul(a.n, b.d), self.pmul(b.n, a.d), -1)
        if not n:
            return True
        gs = [self.gens[i] for i in sorted({g for m in n for g, _ in m})]
        if any(g.opaque for g in gs):
            return None
        roots = [g for g in gs if g.kind == 'sqrt' and len(g.args[0].n) > 2]
        for i, g in enumerate(roots):
            for h in roots[i + 1:]:
                if self.pdiv(g.args[0].n, h.args[0].n) is not None or self.pdiv(h.args[0].n, g.args[0].n) is not None:
                    return None
        if len(roots) > 4:
            return None
        s = self.signs(n, False)
        if s == {0}:
            return True
        non = [g for g in gs if not g.canon]
        if not non:
            return False
        if 0 not in s and all(g.kind in INVERSE for g in non):
            return False
        if len(non) == 1 and non[0].kind in INVERSE and all(g.canon for a_ in non[0].args for g in self.gens_of(a_)):
            return False
        if len(non) == 2 and non[0].kind == non[1].kind and non[0].kind in INVERSE and non[0].kind != 'arctan2':
            ms = {m for m in n if any(g in (non[0].id, non[1].id) for g, _ in m)}
            if len(ms) == len(n) == 2 and all(h.canon for q in non for a_ in q.args for h in self.gens_of(a_)):
                (m1, c1), (m2, c2) = n.items()
                r1 = tuple((g, e) for g, e in m1 if g not in (non[0].id, non[1].id))
                r2 = tuple((g, e) for g, e in m2 if g not in (non[0].id, non[1].id))
                if r1 == r2 and c1 == -c2:
                    return False
        return None


def isq(f):
    """rational square root"""
    if f < 0:
        return None
    from math import isqrt
    a, b = isqrt(f.numerator), isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
        return F(a, b)
    return None


def fgcd(a, b):
    d = a.denominator * b.denominator
    return F(gcd(a.numerator * b.denominator, b.numerator * a.denominator), d)


# ------------------------------------------------------------ interface

class Deciding:
    """decisions under assumptions.
    facts: [(node, interval)] and [(comparison, truth value)]"""

    def __init__(self, intervals=(), literals=()):
        self.ctx = Ctx({n.id: iv for n, iv in intervals})
        self.lits = list(literals)

    def run(self, f):
        c = self.ctx
        for _ in range(12):
            try:
                c.reset()
                todo = [(a, v) for a, v in self.lits if a.op in ('lt', 'le', 'eq')]
                # facts on single variables decide how roots are taken apart
                todo.sort(key=lambda z: not all(not isinstance(y, Node) or y.op == 'var' for y in z[0].args))
                for a, v in todo:
                    try:
                        c.assume(a, v)
                    except NoForm:
                        pass
                    if all(not isinstance(y, Node) or y.op == 'var' for y in a.args):
                        c.memo = {}
                return f(c)
            except Refine:
                continue
        raise NoForm('angles')

    def possible(self):
        try:
            self.run(lambda c: None)
            return True
        except Impossible:
            return False
        except NoForm:
            return True

    def equal(self, a, b):
        """True / False / None; raises Impossible if the case cannot occur"""
        if same(a, b):
            return True
        try:
            return self.run(lambda c: c.differ(c.nf(a), c.nf(b)))
        except NoForm:
            return None

    def equal_angle(self, a, b, scale=1):
        """equal up to full turns; scale: radians per unit"""
        if same(a, b):
            return True

        def f(c):
            x, y = mul(a, scale), mul(b, scale)
            cx, sx = c.cossin(c.nf(x))
            cy, sy = c.cossin(c.nf(y))
            p, q = c.differ(cx, cy), c.differ(sx, sy)
            if p is False or q is False:
                return False
            return True if p and q else None
        try:
            r = self.equal(a, b)
            if r is True:
                return True
            return self.run(f)
        except NoForm:
            return None

    def sign(self, a):
        try:
            return self.run(lambda c: c.sgn(c.nf(a)))
        except NoForm:
            return None

    def truth(self, atom):
        """of a comparison: True, False or None"""
        al = {'lt': {1}, 'le': {0, 1}, 'eq': {0}}.get(atom.op)
        if al is None:
            return None

        def f(c):
            r = c.sub(c.nf(atom.args[1]), c.nf(atom.args[0]))
            return {x * y for x in c.signs(r.n) for y in c.signs(r.d)}
        try:
            s = self.run(f)
        except NoForm:
            return None
        if s <= al:
            return True
        if not s & al:
            return False
        return None

"""Interval domain over boxes of inputs.

A term is evaluated to an interval that encloses its values for all inputs of a box
(every bound is rounded outwards).  Two terms whose intervals are apart on a box of
positive size on which a case holds throughout are different functions there; that
refutes an equality the normal forms leave open.  It never confirms one.
"""
import math
import random
from .core import Node, isnum

INF = math.inf
EPS = 2.3e-16


class Open(Exception):
    """no enclosure"""


def out(lo, hi, k=4):
    if lo != lo or hi != hi or lo == -INF or hi == INF:
        raise Open
    w = k * EPS
    return (lo - abs(lo) * w - 1e-300, hi + abs(hi) * w + 1e-300)


def iadd(a, b):
    return out(a[0] + b[0], a[1] + b[1])


def imul(a, b):
    c = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
    return out(min(c), max(c))


def iinv(a):
    if a[0] <= 0 <= a[1]:
        raise Open
    return out(1 / a[1], 1 / a[0])


def ineg(a):
    return (-a[1], -a[0])


def mono(f, a, dom=(-INF, INF)):
    """a nondecreasing function of the math library"""
    if a[0] < dom[0] or a[1] > dom[1]:
        raise Open
    try:
        return out(f(a[0]), f(a[1]), 8)
    except (OverflowError, ValueError, ZeroDivisionError):
        raise Open


def ipow(a, n):
    if n == 0:
        return (1.0, 1.0)
    if n < 0:
        return iinv(ipow(a, -n))
    try:
        if n % 2:
            return out(a[0] ** n, a[1] ** n, 4 + n)
        lo, hi = sorted((abs(a[0]), abs(a[1])))
        if a[0] <= 0 <= a[1]:
            lo = 0.0
        r = out(lo ** n, hi ** n, 4 + n)
    except OverflowError:
        raise Open
    return (max(r[0], 0.0), r[1])


def isin(a, shift=0.0):
    """sin(x + shift), shift a multiple of a quarter turn counted in quarters"""
    if a[1] - a[0] > 1 or max(abs(a[0]), abs(a[1])) > 1e6:
        return (-1.0, 1.0)
    f = (lambda x: math.sin(x)) if not shift else (lambda x: math.cos(x))
    v = [f(a[0]), f(a[1])]
    lo, hi = min(v) - 1e-15, max(v) + 1e-15
    # extrema inside
    q = math.pi / 2
    for k in range(math.floor(a[0] / q) - 1, math.ceil(a[1] / q) + 2):
        x = k * q
        if a[0] - 1e-9 <= x <= a[1] + 1e-9:
            s = round(f(x))
            lo, hi = min(lo, s), max(hi, s)
    return (max(lo, -1.0), min(hi, 1.0))


def clipped(a):
    """an argument of an inverse cosine that is at a bound up to rounding"""
    if a[1] > 1 + 1e-9 or a[0] < -1 - 1e-9:
        raise Open
    return (max(a[0], -1.0), min(a[1], 1.0))


def icbrt(a):
    f = lambda x: math.copysign(abs(x) ** (1 / 3), x)
    return out(f(a[0]), f(a[1]), 40)


def imod(a, b):
    if b[0] <= 0:
        raise Open
    k = math.floor(a[0] / b[0])
    if k > 1e6 or k < -1e6:
        raise Open
    for b_ in b:
        for a_ in a:
            if math.floor(a_ / b_) != k:
                raise Open
    r = iadd(a, ineg(imul(b, (float(k), float(k)))))
    if r[0] < -1e-12 or r[1] > b[1] + 1e-12:
        raise Open
    return r


def iatan2(y, x):
    if x[0] <= 0 and y[0] <= 0 <= y[1]:
        raise Open
    v = [math.atan2(p, q) for p in y for q in x]
    return out(min(v), max(v), 8)


def root(f, lo, hi):
    """enclosure of the root of an increasing function with interval values"""
    try:
        if f((lo, lo))[0] > 0 or f((hi, hi))[1] < 0:
            raise Open
    except Open:
        raise
    a, b = lo, hi
    for _ in range(200):
        m = (a + b) / 2
        if not a < m < b:
            break
        if f((m, m))[1] <= 0:
            a = m
        else:
            b = m
    low = a
    a, b = lo, hi
    for _ in range(200):
        m = (a + b) / 2
        if not a < m < b:
            break
        if f((m, m))[0] >= 0:
            b = m
        else:
            a = m
    return (low, b)


def ikepler(kind, M, e):
    if kind == 'elliptic':
        if e[0] < 0 or e[1] >= 1:
            raise Open
        return root(lambda E: iadd(iadd(E, ineg(imul(e, isin(E)))), ineg(M)), M[0] - 1.5, M[1] + 1.5)
    if e[0] <= 1:
        raise Open
    return root(lambda E: iadd(iadd(imul(e, mono(math.sinh, E)), ineg(E)), ineg(M)), -50.0, 50.0)


class Eval:
    def __init__(self, env):
        self.env, self.memo = env, {}

    def num(self, x):
        if isinstance(x, bool):
            raise Open
        if isnum(x):
            if x != x or abs(x) == INF:
                raise Open
            x = float(x)
            return (x, x)
        if not isinstance(x, Node):
            raise Open
        r = self.memo.get(x.id)
        if r is None:
            try:
                r = self.num1(x)
            except Open:
                r = Open
            self.memo[x.id] = r
        if r is Open:
            raise Open
        return r

    def num1(self, x):
        op, a = x.op, x.args
        if op in ('var', 'cst', 'ext', 'at'):
            r = self.env.get(x.id)
            if r is None:
                raise Open
            return r
        if op == 'pi':
            return out(math.pi, math.pi)
        if op == 'add':
            return iadd(self.num(a[0]), self.num(a[1]))
        if op == 'mul':
            if a[0] is a[1]:
                return ipow(self.num(a[0]), 2)
            return imul(self.num(a[0]), self.num(a[1]))
        if op == 'neg':
            return ineg(self.num(a[0]))
        if op == 'div':
            return imul(self.num(a[0]), iinv(self.num(a[1])))
        if op == 'pow':
            b = self.num(a[0])
            if isnum(a[1]):
                e = float(a[1])
                if e == int(e) and abs(e) <= 40:
                    return ipow(b, int(e))
                return self.power(b, (e, e))
            return self.power(b, self.num(a[1]))
        if op == 'mod':
            return imod(self.num(a[0]), self.num(a[1]))
        if op == 'where':
            t = self.truth(a[0])
            if t is None:
                p, q = self.num(a[1]), self.num(a[2])
                return (min(p[0], q[0]), max(p[1], q[1]))
            return self.num(a[1] if t else a[2])
        if op == 'kepsol':
            return ikepler(a[0], self.num(a[1]), self.num(a[2]))
        if op == 'fn':
            return self.function(a[0], a[1:])
        raise Open

    def power(self, b, e):
        if b[0] <= 0:
            raise Open
        v = mono(math.log, b)
        return mono(math.exp, imul(v, e), (-600, 600))

    def function(self, name, args):
        if name in ('lt', 'isnan', 'isfinite', 'isclose'):
            raise Open
        v = [self.num(y) for y in args]
        a = v[0]
        if name == 'sin':
            return isin(a)
        if name == 'cos':
            return isin(a, 1)
        if name == 'tan':
            return imul(isin(a), iinv(isin(a, 1)))
        if name in ('sinh', 'tanh', 'arctan', 'arcsinh', 'exp', 'expm1'):
            f = {'sinh': math.sinh, 'tanh': math.tanh, 'arctan': math.atan, 'arcsinh': math.asinh, 'exp': math.exp,
                 'expm1': math.expm1}[name]
            return mono(f, a)
        if name == 'cosh':
            lo, hi = sorted((abs(a[0]), abs(a[1])))
            return mono(math.cosh, (0.0 if a[0] <= 0 <= a[1] else lo, hi))
        if name == 'sqrt':
            if a[0] < 0:
                if a[0] < -1e-9 or a[1] < 0:
                    raise Open
                a = (0.0, a[1])
            return mono(math.sqrt, a)
        if name == 'cbrt':
            return icbrt(a)
        if name in ('log', 'log1p', 'log10', 'log2'):
            f = getattr(math, name)
            if a[0] <= (-1 if name == 'log1p' else 0):
                raise Open
            return mono(f, a)
        if name == 'arcsin':
            return mono(math.asin, clipped(a))
        if name == 'arccos':
            c = clipped(a)
            return out(math.acos(c[1]), math.acos(c[0]), 8)
        if name == 'arccosh':
            return mono(math.acosh, a, (1, INF))
        if name == 'arctanh':
            if a[0] <= -1 or a[1] >= 1:
                raise Open
            return mono(math.atanh, a)
        if name == 'arctan2':
            return iatan2(v[0], v[1])
        if name == 'hypot':
            return mono(math.sqrt, iadd(ipow(v[0], 2), ipow(v[1], 2)))
        if name == 'square':
            return ipow(a, 2)
        if name in ('neg', 'negative'):
            return ineg(a)
        if name == 'reciprocal':
            return iinv(a)
        if name in ('positive', 'real', 'conj', 'nan_to_num'):
            return a
        if name in ('abs', 'fabs'):
            if a[0] >= 0:
                return a
            return ineg(a) if a[1] <= 0 else (0.0, max(-a[0], a[1]))
        if name == 'sign':
            if a[0] > 0:
                return (1.0, 1.0)
            return (-1.0, -1.0) if a[1] < 0 else (-1.0, 1.0)
        if name == 'maximum':
            return (max(v[0][0], v[1][0]), max(v[0][1], v[1][1]))
        if name == 'minimum':
            return (min(v[0][0], v[1][0]), min(v[0][1], v[1][1]))
        if name in ('floor', 'ceil', 'trunc', 'rint', 'round'):
            f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(name, round)
            p, q = f(a[0]), f(a[1])
            if p != q:
                raise Open
            return (float(p), float(p))
        if name in ('radians', 'deg2rad'):
            return imul(a, out(math.pi / 180, math.pi / 180))
        if name in ('degrees', 'rad2deg'):
            return imul(a, out(180 / math.pi, 180 / math.pi))
        raise Open

    def truth(self, g):
        """of a condition on the whole box: True, False or None"""
        if isinstance(g, bool):
            return g
        if not isinstance(g, Node):
            return None
        op, a = g.op, g.args
        if op in ('lt', 'le', 'eq'):
            try:
                p, q = self.num(a[0]), self.num(a[1])
            except Open:
                return None
            if p[1] < q[0]:
                return op != 'eq'
            if q[1] < p[0]:
                return False
            return None
        if op == 'not':
            t = self.truth(a[0])
            return None if t is None else not t
        if op in ('and', 'or'):
            ts = [self.truth(x) for x in a]
            if (op == 'and') and False in ts or (op == 'or') and True in ts:
                return op == 'or'
            return None if None in ts else op == 'and'
        if op == 'where':
            t = self.truth(a[0])
            if t is None:
                p, q = self.truth(a[1]), self.truth(a[2])
                return p if p == q else None
            return self.truth(a[1] if t else a[2])
        if op == 'fn' and a[0] in ('isnan', 'isfinite'):
            try:
                self.num(a[1])
            except Open:
                return None
            return a[0] == 'isfinite'
        return None


def leaves(terms):
    seen, res = set(), []

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, Node) and x.id not in seen:
            seen.add(x.id)
            if x.op in ('var', 'ext', 'at'):
                res.append(x)
                return
            for y in x.args:
                go(y)
    for t in terms:
        go(t)
    return res


def pick(rnd, iv, mode):
    lo, hi = (float(iv[0]), float(iv[1])) if iv else (-INF, INF)
    if lo == hi:
        return None
    for _ in range(20):
        if lo > -INF and hi < INF:
            u = rnd.random()
            if mode == 'small':
                u = 10 ** rnd.uniform(-13, -2)
            elif mode == 'big':
                u = 1 - 10 ** rnd.uniform(-13, -2)
            x = lo + (hi - lo) * u
        elif lo > -INF:
            x = lo + 10 ** (rnd.uniform(-13, -2) if mode == 'small' else rnd.uniform(1, 4) if mode == 'big'
                            else rnd.uniform(-1, 1))
        elif hi < INF:
            x = hi - 10 ** (rnd.uniform(-13, -2) if mode == 'small' else rnd.uniform(1, 4) if mode == 'big'
                            else rnd.uniform(-1, 1))
        else:
            x = rnd.choice((-1, 1)) * (10 ** rnd.uniform(-13, -9) if mode == 'small' else rnd.uniform(5, 400)
                                       if mode == 'big' else rnd.uniform(0.05, 4))
        if lo < x < hi:
            return x
    return (lo + hi) / 2 if lo > -INF and hi < INF else None


def box(rnd, xs, ivs, style):
    env = {}
    for x in xs:
        m = 'mid'
        if style:
            m = rnd.choice(('mid', 'mid', 'small', 'big', 'big') if style == 1 else ('mid', 'small', 'small'))
        c = pick(rnd, ivs.get(x.id), m)
        if c is None:
            return None
        w = abs(c) * 1e-11
        env[x.id] = (c - w, c + w)
    return env


def apart(p, q):
    gap = max(q[0] - p[1], p[0] - q[1])
    size = max(abs(p[0]), abs(p[1]), abs(q[0]), abs(q[1]))
    return gap > 1e-7 * size and gap > 0


def angle_apart(p, q, unit):
    k = (math.pi / 180, math.pi / 180) if unit == 'degrees' else (1.0, 1.0)
    p, q = imul(p, k), imul(q, k)
    for s in (0, 1):
        a, b = isin(p, s), isin(q, s)
        if max(b[0] - a[1], a[0] - b[1]) > 1e-6:
            return True
    return False


def refute(pairs, facts, lits, tries=400):
    """pairs: [(x, y, how)].  A box on which the facts and the case hold and two terms are
    apart: (index, box, interval, interval), or None"""
    xs = leaves([t for p in pairs for t in p[:2]] + [g for g, _ in lits])
    ivs = {}
    for n, iv in facts:
        if isinstance(n, Node) and n.op in ('var', 'ext', 'at'):
            ivs[n.id] = iv
    terms = [(n, iv) for n, iv in facts if isinstance(n, Node) and n.op not in ('var', 'ext', 'at')]
    rnd = random.Random(1)
    for t in range(tries):
        env = box(rnd, xs, ivs, 0 if t < tries // 3 else 1 if t % 2 else 2)
        if env is None:
            return None
        ev = Eval(env)
        if any(ev.truth(g) is not v for g, v in lits):
            continue
        ok = True
        for n, iv in terms:
            try:
                r = ev.num(n)
            except Open:
                ok = False
                break
            if not (iv[0] < r[0] and r[1] < iv[1]):
                ok = False
                break
        if not ok:
            continue
        for i, (x, y, how) in enumerate(pairs):
            try:
                p, q = ev.num(x), ev.num(y)
                if how in ('angle', 'degrees'):
                    d = angle_apart(p, q, how)
                elif how == 'sinh':
                    d = apart(mono(math.sinh, p), mono(math.sinh, q))
                elif how == 'cos':
                    d = apart(isin(p, 1), isin(q, 1))
                else:
                    d = apart(p, q)
            except Open:
                continue
            if d:
                return i, {x_: env[x_.id] for x_ in xs}, p, q
    return None

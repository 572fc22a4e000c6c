"""The functions of pyorb.kepler as gated value graphs over symbolic inputs."""
import math
from .orbit import *
from pyabs.nf import INF
from pyabs import boxes

F = Fraction
X, EC = V('x'), V('e')
MU, TOL, MAXIT = V('mu'), V('tol'), V('mi')
PI2 = mul(2, PI)

# eccentricity regimes: (name, interval of e, value substituted for e)
REGIMES = (
    ('circular', None, 0),
    ('elliptic', (F(0), F(1), True, True), None),
    ('parabolic', None, 1),
    ('hyperbolic', (F(1), INF, True, True), None),
)


class Kep(World):
    def __init__(self):
        super().__init__(intrinsics=False)
        self.k = self.it.load('pyorb.kepler')

    def fn(self, name):
        f = self.k.ns.get(name)
        if f is None:
            raise Missing('pyorb.kepler.' + name)
        return f

    def has(self, name):
        return name in self.k.ns

    def call(self, name, *args, **kw):
        """f(result) of a call whose effects are undone; args may be thunks"""
        post = kw.pop('post', self.rows)
        f = self.fn(name)

        def go():
            a = [x() if callable(x) else x for x in args]
            k = {n: (x() if callable(x) else x) for n, x in kw.items()}
            r = self.it.call(f, a, k)
            self.loops_last = list(self.it.loops)
            return post(r)
        return self.do(go)

    terms = call

    def rows(self, r):
        if isinstance(r, (tuple, list)):
            return [t for x in r for t in self.rows(x)]
        t = rows(r)
        if t is None:
            raise Unsupported('result is not numeric')
        return t


# ------------------------------------------------------------ comparison

def fs(sym):
    return fn('sqrt', sym)


def value_gates(terms):
    """gating atoms, outermost first"""
    return [a for a in gate_atoms(terms) if a.op in ('lt', 'le', 'eq', 'fn', 'var', 'at', 'sel', 'isnew', 'reduce',
                                                     'call', 'unk', 'phi')]


MEMO = {}


class Agree:
    """compare gated terms case by case.
    facts: [(node, interval)], eqs: {node: value}, lits: assumed comparisons"""

    def __init__(self, facts=(), eqs=None, lits=(), limit=600):
        self.facts, self.lits, self.limit = list(facts), list(lits), limit
        self.table = {k.id: v for k, v in (eqs or {}).items()}
        self.n = 0

    def cases(self, terms):
        """[(terms without gates, literals)] of the cases that can occur"""
        self.n = 0
        ts = [subst(t, self.table) for t in terms]
        yield from self.go(ts, dict(self.table), list(self.lits))

    def go(self, ts, table, lits):
        self.n += 1
        if self.n > self.limit:
            raise Unsupported('too many cases')
        gs = value_gates(ts)
        if not gs:
            yield ts, lits
            return
        # those that are decided first
        d = nf.Deciding(self.facts, lits)
        for g in gs:
            if has_op(g, ('where',)):
                continue
            v = self.truth(d, g)
            if v is not None:
                t2 = {**table, g.id: v}
                yield from self.go([subst(t, t2) for t in ts], t2, lits)
                return
        inner = [g for g in gs if not has_op(g, ('where',))] or gs
        g = inner[0]
        for v in (True, False):
            l2 = lits + [(g, v)]
            if not logic.consistent(l2, False):
                continue
            try:
                if not nf.Deciding(self.facts, l2).possible():
                    continue
            except nf.Impossible:
                continue
            t2 = {**table, g.id: v}
            yield from self.go([subst(t, t2) for t in ts], t2, l2)

    def truth(self, d, g):
        if g.op == 'fn' and g.args[0] == 'isnan':
            # inputs are numbers in every regime that is compared
            return None if has_op(g, ('nan', 'uninit')) else False
        if g.op == 'fn' and g.args[0] == 'isfinite':
            return None if has_op(g, ('nan', 'uninit')) else True
        if g.op in ('lt', 'le', 'eq'):
            try:
                return d.truth(g)
            except nf.Impossible:
                return None
        return None

    def agree(self, got, want, how='value', pre=None):
        """(True|False|None, text)"""
        if len(got) != len(want):
            return False, '%d values instead of %d' % (len(got), len(want))
        k = len(got)
        key = (tuple(C._key(x) for x in got), tuple(C._key(x) for x in want), str(how), tuple(sorted(
            (k_, C._key(v)) for k_, v in self.table.items())), tuple((x.id, str(i)) for x, i in self.facts),
            tuple((a.id, v) for a, v in self.lits), pre is None)
        if pre is None and key in MEMO:
            return MEMO[key]
        r = self.agree1(got, want, how, pre)
        if r[0] is None and pre is None:
            r = self.refute(got, want, how) or r
        MEMO[key] = r
        return r

    def refute(self, got, want, how):
        """values that are apart on a box of inputs: (False, text) or None"""
        hows = how if isinstance(how, (list, tuple)) else [how] * len(got)
        pairs = []
        for x, y, h in zip(got, want, hows):
            x, y = subst(x, self.table), subst(y, self.table)
            if all(isnum(z) or isinstance(z, Node) and z.op != 'nan' for z in (x, y)):
                pairs.append((x, y, h))
        r = boxes.refute(pairs, self.facts, [(subst(g, self.table), v) for g, v in self.lits])
        if r is None:
            return None
        i, env, p, q = r
        return False, ('%s instead of %s; between %.9g and %.9g instead of between %.9g and %.9g for %s' % (
            show(pairs[i][0], 7), show(pairs[i][1], 7), p[0], p[1], q[0], q[1],
            ', '.join('%s = %.6g' % (show(x), (v[0] + v[1]) / 2) for x, v in env.items())))[:1500]

    def lockstep(self, x, y, how, lits, depth=0):
        """gates that both terms have at the top are walked together"""
        if same(x, y):
            return True
        if depth > 40:
            return None
        for z in (x, y):
            if isinstance(z, Node) and z.op == 'where':
                for v in (True, False):
                    l2 = lits + [(z.args[0], v)] if z.args[0].op in ('lt', 'le', 'eq') else lits
                    if not logic.consistent(l2, False):
                        continue
                    t = {z.args[0].id: v}
                    p = [w.args[1 if v else 2] if isinstance(w, Node) and w.op == 'where' and w.args[0] is z.args[0]
                         else subst(w, t) for w in (x, y)]
                    if self.lockstep(p[0], p[1], how, l2, depth + 1) is not True:
                        return None
                return True
        gs = [g for g in value_gates([x, y]) if not has_op(g, ('where',))]
        if has_op(x, ('where',)) or has_op(y, ('where',)):
            if not gs:
                return None
            for v in (True, False):
                l2 = lits + [(gs[0], v)]
                if logic.consistent([l for l in l2 if l[0].op in ('lt', 'le', 'eq')], False):
                    t = {gs[0].id: v}
                    if self.lockstep(subst(x, t), subst(y, t), how, l2, depth + 1) is not True:
                        return None
            return True
        return self.equal(x, y, [l for l in lits if l[0].op in ('lt', 'le', 'eq')], how)

    def agree1(self, got, want, how, pre):
        k = len(got)
        if pre is None:
            hs = how if isinstance(how, (list, tuple)) else [how] * k
            try:
                if all(self.lockstep(subst(x, self.table), subst(y, self.table), h, list(self.lits)) is True
                       for x, y, h in zip(got, want, hs)):
                    return True, ''
            except Unsupported:
                pass
        hows = how if isinstance(how, (list, tuple)) else [how] * k
        res, txt = True, ''
        try:
            for ts, lits in self.cases(list(got) + list(want)):
                for x, y, h in zip(ts[:k], ts[k:], hows):
                    r = self.equal(x, y, lits, h, pre)
                    if r is True:
                        continue
                    t = '%s instead of %s' % (show(x, 9), show(y, 9))
                    if lits:
                        t += ' when ' + ' and '.join(('' if v else 'not ') + show(q) for q, v in lits)
                    if r is False and open_case(lits, self.facts):
                        return False, t[:1500]
                    res, txt = None, t[:1500]
        except Unsupported as e:
            return None, str(e)
        return res, txt

    def equal(self, x, y, lits, how, pre=None):
        if same(x, y):
            return True
        if has_op(x, ('uninit',)):
            return False
        for z in (x, y):
            if isinstance(z, str) or z is None:
                return None
        if (x is NAN) != (y is NAN):
            return False
        if has_op(x, ('nan',)) or has_op(y, ('nan',)):
            return None
        if has_op(x, ('pick',)):
            return False
        if has_op(x, ('unk', 'loopout', 'phi', 'maybe', 'where')) or has_op(y, ('unk', 'loopout', 'phi', 'maybe')):
            return None
        d = nf.Deciding(self.facts, lits)
        if pre:
            x, y = pre(x), pre(y)
        try:
            if how in ('angle', 'degrees'):
                turn = PI2 if how == 'angle' else 360
                a, b = unturn(x, turn), unturn(y, turn)
                if a is not x or b is not y:
                    for k in (0, 1, -1, 2, -2):
                        if d.equal(a, add(b, mul(k, turn))) is True:
                            return True
                r = d.equal_angle(x, y, 1 if how == 'angle' else div(PI, 180))
                if r is None:
                    p, q = inverse_cosine(x), inverse_cosine(y)
                    if p and q and not has_op(p[1], ('uninit', 'nan')) and d.equal(p[1], q[1]) is True:
                        # the two halves of the turn only meet at their ends
                        return p[0] == q[0]
                return r
            if how == 'sinh':
                return d.equal(fn('sinh', x), fn('sinh', y))
            if how == 'cos':
                return d.equal(fn('cos', x), fn('cos', y))
            return d.equal(x, y)
        except nf.Impossible:
            return True


def inverse_cosine(x):
    """(sign, u) of an angle +-arccos(u) up to constants, in any unit"""
    if not isinstance(x, Node):
        return None
    if x.op == 'fn' and x.args[0] == 'arccos':
        return 1, x.args[1]
    if x.op == 'fn' and x.args[0] in ('degrees', 'radians'):
        return inverse_cosine(x.args[1])
    if x.op == 'neg':
        r = inverse_cosine(x.args[0])
        return r and (-r[0], r[1])
    if x.op in ('add', 'mul', 'div'):
        for a, b in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
            c = logic.constval(a)
            if c is None or x.op == 'div' and a is x.args[0]:
                continue
            r = inverse_cosine(b)
            if x.op == 'add':
                return r if any(abs(c - k) < 1e-9 for k in (0, 360, -360, 6.283185307179586, -6.283185307179586)) else None
            return r and c and ((1 if c > 0 else -1) * r[0], r[1]) or None
    return None


def open_case(lits, facts):
    """the case is not just a limit between others"""
    out = []
    for a, v in lits:
        if a.op == 'le' and v:
            a = cmp('lt', a.args[0], a.args[1])
        elif a.op == 'lt' and not v:
            a, v = cmp('lt', a.args[1], a.args[0]), True
        if a is False:
            return False
        if isinstance(a, Node):
            out.append((a, v))
    cs = [l for l in out if l[0].op in ('lt', 'le', 'eq')]
    if not logic.consistent(cs, False):
        return False
    try:
        return nf.Deciding(facts, cs).possible()
    except nf.Impossible:
        return False


def unturn(x, turn):
    """an angle without the remainders of whole turns in its sum"""
    if not isinstance(x, Node):
        return x
    if x.op == 'mod' and logic.constval(x.args[1]) is not None and \
            abs(logic.constval(x.args[1]) - logic.constval(turn)) < 1e-12:
        return unturn(x.args[0], turn)
    if x.op == 'add':
        return add(unturn(x.args[0], turn), unturn(x.args[1], turn))
    if x.op == 'neg':
        return neg(unturn(x.args[0], turn))
    if x.op == 'mul':
        for a, b in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
            c = logic.constval(a)
            if c and abs(c * math.pi / 180 - 1) < 1e-12 and turn == 360:
                return mul(a, unturn(b, PI2))
            if c and abs(c * 180 / math.pi - 1) < 1e-12 and turn is PI2:
                return mul(a, unturn(b, 360))
    if x.op == 'fn' and x.args[0] == 'degrees' and turn == 360:
        return fn('degrees', unturn(x.args[1], PI2))
    if x.op == 'fn' and x.args[0] == 'radians' and turn is PI2:
        return fn('radians', unturn(x.args[1], 360))
    return x


# ------------------------------------------------------------ the solver

def install_solver(w):
    """Kepler's equation is solved: decided for the solver itself by C23"""
    def h(it, f, b):
        names = list(b)
        need = [n for n in ('E0', 'M', 'e', 'tol', 'max_iter') if n not in b]
        if need:
            raise Unsupported('solver without parameter %s' % need)
        e, M = [x.get() if isinstance(x, Arr) and not x.sshape else x for x in (b['e'], b['M'])]
        it.event('solve', E0=b['E0'], M=M, e=e, tol=b['tol'], max_iter=b['max_iter'], degree=b.get('degree'))
        for q in (e, M):
            if not (isnum(q) or isinstance(q, Node)):
                raise Unsupported('solver called with %r' % (q,))
        opts = tuple(representative(x) if isinstance(x, Node) else x for x in (b['tol'], b['max_iter']))
        r = where(cmp('lt', 1, e), kepsol('hyperbolic', M, e, opts), kepsol('elliptic', M, e, opts))
        return (r, mk('iterations', M, e))
    w.it.intrinsics[KQ + 'laguerre_solve_kepler'] = h


def kepsol(kind, M, e, opts):
    if M is NAN or e is NAN:
        return NAN
    if not isinstance(e, Node) and e == 0 and kind == 'elliptic':
        return M
    return mk('kepsol', kind, M, e, opts)


C.REBUILD['kepsol'] = kepsol
C.FINITE_OPS = tuple(set(C.FINITE_OPS) | {'kepsol'})

"""C15 the angles that are handed out lie within one turn."""
import math
from .general import *

INFI = (-math.inf, math.inf)
EPS = 1e-9


class Range:
    """interval of a term without gates; second value: every value of the
    interval is taken by some input"""

    def __init__(self, facts, lits, known):
        self.facts, self.lits, self.known = facts, lits, known

    def __call__(self, t):
        if isinstance(t, bool):
            return INFI, False
        if isnum(t):
            return (float(t), float(t)), True
        if not isinstance(t, Node):
            return INFI, False
        iv, ex = self.go(t)
        for a, v in self.lits:
            # comparisons of this very term with a constant
            if a.op not in ('lt', 'le', 'eq'):
                continue
            x, y = a.args
            for p, q, flip in ((x, y, False), (y, x, True)):
                if p is t and not (isinstance(q, Node) and variables_of(q)):
                    (c, c2), _ = self.go(q) if isinstance(q, Node) else ((float(q), float(q)), True)
                    lo, hi = iv
                    if a.op == 'eq':
                        if v:
                            lo, hi = max(lo, c), min(hi, c2)
                    elif v != flip:
                        hi = min(hi, c2)
                    else:
                        lo = max(lo, c)
                    iv = (lo, hi)
        return iv, ex

    def go(self, t):
        a = t.args
        if t.id in self.known:
            return self.known[t.id], True
        if t.op == 'pi':
            return (math.pi, math.pi), True
        if t.op == 'var':
            return INFI, True
        if t.op == 'kepsol':
            return INFI, a[1] is not None
        if t.op == 'neg':
            (l, h), e = self(a[0])
            return (-h, -l), e
        if t.op == 'add':
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                # x - c floor(x/c)
                y = y.args[0] if isinstance(y, Node) and y.op == 'neg' else None
                if isinstance(y, Node) and y.op == 'mul':
                    for c, f in ((y.args[0], y.args[1]), (y.args[1], y.args[0])):
                        if isinstance(f, Node) and f.op == 'fn' and f.args[0] == 'floor' and \
                                same(f.args[1], div(x, c)) and not variables_of(c):
                            return self(mod(x, c))
            p, q = self(a[0]), self(a[1])
            free = not (variables_of(a[0]) & variables_of(a[1]))
            return (p[0][0] + q[0][0], p[0][1] + q[0][1]), p[1] and q[1] and free
        if t.op in ('mul', 'div'):
            p, q = self(a[0]), self(a[1])
            if t.op == 'div':
                if q[0][0] == q[0][1] and q[0][0] != 0:
                    q = ((1 / q[0][0],) * 2, q[1])
                else:
                    return INFI, False
            wide = [z for z in (p, q) if z[0] == INFI and z[1]]
            if wide and not (variables_of(a[0]) & variables_of(a[1])) and p[0] != (0, 0) and q[0] != (0, 0):
                return INFI, True
            xs = [x * y if x and y else 0.0 for x in p[0] for y in q[0]]
            free = not (variables_of(a[0]) & variables_of(a[1]))
            return (min(xs), max(xs)), p[1] and q[1] and free
        if t.op == 'mod':
            p, q = self(a[0]), self(a[1])
            if q[0][0] == q[0][1] and q[0][0] > 0:
                c = q[0][0]
                # a whole turn inside: all remainders occur
                if p[0][0] >= 0 and p[0][1] < c:
                    return p
                return (0.0, c), p[1] and p[0][1] - p[0][0] >= c
            if q[0][0] == q[0][1] and q[0][0] < 0:
                return (q[0][0], 0.0), p[1]
            return INFI, False
        if t.op == 'fn':
            nm = a[0]
            if nm in ('degrees', 'rad2deg', 'radians', 'deg2rad'):
                k = 180 / math.pi if nm in ('degrees', 'rad2deg') else math.pi / 180
                (l, h), e = self(a[1])
                return (l * k, h * k), e
            if nm == 'arccos':
                return (0.0, math.pi), self.free(t)
            if nm == 'arcsin':
                return (-math.pi / 2, math.pi / 2), self.free(t)
            if nm == 'arctan':
                (l, h), e = self(a[1])
                nn = self.sign(a[1])
                if nn is not None and nn >= 0:
                    l = max(l, 0.0)
                return (math.atan(l), math.atan(h)), e and self.free(t)
            if nm == 'arctan2':
                y = self.sign(a[1])
                iv = (-math.pi, math.pi)
                if y is not None and y >= 0:
                    iv = (0.0, math.pi)
                elif y is not None and y < 0:
                    iv = (-math.pi, 0.0)
                return iv, self.free(t) and len(variables_of(a[1]) | variables_of(a[2])) > 1
            if nm == 'abs':
                (l, h), e = self(a[1])
                if l >= 0:
                    return (l, h), e
                return (0.0, max(-l, h)), e
            if nm == 'sqrt':
                (l, h), e = self(a[1])
                return (math.sqrt(max(l, 0.0)), math.sqrt(h) if h >= 0 else 0.0), False
            if nm in ('minimum', 'maximum'):
                p, q = self(a[1]), self(a[2])
                f = min if nm == 'minimum' else max
                return (f(p[0][0], q[0][0]), f(p[0][1], q[0][1])), False
            if nm in ('tan', 'sinh') and self(a[1])[1] and self.free(t):
                return INFI, True
            if nm in ('sin', 'cos', 'tanh'):
                return (-1.0, 1.0), False
        return INFI, False

    def free(self, t):
        """no assumption is about what the term depends on"""
        vs = variables_of(t)
        return not any(vs & variables_of(a) for a, v in self.lits)

    def sign(self, t):
        """-1, 1 or 0 (not negative) if it is known"""
        d = nf.Deciding(self.facts, [l for l in self.lits if l[0].op in ('lt', 'le', 'eq')])
        if isinstance(t, Node):
            if t.op == 'fn' and t.args[0] in ('sqrt', 'abs'):
                return 0
            try:
                r = d.truth(cmp('lt', t, 0))
            except nf.Impossible:
                return 0
            if r is True:
                return -1
            if r is False:
                return 0
        return None


_vars = {}


def variables_of(t):
    if not isinstance(t, Node):
        return frozenset()
    if t.id not in _vars:
        _vars[t.id] = frozenset(x.id for x in subterms(t).values() if x.op == 'var')
    return _vars[t.id]


TURN = {'i': 0.5}
# results that are angles within one turn: function -> {row: part of a turn}
WITHIN = {
    'cart_to_kep': {2: .5, 3: 1, 4: 1, 5: 1},
    'equi_to_kep': {2: .5, 3: 1, 4: 1, 5: 1},
    'kep_to_equi': {5: 1},
    'cart_to_equi': {5: 1},
    'eccentric_to_true': {0: 1},
    'mean_to_true': {0: 1},
    'true_to_eccentric': {0: 1},
    'true_of_the_asymptote': {0: .5},
}
BOUND_ONLY = ('true_to_eccentric',)


def run_ranges(ck):
    def work(ck, nm):
        w = Kep()
        install_solver(w)
        params, kinds, hasdeg = TABLE[nm]
        if nm == 'cart_to_equi':
            install_parts(w, nm)
        for label, sh in shapes_of(params):
            for deg in (False, True):
                key0 = '%s of %s%s' % (nm, label, ' in degrees' if deg else '')

                def one(key0=key0, sh=sh, deg=deg):
                    got = invoke(w, nm, sh, degrees=deg)
                    turn = 360.0 if deg else 2 * math.pi
                    for rname, ag in regimes_of(nm):
                        if nm in BOUND_ONLY and not (rname.startswith(', circ') or rname.startswith(', ell')):
                            continue
                        for i, part in WITHIN[nm].items():
                            key = '%s%s, result %d is within %s' % (key0, rname, i, 'a turn' if part == 1
                                                                    else 'half a turn')
                            v, txt = within(subst(got[i], ag.table), list(ag.lits), ag, 0.0, part * turn)
                            ck.verdict(key, v, txt, txt)
                ck.guard(key0, one)
        ck.saw(w.it)
    w = Kep()
    parallel(ck, [nm for nm in WITHIN if w.has(nm)], work)


def within(t, lits, ag, lo, hi, depth=0):
    """(verdict, text) over the cases of the gates at the top"""
    if depth > 60:
        return None, 'too many cases'
    top = t.args[0] if isinstance(t, Node) and t.op == 'where' else None
    if top is not None:
        at = {}
        logic.atoms(top, at)
        gs = list(at.values())
        gs = [g for g in gs if not has_op(g, ('where',))] or \
            [g for g in value_gates([mk('gate', x) for x in gs]) if not has_op(g, ('where',))] or gs
        g = gs[0]
        res, txt = True, ''
        todo = [v for v in (True, False) if possible(lits + [(g, v)], ag.facts)]
        for v in todo:
            l2 = lits + [(g, v)] if len(todo) > 1 or has_op(g, ('fn',)) else lits
            r, x = within(subst(t, {g.id: v}), l2, ag, lo, hi, depth + 1)
            if r is False:
                return r, x
            if r is None:
                res, txt = r, x
        return res, txt
    if t is NAN or has_op(t, ('uninit',)):
        return True, ''         # another property
    rg = Range(ag.facts, lits, {})
    t2 = outward(t)
    if isinstance(t2, Node) and t2.op == 'where':
        return within(t2, lits, ag, lo, hi, depth + 1)
    (l, h), ex = rg(t2)
    tol = EPS * max(1.0, hi)
    if l >= lo - tol and h <= hi + tol:
        return True, ''
    txt = '%s is between %.6g and %.6g' % (show(t2, 5), l, h)
    if lits:
        txt += ' when ' + ' and '.join(('' if v else 'not ') + show(q, 4) for q, v in lits)
    outside = l < h and (h <= lo + tol or l >= hi - tol)
    return (False if ex or outside else None), txt[:900]


def outward(t):
    """gates below conversions and arithmetic, but not below functions, come
    to the top"""
    if not isinstance(t, Node) or not has_op(t, ('where',)):
        return t
    if t.op == 'fn' and t.args[0] in ('degrees', 'radians', 'abs', 'deg2rad', 'rad2deg') or t.op in ('neg',):
        x = t.args[-1]
        y = outward(x)
        if isinstance(y, Node) and y.op == 'where':
            g = (lambda z: fn(t.args[0], z)) if t.op == 'fn' else neg
            return where(y.args[0], g(y.args[1]), g(y.args[2]))
        return t
    if t.op in ('add', 'mul', 'div', 'mod'):
        g = {'add': add, 'mul': mul, 'div': div, 'mod': mod}[t.op]
        for i in (0, 1):
            y = outward(t.args[i])
            if isinstance(y, Node) and y.op == 'where':
                def k(z, i=i):
                    return g(z, t.args[1]) if i == 0 else g(t.args[0], z)
                return where(y.args[0], k(y.args[1]), k(y.args[2]))
    return t

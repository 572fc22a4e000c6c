"""C23 the iterative solver solves Kepler's equation, C11 its iterations are
bounded and its options are the ones that were given."""
from .kep import *
from . import public

E0, MA, EN, NDEG = V('E0'), V('M'), V('E'), V('deg')
KINDS_E = (('elliptic', (F(0), F(1), False, True)), ('hyperbolic', (F(1), INF, True, True)))


def residual(kind, E):
    if kind == 'elliptic':
        return sub(MA, sub(E, mul(EC, fn('sin', E))))
    return sub(MA, sub(mul(EC, fn('sinh', E)), E))


def derivs(kind, E):
    if kind == 'elliptic':
        return sub(mul(EC, fn('cos', E)), 1), neg(mul(EC, fn('sin', E)))
    return sub(1, mul(EC, fn('cosh', E))), neg(mul(EC, fn('sinh', E)))


def settle(nodes, facts):
    """decide the gates that depend on the eccentricity alone"""
    seen = {}
    for n in nodes:
        subterms(n, seen)
    d = nf.Deciding(facts)
    t = {}
    for x in list(seen.values()):
        if x.op in ('lt', 'le', 'eq') and {y.args[0] for y in subterms(x).values() if y.op in ('var', 'phi')} == {'e'}:
            v = d.truth(x)
            if v is not None:
                t[x.id] = v
    return t


class Solver:
    """the loop of the solver in one regime, seen from its exits"""

    def __init__(self, kind, iv, result, loops):
        self.kind, self.facts = kind, [(EC, iv)]
        every = []
        for r in result:
            every.append(r)
        for L in loops:
            every += [L['cond'] if isinstance(L['cond'], Node) else 0]
            every += list(L['inits'].values()) + list(L['nexts'].values())
            for g, vals in L['breaks']:
                every += [g] + list(vals.values())
        self.table = settle(every, self.facts)
        self.result = [self.s(r) for r in result]
        self.loops = loops

    def s(self, n):
        return subst(n, self.table)

    def loop_of(self, out):
        for L in self.loops:
            if out.args[0] in L['phis'].values():
                ins = tuple(sorted((k, C._key(self.s(v))) for k, v in L['inits'].items()))
                if ins == tuple(sorted((k, C._key(self.s(v))) for k, v in out.args[1])):
                    return L
        raise Unsupported('loop of a value is not known')

    def decide(self, a, b, lits=()):
        try:
            return nf.Deciding(self.facts, lits).equal(a, b)
        except nf.Impossible:
            return True

    def leaf_cases(self, t, lits=()):
        """top level gates of a term"""
        if isinstance(t, Node) and t.op == 'where':
            cs = logic.cases([t.args[0]])
            if cs is None:
                raise Unsupported('too many gates')
            for c in cs:
                b = logic.fold(t.args[0], c)
                yield from self.leaf_cases(t.args[1 if b else 2], tuple(lits) + tuple(c.items()))
        else:
            yield t, lits

    def prepare(self, L, rname):
        """invariants: what other carried values are in terms of the iterate"""
        P = dict(L['phis'])
        ins = {k: self.s(v) for k, v in L['inits'].items()}
        nx = {k: self.s(v) for k, v in L['nexts'].items()}
        self.P, self.ins, self.nx, self.rname = P, ins, nx, rname
        self.inv, self.counters, self.lags, self.wrong = {}, {}, {}, {}
        for k, p in P.items():
            if isnum(ins[k]) and isinstance(nx[k], Node):
                for st in (1, -1):
                    if same(nx[k], add(p, st)):
                        self.counters[k] = (ins[k], st)
        # the previous value of a counter
        for k, p in P.items():
            if k not in self.counters and isnum(ins[k]) and isinstance(nx[k], Node) and nx[k].op == 'phi':
                for c, (c0, st) in self.counters.items():
                    if same(nx[k], P[c]) and c0 - st == ins[k]:
                        self.lags[p.id] = sub(P[c], st)
        its = [k for k in P if same(ins[k], E0) and k not in self.counters]
        if rname in its or not its:
            self.ename = rname
        else:
            self.ename = its[0]
        if self.ename is None:
            return
        e1 = V('Enext')
        pe, ne = P[self.ename], nx[self.ename]
        for k, p in P.items():
            if k == self.ename or k in self.counters or p.id in self.lags:
                continue
            wrong = True
            b = nx[k]
            if isinstance(ne, Node) and ne.op not in ('var', 'phi'):
                b = subst(b, {ne.id: e1})
            b = subst(b, {pe.id: EN}) if isinstance(b, Node) else b
            for sg, g in ((1, lambda z: z), (-1, neg), (0, lambda z: fn('abs', z))):
                x = self.decide(ins[k], g(residual(self.kind, ins[self.ename])))
                y = self.decide(b, g(residual(self.kind, e1)))
                if x is True and y is True:
                    self.inv[p.id] = g(residual(self.kind, EN))
                    wrong = False
                    break
                if sg and not (x is False or y is False):
                    wrong = False
            if p.id not in self.inv and isinstance(b, Node) and mentions(b, e1) and not mentions(b, EN) and \
                    not has_op(b, ('phi', 'unk')):
                # another function of the iterate
                if self.decide(ins[k], subst(b, {e1.id: ins[self.ename]})) is True:
                    self.inv[p.id] = subst(b, {e1.id: EN})
                    wrong = False
            self.wrong[p.id] = wrong
        self.tab = {pe.id: EN, **self.inv, **self.lags}

    def local(self, v):
        """value inside the loop in terms of the iterate and counters"""
        return subst(self.s(v), self.tab) if isinstance(v, Node) else v

    def at_iteration(self, v):
        """counters as functions of the number k of the iteration, at its head"""
        if not isinstance(v, Node):
            return v
        k = V('k')
        t = {self.P[c].id: add(c0, mul(st, sub(k, 1))) for c, (c0, st) in self.counters.items()}
        return subst(subst(self.s(v), self.lags), t)

    def stepped(self, vals):
        """was the step of the iteration made before this exit"""
        if self.ename is not None and self.ename in vals:
            return self.s(vals[self.ename]) is not self.P[self.ename]
        its = [k for k in self.P if same(self.ins[k], E0) and k not in self.counters]
        return any(k in vals and self.s(vals[k]) is not self.P[k] for k in its)

    def exits(self, L):
        """[(guard, {name: value}, step made)]"""
        out = []
        c = L['cond']
        P = dict(self.P)
        if c is not True:
            out.append((not_(self.s(c)), dict(P), False))
        for g, vals in L['breaks']:
            out.append((self.s(g), {**P, **{k: self.s(v) for k, v in vals.items()}}, self.stepped(vals)))
        return out


def relation(atom, v):
    """(small, big) of a comparison that holds"""
    a, b = atom.args
    if atom.op in ('lt', 'le'):
        return (a, b) if v else (b, a)
    return None


def mentions(t, x):
    return isinstance(t, Node) and any(y is x for y in subterms(t).values())


def close(S, rel, E):
    """does small <= big say that the residual at E is within the tolerance?
    True, False, None, or 'not' when it says the opposite"""
    small, big = rel
    r = residual(S.kind, E)
    ar = fn('abs', r)
    d = S.decide(sub(big, small), sub(TOL, ar))
    if d is True:
        return True
    if S.decide(sub(small, big), sub(TOL, ar)) is True:
        return 'not'
    if not isinstance(small, Node) or mentions(small, TOL) or not mentions(big, TOL):
        return None if mentions(small, TOL) and not mentions(big, TOL) is False else d
    same_r = S.decide(small, ar)
    if same_r is not True and small.op == 'fn' and small.args[0] == 'abs':
        x = small.args[1]
        y = [S.decide(x, r), S.decide(x, neg(r))]
        same_r = True if True in y else False if y == [False, False] else None
    same_t = S.decide(big, TOL)
    if same_r is False or same_t is False:
        return False
    return None


def run_solver(ck):
    w = Kep()
    w.fn('laguerre_solve_kepler')

    def one(kind, iv):
        loops = []

        def post(r):
            loops.extend(w.it.loops)
            return w.rows(r)
        res = w.call('laguerre_solve_kepler', E0, MA, EC, tol=TOL, max_iter=MAXIT, post=post)
        S = Solver(kind, iv, res, loops)
        if len(res) != 2:
            ck.unknown('%s: result of the solver' % kind, 'not a pair')
            return
        key = '%s: the returned eccentric anomaly satisfies the Kepler equation of its regime' % kind
        key2 = '%s: at most max_iter iterations are made' % kind
        for leaf, lits in S.leaf_cases(S.result[0]):
            lits = list(lits)
            if not (isinstance(leaf, Node) and leaf.op == 'loopout'):
                judge_exit(ck, S, key, leaf, lits)
                continue
            L = S.loop_of(leaf)
            S.prepare(L, leaf.args[0].args[2])
            ck.count('loops')
            for guard, vals, stepped in S.exits(L):
                g = S.local(guard)
                Ex = S.local(vals[S.rname])
                nextE = S.local(S.nx[S.ename])
                # the new iterate is a value of its own
                if same(Ex, nextE) and isinstance(Ex, Node) and Ex is not EN:
                    mark = V('Enext')
                    g = subst(g, {Ex.id: mark})
                    for k, p in S.P.items():
                        if p.id in S.inv:
                            nk = S.local(S.nx[k])
                            if isinstance(nk, Node) and nk is not EN:
                                g = subst(g, {nk.id: subst(S.inv[p.id], {EN.id: mark})})
                    Ex = mark
                cs = logic.cases([g]) if isinstance(g, Node) else [{}] if g is True else []
                if cs is None:
                    raise Unsupported('too many exit conditions')
                for c in cs:
                    if isinstance(g, Node) and not logic.fold(g, c):
                        continue
                    judge_exit(ck, S, key, Ex, lits + list(c.items()))
                    ck.count('exits')
            bound_iterations(ck, S, L, key2)
            step_rule(ck, S, kind, w)
        keyn = '%s: the number of iterations is returned' % kind
        for leaf, lits in S.leaf_cases(S.result[1]):
            if isinstance(leaf, Node) and leaf.op == 'loopout':
                L = S.loop_of(leaf)
                S.prepare(L, None)
                nm = leaf.args[0].args[2]
                for guard, vals, stepped in S.exits(L):
                    v = S.at_iteration(vals[nm])
                    k = V('k')
                    want = k if stepped else sub(k, 1)
                    ok = S.decide(v, want) if plain(v) else None
                    ck.verdict(keyn, ok, '%s after %s iterations' % (show(v), show(want)), show(v))
            else:
                ck.verdict(keyn, True if isnum(leaf) and leaf == 0 else False if isnum(leaf) else None, 'is %s without '
                           'an iteration' % show(leaf))
    for kind, iv in KINDS_E:
        ck.guard('%s: solver' % kind, one, kind, iv)
    ck.saw(w.it)


def judge_exit(ck, S, key, Ex, lits):
    good = False
    bad = unclear = None
    used_up = False
    for a, v in lits:
        rel = relation(a, v)
        if rel is None:
            continue
        if mentions(rel[0], MAXIT) and not mentions(rel[1], MAXIT):
            used_up = True
            continue
        if mentions(rel[1], MAXIT):
            continue
        if not any(mentions(x, TOL) for x in rel):
            continue
        r = close(S, rel, Ex)
        if r is True:
            good = True
        elif r == 'not':
            continue
        elif r is False:
            bad = '%s <= %s' % (show(rel[0]), show(rel[1]))
        else:
            # a carried value that is tested instead of the residual
            small = rel[0]
            if isinstance(small, Node) and small.op == 'fn' and small.args[0] == 'abs':
                small = small.args[1]
            if isinstance(small, Node) and S.wrong.get(small.id):
                bad = '%s <= %s, which is not the residual' % (show(rel[0]), show(rel[1]))
            else:
                unclear = '%s <= %s' % (show(rel[0], 4), show(rel[1], 4))
    if good or used_up:
        ck.ok(key)
    elif bad:
        ck.bad(key, 'the iteration ends when %s' % bad)
    elif unclear:
        ck.unknown(key, 'the iteration ends when %s' % unclear)
    else:
        txt = ' and '.join(('' if v else 'not ') + show(a, 4) for a, v in lits)
        known = all(plain(a, PLAIN_OPS + ('lt', 'le', 'eq', 'phi')) for a, _ in lits)
        ck.verdict(key, False if known else None, 'the iteration also ends when %s' % (txt or 'nothing holds'),
                   'the iteration also ends when %s' % txt)


def bound_iterations(ck, S, L, key):
    """another step is made only while fewer than max_iter are done"""
    k = V('k')
    parts = []

    def at(c, shift):
        """condition seen at the head of iteration k + shift"""
        c = S.at_iteration(c)
        t = {}
        if shift:
            t = {k.id: add(k, 1)}
            # everything else is another value then
            for x in subterms(c).values() if isinstance(c, Node) else ():
                if x.op == 'phi' or x is EN:
                    t[x.id] = mk('var', 'later %s' % (x.args,), 'finite')
        return subst(c, t) if isinstance(c, Node) else c
    if isinstance(L['cond'], Node):
        parts += [at(S.s(L['cond']), 0), at(S.s(L['cond']), 1)]
    for (g, vals) in L['breaks']:
        stepped = S.stepped(vals)
        parts.append(not_(at(S.s(g), 0 if stepped else 1)))
        if not stepped:
            parts.append(not_(at(S.s(g), 0)))
    total = True
    for p in parts:
        total = and_(total, p)
    if not isinstance(total, Node):
        ck.verdict(key, False if total is True else True, 'the loop has no end condition')
        return
    cs = logic.cases([total])
    if cs is None:
        ck.unknown(key, 'too many conditions')
        return
    late, open_, uses = None, None, False
    for a in cs:
        if not logic.fold(total, a):
            continue
        ok = False
        for x, v in a.items():
            rel = relation(x, v) if x.op in ('lt', 'le') else None
            if x.op == 'eq' and v and mentions(x, k) and not mentions(x, MAXIT):
                # only in one particular iteration
                d = nf.Deciding([(k, (F(1), INF, False, True))], [(x, True)])
                try:
                    if not d.possible() or d.truth(cmp('le', k, 1)) is not None:
                        ok = True
                except nf.Impossible:
                    ok = True
                continue
            if rel is None:
                continue
            small, big = rel
            strict = (x.op == 'lt') == v
            if not mentions(x, MAXIT):
                if mentions(x, k):
                    # the first iteration may always be made
                    first = nf.Deciding([(k, (F(1), INF, False, True))], [(x, v)])
                    try:
                        if not first.possible():
                            ok = True
                    except nf.Impossible:
                        ok = True
                    c1 = S.decide(sub(big, small), sub(2, k)) if strict else S.decide(sub(big, small), sub(1, k))
                    if c1 is True or S.decide(sub(big, small), sub(1, k)) is True:
                        ok = True
                continue
            uses = True
            d = sub(big, small)
            lim = sub(MAXIT, k) if strict else sub(sub(MAXIT, k), 1)
            for less in range(0, 4):
                if S.decide(d, sub(lim, less)) is True:
                    ok = True
            if not ok:
                for more in (1, 2, 3):
                    if S.decide(d, add(lim, more)) is True:
                        late = 'max_iter + %d iterations are possible' % more
        if not ok:
            open_ = ' and '.join(('' if v else 'not ') + show(x, 4) for x, v in a.items())
    if open_ is None:
        ck.ok(key)
    elif late:
        ck.bad(key, late)
    else:
        ck.verdict(key, None if uses or has_op(total, ('unk',)) else False,
                   'nothing in the loop compares a count with max_iter', open_)


def plain_roots(t, sg):
    """roots of absolute values as roots"""
    tab = {}
    for x in subterms(t).values():
        if x.op == 'fn' and x.args[0] == 'sqrt' and isinstance(x.args[1], Node) and x.args[1].op == 'fn' and \
                x.args[1].args[0] == 'abs':
            tab[x.id] = fn('sqrt', mul(sg, x.args[1].args[1]))
    return subst(t, tab)


def step_rule(ck, S, kind, w):
    """Laguerre's step for the equation that is solved"""
    key = '%s: each iteration is a Laguerre step for this equation' % kind
    nxt = S.local(S.nx[S.ename])
    fp, fpp = derivs(kind, EN)
    f = residual(kind, EN)
    n = 5
    rad = fn('sqrt', fn('abs', sub(mul((n - 1) ** 2, mul(fp, fp)), mul(mul(n * (n - 1), f), fpp))))
    dp, dm = add(fp, rad), sub(fp, rad)
    steps = [(1, sub(EN, div(mul(n, f), dp))), (-1, sub(EN, div(mul(n, f), dm)))]
    if any(x.op == 'phi' for x in subterms(nxt).values()):
        ck.unknown(key, 'values carried around the loop are not functions of the iterate')
        return
    for (leaf,), lits in Agree(S.facts).cases([nxt]):
        rs = [S.decide(leaf, st) for _, st in steps]
        if None in rs and True not in rs:
            # where the radicand is positive
            rs = [r if r is not None else False if all(
                S.decide(plain_roots(leaf, sg), plain_roots(st, 1)) is False for sg in (1, -1)) else None
                for r, (_, st) in zip(rs, steps)]
        if not any(r is True for r in rs):
            ck.verdict(key, False if all(r is False for r in rs) else None, 'the step is %s' % show(leaf, 8),
                       'the step is %s' % show(leaf, 8))
            continue
        sg = steps[rs.index(True)][0]
        for a, v in lits:
            rel = relation(a, v)
            if rel is None:
                continue
            small, big = rel
            x, y = (dp, dm) if sg > 0 else (dm, dp)         # chosen, other
            ab = [S.decide(small, fn('abs', y)), S.decide(big, fn('abs', x))]
            ba = [S.decide(small, fn('abs', x)), S.decide(big, fn('abs', y))]
            if ba == [True, True]:
                ck.bad(key, 'the smaller denominator is chosen')
        ck.ok(key)


def only(ck, words, f):
    """the obligations of f that belong to this property"""
    sub_ = type(ck)(ck.prop, ck.tier)
    f(sub_)
    for k, st, t in sub_.obl:
        if any(x in k for x in words) or st == 'undecided' and not any(y in k for y in (
                'Kepler equation', 'Laguerre step', 'iterations')):
            ck._add(k, st, t)
    ck.functions |= sub_.functions
    ck.callsites |= sub_.callsites
    ck.missing += sub_.missing
    for a, b in sub_.counts.items():
        ck.count(a, b)


SHAPES = (('scalars', lambda n: V(n), lambda n: V(n)), ('arrays', vec, vec), ('scalar and array', V, vec),
          ('array and scalar', vec, V))


def run_equation(ck):
    only(ck, ('Kepler equation', 'Laguerre step'), run_solver)
    w = Kep()
    install_solver(w)
    opts = dict(tol=TOL, max_iter=MAXIT)
    for nm in ('mean_to_eccentric',):
        for label, f, g in SHAPES:
            for rname, iv, val in REGIMES:
                key = '%s of %s solves the equation of the %s regime' % (nm, label, rname)

                def one(nm=nm, f=f, g=g, rname=rname, iv=iv, val=val, key=key):
                    got = w.call(nm, lambda: f('x'), lambda: g('e'), solver_options=lambda: dict(opts))
                    if rname == 'parabolic':
                        # D + D^3/3 = M has one real root
                        D = got[0]
                        ag = Agree((), {EC: 1})
                        v, t = ag.agree([add(D, div(power(D, 3), 3))], [X])
                        ck.verdict(key, v, t, t)
                        return
                    ag = Agree([(EC, iv)] if iv else [], {EC: val} if val is not None else {})
                    want = kepsol('hyperbolic' if rname == 'hyperbolic' else 'elliptic', X, EC if val is None else val,
                                  (TOL, MAXIT))
                    v, t = ag.agree(got, [want])
                    ck.verdict(key, v, t, t)
                ck.guard(key, one)
    ck.saw(w.it)


def default_options(w=None):
    if w is None:
        w = Kep()
        install_solver(w)
    w.call('laguerre_solve_kepler', E0, MA, EC)
    e = [e for e in w.it.events_last if e['kind'] == 'solve'][0]
    return dict(tol=e['tol'], max_iter=e['max_iter'], degree=e['degree'])


def run_options(ck):
    only(ck, ('iterations',), run_solver)
    w = Kep()
    install_solver(w)
    opt_sets = (('all options', dict(tol=TOL, max_iter=MAXIT, degree=7)), ('tolerance only', dict(tol=TOL)),
                ('iterations only', dict(max_iter=MAXIT)), ('degree only', dict(degree=7)), ('none', None),
                ('empty', {}))

    dflt = ck.guard('default options', default_options, w)
    if dflt is None:
        return

    def judge(key, f, opts):
        f()
        evs = [e for e in w.it.events_last if e['kind'] == 'solve']
        want = dict(dflt)
        want.update(opts or {})
        if not evs:
            ck.bad(key, 'the solver is not used')
            return
        ck.count('solver calls', len(evs))
        for e in evs:
            for o in ('tol', 'max_iter', 'degree'):
                r = decide(e[o], want[o])
                if r is not True:
                    ck.verdict(key, r, '%s is %s instead of %s' % (o, show(e[o]), show(want[o])), '%s is %s' % (
                        o, show(e[o])))
                    return
        ck.ok(key)
    for oname, opts in opt_sets:
        for deg in (False, True):
            for nm in ('mean_to_eccentric', 'mean_to_true'):
                for label, f, g in SHAPES:
                    key = '%s of %s uses the given solver options (%s)' % (nm, label, oname)
                    ck.guard(key, judge, key, lambda: w.call(nm, lambda: f('x'), lambda: g('e'), degrees=deg,
                                                             solver_options=lambda: None if opts is None else dict(opts)),
                             opts)
            nm = 'equi_to_cart'
            for label, six in (('one orbit', lambda: mat(6, 'q', None)), ('several orbits', lambda: mat(6, 'q'))):
                key = '%s of %s uses the given solver options (%s)' % (nm, label, oname)
                ck.guard(key, judge, key, lambda: w.call(nm, six, mu=MU, degrees=deg, solver_options=lambda: None
                                                         if opts is None else dict(opts)), opts)
    # given options are not changed by the call
    for nm in ('mean_to_eccentric', 'mean_to_true', 'equi_to_cart'):
        key = '%s leaves the given options as they are' % nm

        def same_dict(nm=nm, key=key):
            d = dict(tol=TOL)
            after = []

            def post(r):
                after.append(dict(d))
                return r
            if nm == 'equi_to_cart':
                w.call(nm, lambda: mat(6, 'q'), mu=MU, solver_options=lambda: d, post=post)
            else:
                w.call(nm, X, EC, solver_options=lambda: d, post=post)
            ck.verdict(key, after == [dict(tol=TOL)], 'they become %s' % after)
        ck.guard(key, same_dict)
    ck.saw(w.it)
    orbit_options(ck, dflt)


# the options of an orbit object in every conversion it carries out
def orbit_options(ck, dflt):
    opt_sets = (('all options', dict(tol=TOL, max_iter=MAXIT, degree=7)), ('tolerance only', dict(tol=TOL)),
                ('none', None))

    def work(ck, item):
        (auto, direct), typ, hist, (oname, opts) = item
        w = Lab()
        it = w.it
        kw = {} if opts is None else dict(solver_options=dict(opts))
        heap = ck.guard('state', lambda: w.state(typ, False, auto, direct, hist, **kw))
        if heap is None:
            return
        nm = '%s/%s/%s' % (mode_name(auto, direct), typ, hist)
        base = w.do(lambda: dict(it.getattr(w.new(), 'solver_options')))
        want = dict(dflt)
        want.update(base)
        want.update(opts or {})

        def effective(d):
            r = dict(dflt)
            r.update(d or {})
            return r
        for label, f in public.operations(w):
            key = '%s uses the solver options of the orbit (%s)' % (label, oname)

            def one(label=label, f=f, key=key):
                def go():
                    o = restore(heap, w.Orbit)
                    try:
                        f(o)
                    except PyRaise:
                        return None
                    return it.getattr(o, 'solver_options')
                after = w.do(go)
                evs = [e for e in w.it.events_last if e['kind'] == 'solver_options']
                for e in evs:
                    val = e['value']
                    if not e['callee'].startswith(('mean_to', 'equi_to_cart')):
                        continue
                    if not (val is None or isinstance(val, dict)):
                        ck.verdict(key, None, '', '%s: %s called with options %s' % (nm, e['callee'], show(val)))
                        return
                    for k, x in effective(val).items():
                        r = decide(x, want.get(k)) if k in want else True
                        if r is not True:
                            t = '%s: %s called with %s %s instead of %s' % (nm, e['callee'], k, show(x), show(want[k]))
                            ck.verdict(key, r, t, t)
                            return
                    ck.count('conversion calls')
                if after is not None:
                    ck.verdict('the solver options of an orbit stay as they were given', isinstance(after, dict) and all(
                        decide(effective(after).get(k), want[k]) is True for k in want), '%s, %s: they become %s' % (
                            nm, label, after))
                ck.ok(key)
            ck.guard(key, one)
        ck.saw(it)
    parallel(ck, [(mo, typ, hist, o) for mo in MODES for typ in KINDS for hist in ('k', 'ca') for o in opt_sets], work)
    w = Lab()
    it = w.it
    key = 'given solver options are added to the defaults'

    def dflt():
        def go():
            a = it.getattr(w.new(), 'solver_options')
            o = w.new(solver_options=dict(tol=V('tol')))
            return dict(a), dict(it.getattr(o, 'solver_options'))
        a, b = w.do(go)
        ck.verdict(key, isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and b['tol'] is V('tol') and
                   all(a[k] == b[k] for k in a if k != 'tol'), '%s and %s' % (a, b))
    ck.guard(key, dflt)
    for label, mk_ in (('copy', lambda o: it.call(it.getattr(o, 'copy'), [], {})),
                       ('selection', lambda o: it.call(it.getattr(o, '__getitem__'), [slice(0, 1)], {})),
                       ('copy.copy', lambda o: it.call(it.getattr(o, '__copy__'), [], {}))):
        key = 'a %s of an orbit has its solver options' % label

        def sub(mk_=mk_, key=key):
            def go():
                o = w.new(solver_options=dict(tol=TOL, max_iter=MAXIT))
                return dict(it.getattr(mk_(o), 'solver_options')), dict(it.getattr(o, 'solver_options'))
            a, b = w.do(go)
            ck.verdict(key, set(a) == set(b) and all(decide(a[k], b[k]) is True for k in a), '%s instead of %s' % (a, b))
        ck.guard(key, sub)
    ck.saw(it)

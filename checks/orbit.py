"""Abstract orbits: construction, snapshots of the abstract heap, the conversion
functions as uninterpreted symbols, case splits over the generic object."""
from .base import *                       # noqa
from pyabs.core import *                  # noqa
from pyabs import core as C
from pyabs import engine as E
from pyabs import logic
from pyabs import nf
from fractions import Fraction

N = ('N', 'n')
CART = ('x', 'y', 'z', 'vx', 'vy', 'vz')
KEP = ('a', 'e', 'i', 'omega', 'Omega', 'anom')
KINDS = ('true', 'eccentric', 'mean')
ANOMS = {'%s_to_%s' % (f, t): (f, t) for f in KINDS for t in KINDS if f != t}
KQ = 'pyorb.kepler.'


def V(s):
    return mk('var', s, 'finite')


GT0 = (Fraction(0), nf.INF, True, True)
POSITIVE = [(V(s_), GT0) for s_ in ('G', 'M0')] + [(V('m'), (Fraction(0), nf.INF, False, True))]


def vec(name, space=N, dtype='f'):
    return fresh((), space, {(): V(name)}, dtype, origin='param:' + name)


def mat(rows, prefix, space=N, dtype='f'):
    return fresh((rows,), space, {(i,): V('%s%d' % (prefix, i)) for i in range(rows)}, dtype,
                 origin='param:' + prefix)


# ------------------------------------------------------------ symbols

def _rows(k):
    if not isinstance(k, Arr) or k.sshape != (6,):
        raise Unsupported('conversion of something that is not a 6-vector')
    return tuple(k.get((i,)) for i in range(6))


_reps = {}


def representative(v):
    """one term for all ways to write the same value"""
    if not isinstance(v, Node):
        return v
    r = _reps.get(v.id)
    if r is None:
        r = v
        if plain(v):
            for q in list(_reps.values()):
                if q is not v and decide(v, q) is True:
                    r = q
                    break
        _reps[v.id] = r
    return r


def _conv(nm):
    def h(it, f, b):
        names = list(b)
        k = b[names[0]]
        if not isinstance(k, Arr):
            it.event('type_error', what='conversion of a non-array')
            raise PyRaise(E.ExcVal(E.ExcType('TypeError')))
        args = _rows(k)
        space = k.space
        extra = []
        for p in names[1:]:
            v = b[p]
            if p in ('mu',):
                if isinstance(v, Arr):
                    if v.sshape:
                        raise Unsupported('gravitational parameter with several axes')
                    vs, v = v.space, v.get()
                    if vs is not None:
                        if k.space is None:
                            space = vs
                        else:
                            eq = it.np.space_equal(k.space, vs)
                            if eq is not True:
                                it.event('space_mismatch', a=k.space, b=vs, definite=eq is False)
                                v = it.np.other_object(v, vs, eq)
                extra.append(('mu', representative(v)))
            elif p == 'degrees':
                extra.append(('degrees', v))
            elif p == 'solver_options':
                it.event('solver_options', callee=f.name, value=v)
        extra = tuple(sorted(extra))
        ev = it.event('convert', what=nm, arg=k, extra=extra)
        cells = {(i,): mk(nm, i, args, tuple(v for _, v in extra)) for i in range(6)}
        return fresh((6,), space, cells, k.buf.dtype if k.buf.dtype in ('f', 'f4') else 'f')
    return h


def _anom(frm, to):
    def h(it, f, b):
        names = list(b)
        x, e = b[names[0]], b[names[1]]
        d = b.get('degrees', False)
        if 'solver_options' in b:
            it.event('solver_options', callee=f.name, value=b['solver_options'])
        it.event('anomaly', frm=frm, to=to, x=x, e=e, degrees=d)
        return it.np.elementwise(lambda p, q: NAN if p is NAN or q is NAN else mk('anom', to, frm, p, q, d), [x, e], 'f')
    return h


def install(it):
    it.intrinsics[KQ + 'kep_to_cart'] = _conv('k2c')
    it.intrinsics[KQ + 'cart_to_kep'] = _conv('c2k')
    it.intrinsics[KQ + 'kep_to_equi'] = _conv('k2e')
    it.intrinsics[KQ + 'equi_to_kep'] = _conv('e2k')
    for nm, (f, t) in ANOMS.items():
        it.intrinsics[KQ + nm] = _anom(f, t)


C.FINITE_OPS = tuple(set(C.FINITE_OPS))

INV = {'k2c': 'c2k', 'c2k': 'k2c', 'k2e': 'e2k', 'e2k': 'k2e'}


def simp_node(x):
    """rewriting rules of the conversion symbols, None if none applies"""
    if x.op in INV:
        i, rows, extra = x.args
        inv = INV[x.op]
        if all(isinstance(r, Node) and r.op == inv and r.args[0] == j and r.args[2] == extra
               for j, r in enumerate(rows)):
            src = rows[0].args[1]
            if all(r.args[1] is src or r.args[1] == src for r in rows):
                return src[i]
    elif x.op == 'anom':
        to, frm, y, e, d = x.args
        if to == frm:
            return y
        if isinstance(y, Node) and y.op == 'anom' and y.args[0] == frm and same(y.args[3], e) and y.args[4] == d:
            return simp1(mk('anom', to, y.args[1], y.args[2], e, d))
    return None


def mk_anom(to, frm, y, e, d):
    if y is NAN or e is NAN:
        return NAN
    return simp1(mk('anom', to, frm, y, e, d))


C.REBUILD['anom'] = mk_anom


def simp1(x):
    r = simp_node(x)
    return x if r is None else r


def subst(n, table, memo=None):
    """top-down replacement of whole subterms, then simplification"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Node):
            return x
        if x.id in memo:
            return memo[x.id]
        if x.id in table:
            r = table[x.id]
        elif not x.args or x.op == 'var':
            r = x
        elif x.op == 'where':
            m = go(x.args[0])
            if isinstance(m, bool):
                r = go(x.args[1] if m else x.args[2])
            else:
                r = where(m, go(x.args[1]), go(x.args[2]))
        else:
            a = tuple(go(y) for y in x.args)
            if x.op == 'reduce':
                from pyabs.npmodel import reduce_node
                if a[0] == 'any' and a[2] is True or a[0] == 'all' and a[2] is False:
                    r = a[0] == 'any'
                elif a[0] in ('sum', 'count_nonzero') and a[2] is True:
                    r = mk('positive')
                elif a[0] == 'max' and a[2] is True:
                    r = True
                else:
                    # other objects are not bound by what is assumed of this one
                    r = mk('reduce', a[0], a[1], a[2])
            elif x.op == 'size' and selects_this(a[0]):
                r = mk('positive')
            elif x.op == 'fn':
                r = fn(*a)
            elif x.op in C.REBUILD:
                r = C.REBUILD[x.op](*a)
                if isinstance(r, Node) and r.op in ('lt', 'le', 'eq') and \
                        any(isinstance(z, Node) and z.op == 'positive' for z in r.args):
                    r = positive_cmp(r)
            else:
                if x.op in INV:
                    a = (a[0], a[1], tuple(representative(v) for v in a[2]))
                r = mk(x.op, *a)
                if r.op in INV or r.op == 'anom':
                    r = simp1(r)
        if isinstance(r, Node) and r.id in table and r.id != x.id:
            r = table[r.id]
        memo[x.id] = r
        return r
    return go(n)


def selects_this(space):
    '''the generic object is in the selection'''
    if not (isinstance(space, tuple) and space and space[0] == 'sub'):
        return False
    while isinstance(space, tuple) and space and space[0] == 'sub':
        if space[2] is not True:
            return False
        space = space[1]
    return True


def positive_cmp(r):
    a, b = r.args
    if isinstance(b, Node) and b.op == 'positive' and isnum(a):
        if r.op == 'lt' and a <= 0 or r.op == 'le' and a <= 1:
            return True
        if r.op == 'eq' and a <= 0:
            return False
    if isinstance(a, Node) and a.op == 'positive' and isnum(b):
        if r.op == 'lt' and b <= 1 or r.op == 'le' and b <= 0:
            return False
        if r.op == 'eq' and b <= 0:
            return False
    return r


# ------------------------------------------------------------ the heap

class Heap:
    """snapshot of an object's attributes.  Arrays that share storage keep
    sharing it."""

    def __init__(self):
        self.attrs = {}         # name -> ('arr', buf index, sshape, imap, space) | ('val', v)
        self.bufs = []          # (sshape, space, cells, dtype)

    def key(self):
        out = []
        for k in sorted(self.attrs):
            e = self.attrs[k]
            if e[0] == 'arr':
                out.append((k, 'arr', e[1], e[2], e[4]))
            else:
                out.append((k, 'val', keyof(e[1])))
        bl = []
        for sshape, space, cells, dtype in self.bufs:
            bl.append((sshape, str(space), dtype, tuple((k, C._key(v)) for k, v in sorted(cells.items()))))
        return (tuple(out), tuple(bl))

    def map(self, f):
        h = Heap()
        h.attrs = {k: (('val', mapval(v[1], f)) if v[0] == 'val' else v) for k, v in self.attrs.items()}
        h.bufs = [(s, sp, {k: f(v) for k, v in c.items()}, d) for s, sp, c, d in self.bufs]
        return h

    def terms(self):
        out = []
        for s, sp, c, d in self.bufs:
            out += [v for _, v in sorted(c.items())]
        for k in sorted(self.attrs):
            e = self.attrs[k]
            if e[0] == 'val':
                collect(e[1], out)
        return out


def collect(v, out):
    if isinstance(v, Node):
        out.append(v)
    elif isinstance(v, (list, tuple)):
        for x in v:
            collect(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            collect(x, out)


def mapval(v, f):
    if isinstance(v, Node):
        return f(v)
    if isinstance(v, tuple):
        return tuple(mapval(x, f) for x in v)
    if isinstance(v, list):
        return [mapval(x, f) for x in v]
    if isinstance(v, dict):
        return {k: mapval(x, f) for k, x in v.items()}
    return v


def keyof(v):
    if isinstance(v, Node):
        return C._key(v)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(keyof(x) for x in v)
    if isinstance(v, dict):
        return ('dict',) + tuple((str(k), keyof(x)) for k, x in sorted(v.items(), key=lambda z: str(z[0])))
    if isinstance(v, (E.FuncVal, E.BoundM, E.Builtin)):
        return ('id', id(v))
    return (type(v).__name__, repr(v))


def snap(o):
    h = Heap()
    ids = {}

    def arr(v):
        b = v.buf
        if b.id not in ids:
            ids[b.id] = len(h.bufs)
            h.bufs.append((b.sshape, b.space, dict(b.cells), b.dtype))
        return ('arr', ids[b.id], v.sshape, tuple(sorted(v.imap.items())), v.space)

    def val(v):
        if isinstance(v, Arr):
            raise Unsupported('array inside a container attribute')
        if isinstance(v, dict):
            return {k: val(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return type(v)(val(x) for x in v)
        if isinstance(v, E.Obj):
            raise Unsupported('object attribute')
        return v
    for k, v in o.attrs.items():
        if isinstance(v, Arr):
            h.attrs[k] = arr(v)
        else:
            h.attrs[k] = ('val', val(v))
    return h


def restore(h, cls):
    o = E.Obj(cls)
    bufs = [Buf(s, sp, dict(c), d, 'field') for s, sp, c, d in h.bufs]
    for k, e in h.attrs.items():
        if e[0] == 'arr':
            _, i, sshape, imap, space = e
            a = Arr(bufs[i], sshape, dict(imap), space)
            bufs[i].origin = 'field:' + k
            o.attrs[k] = a
        else:
            v = e[1]
            o.attrs[k] = {**v} if isinstance(v, dict) else list(v) if isinstance(v, list) else v
    return o


# ------------------------------------------------------------ the world

class World:
    def __init__(self, intrinsics=True, repo=None):
        self.it = Interp(repo or REPO)
        self.mod = self.it.load('pyorb')
        if 'Orbit' not in self.mod.ns:
            raise Missing('pyorb.Orbit')
        self.Orbit = self.mod.ns['Orbit']
        if intrinsics:
            install(self.it)
        n = size_of(N)
        self.n = n
        for c, v in ((cmp('lt', 0, n), True), (cmp('eq', 0, n), False), (cmp('le', 1, n), True),
                     (cmp('le', n, 0), False), (cmp('lt', n, 1), False), (cmp('eq', n, 1), False),
                     (cmp('lt', 1, n), True)):
            if isinstance(c, Node):
                self.it.facts[c.id] = v
        self.G, self.M0, self.m = V('G'), V('M0'), V('m')
        self.mu = mul(self.G, add(self.M0, self.m))

    def new(self, **kw):
        kw.setdefault('num', self.n)
        kw.setdefault('G', self.G)
        kw.setdefault('m', vec('m'))
        return self.it.call(self.Orbit, [self.M0], kw)

    def do(self, f):
        """run f, undo its effects on the abstract heap, return its result"""
        it = self.it
        mark, evm = len(it.trail), len(it.events)
        facts, conds = dict(it.facts), list(it.conds)
        try:
            return f()
        finally:
            it.undo(mark)
            it.facts, it.conds = facts, conds
            it.events_last = it.events[evm:]
            del it.events[evm:]
            it.frames.clear()
            it.callstack.clear()
            it.np.genloop.clear()
            it.loops.clear()
            it.yields = []
            it.steps = 0


def bool_atoms(terms):
    """undetermined selection/flag/reduction atoms that gate the terms"""
    sels, reds, flags = {}, {}, {}
    seen = {}
    for t in terms:
        subterms(t, seen)
    for x in seen.values():
        if x.op in ('sel', 'isnew'):
            sels[x.id] = x
        elif x.op == 'reduce':
            reds[x.id] = x
        elif x.op == 'var' and len(x.args) > 1 and 'flag' in x.args:
            flags[x.id] = x
    return list(sels.values()), list(reds.values()), list(flags.values())


def gate_reductions(terms):
    """reduction nodes (or comparisons of them) that occur in gate conditions"""
    out = {}
    seen = {}
    for t in terms:
        subterms(t, seen)
    for x in seen.values():
        if x.op == 'where':
            for at in logic.atoms(x.args[0]).values():
                if has_op(at, ('reduce',)):
                    out[at.id] = at
        elif x.op in ('and', 'or', 'not'):
            for at in logic.atoms(x).values():
                if has_op(at, ('reduce',)):
                    out[at.id] = at
    return list(out.values())


def split(terms, base, extra_sel=()):
    """all cases of the generic object.  terms: list of nodes, base: {id: value}
    assumed.  Yields (table, [terms under the case])"""
    def go(ts, table):
        ts = [subst(t, table) for t in ts]
        sels, reds, flags = bool_atoms(ts)
        if flags or sels:
            x = (flags or sels)[0]
            for v in (True, False):
                yield from go(ts, {**table, x.id: v})
            return
        gs = gate_reductions(ts)
        if gs:
            x = gs[0]
            if any(y.op == 'reduce' and len(y.args) > 2 and isnum(y.args[2]) and not isinstance(y.args[2], bool)
                   for y in subterms(x).values()):
                raise Unsupported('reduction %s over all objects' % show(x, 4))
            for v in (True, False):
                yield from go(ts, {**table, x.id: v})
            return
        yield table, ts
    yield from go(list(terms), dict(base))


def gate_atoms(terms):
    """comparison atoms that gate the terms, outermost first"""
    out = {}
    seen = set()
    todo = list(terms)
    while todo:
        x = todo.pop(0)
        if isinstance(x, tuple):
            todo += list(x)
        if not isinstance(x, Node) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'where':
            for a in logic.atoms(x.args[0]).values():
                out.setdefault(a.id, a)
        todo += list(x.args)
    return list(out.values())


def cases(terms, base, limit=4096):
    """split() and then every consistent valuation of the remaining gates"""
    n = [0]

    def go(ts, table, ass):
        n[0] += 1
        if n[0] > limit:
            raise Unsupported('too many cases')
        at = [a for a in gate_atoms(ts) if a.op in ('lt', 'le', 'eq', 'fn', 'var', 'at', 'sel', 'isnew', 'reduce',
                                                    'call', 'unk', 'phi')]
        if not at:
            yield table, ts, ass
            return
        x = at[0]
        for v in (True, False):
            a2 = ass + [(x, v)]
            if not logic.consistent(a2):
                continue
            t2 = {**table, x.id: v}
            yield from go([subst(t, t2) for t in ts], t2, a2)
    for table, ts in split(terms, base):
        yield from go(ts, table, [])


PLAIN_OPS = ('var', 'k2c', 'c2k', 'anom', 'k2e', 'e2k', 'add', 'mul', 'neg', 'div', 'nan', 'pi', 'pow', 'mod',
             'fn', 'size', 'at', 'cst', 'ext', 'pick')


def plain(n, ops=PLAIN_OPS):
    return all(x.op in ops for x in subterms(n).values()) if isinstance(n, Node) else True


_decided = {}


def decide(x, y, ass=()):
    """are two ungated terms the same function: True, False or None"""
    if same(x, y):
        return True
    if not (plain(x) and plain(y)):
        return None
    k = (C._key(x), C._key(y), tuple((a.id, v) for a, v in ass))
    if k in _decided:
        return _decided[k]
    if not isinstance(x, Node) and not isinstance(y, Node):
        r = x == y or (x != x and y != y)
    elif isinstance(x, (bool, str)) or isinstance(y, (bool, str)) or x is None or y is None:
        r = False
    elif x is NAN or y is NAN:
        r = False
    elif has_op(x, ('nan',)) or has_op(y, ('nan',)):
        r = False if has_op(x, ('nan',)) != has_op(y, ('nan',)) else None
    else:
        try:
            r = nf.Deciding(POSITIVE, ass).equal(x, y)
        except nf.Impossible:
            r = True
    _decided[k] = r
    return r


def eqv(a, b, base, w=None, norm=None):
    """are two lists of terms equal in every case: (True|False|None, text)"""
    if len(a) != len(b):
        return False, 'different shapes'
    if all(same(x, y) for x, y in zip(a, b)):
        return True, ''
    k = len(a)
    res, txt = True, ''
    for table, ts, ass in cases(list(a) + list(b), base):
        for x, y in zip(ts[:k], ts[k:]):
            if norm:
                x, y = norm(x), norm(y)
            if same(x, y):
                continue
            t = '%s instead of %s' % (show(x), show(y))
            if ass:
                t += ' when ' + ' and '.join(('' if v else 'not ') + show(q) for q, v in ass)
            r = decide(x, y, ass)
            if r is True:
                continue
            if r is False:
                return False, t
            res, txt = None, t
    return res, txt


def open_flags(heap):
    """the booleans of the generic object become variables with known value:
    other objects of the instance may be in any state"""
    base = {}
    h = Heap()
    h.attrs = heap.attrs
    h.bufs = []
    n = 0
    for sshape, sp, cells, dt in heap.bufs:
        if dt == 'b':
            new = {}
            for k, v in cells.items():
                if isinstance(v, bool):
                    f = mk('var', 'flag%d' % n, 'finite', 'flag')
                    n += 1
                    base[f.id] = v
                    new[k] = f
                else:
                    new[k] = v
            cells = new
        h.bufs.append((sshape, sp, cells, dt))
    return h, base


def rows(r):
    """terms of a value, None if it is not numeric"""
    if isinstance(r, Arr):
        return [r.get(k) for k in C.static_indices(r.sshape)]
    if isinstance(r, (Node, int, float)):
        return [r]
    return None


ELEMENT_READS = CART + KEP + ('cartesian', 'kepler', 'r', 'v', 'true_anomaly', 'eccentric_anomaly', 'mean_anomaly')
CONFIG = ('type', 'degrees', 'auto_update', 'direct_update', 'kepler_read_only', 'cartesian_read_only', 'G', 'M0',
          'epoch', 'dtype', 'solver_options')
MODES = ((True, True), (True, False), (False, True), (False, False))


def mode_name(auto, direct):
    return {(True, True): 'auto+direct', (True, False): 'auto', (False, True): 'direct',
            (False, False): 'manual'}[(auto, direct)]


class Lab(World):
    """start states for the checks of the orbit class"""

    def state(self, typ='true', deg=False, auto=True, direct=True, hist='k', **kw):
        """hist: sequence of what was set: 'k' all Kepler, 'c' all Cartesian
        elements, 'x' one Cartesian row, 'a' one Kepler row, '0' nothing"""
        it = self.it

        def go():
            first, rest = hist[0], hist[1:]
            args = dict(auto_update=auto, direct_update=direct, degrees=deg, type=typ)
            if first in 'kc':
                names = KEP if first == 'k' else CART
                args.update({nm: vec('%s%d' % (first, i)) for i, nm in enumerate(names)})
            post = {k: v for k, v in kw.items() if k.endswith('_read_only')}
            args.update({k: v for k, v in kw.items() if k not in post})
            o = self.new(**args)
            for j, ch in enumerate(rest):
                if ch == 'x':
                    it.setattr(o, 'x', vec('x%d' % j))
                elif ch == 'a':
                    it.setattr(o, 'a', vec('a%d' % j))
                elif ch == 'k':
                    it.setattr(o, 'kepler', mat(6, 'K'))
                elif ch == 'c':
                    it.setattr(o, 'cartesian', mat(6, 'C'))
            for k, v in post.items():
                it.setattr(o, k, v)
            return snap(o)
        return self.do(go)

    def run(self, heap, f):
        """f(obj) on a restored object: ('ok', value, obj) or ('raise', exc, obj)"""
        def go():
            o = restore(heap, self.Orbit)
            try:
                return ('ok', f(o), o)
            except PyRaise as e:
                return ('raise', e.exc, o)
        return go

    def observe(self, o, names=ELEMENT_READS):
        out = {}
        for nm in names:
            try:
                r = self.it.getattr(o, nm)
            except PyRaise as e:
                out[nm] = ('raises', repr(e.exc))
                continue
            rr = rows(r)
            out[nm] = rr if rr is not None else ('value', keyof(r) if not isinstance(r, dict) else keyof(dict(r)))
        return out

    def config(self, o):
        return self.observe(o, CONFIG)


def compare_obs(before, after, base):
    """(True|False|None, text)"""
    res, txt = True, ''
    for nm in before:
        a, b = before[nm], after.get(nm)
        if isinstance(a, list) and isinstance(b, list):
            v, t = eqv(b, a, base)
        else:
            v, t = (a == b), '%s instead of %s' % (b, a)
        if v is False:
            return False, '%s: %s' % (nm, t)
        if v is None:
            res, txt = None, '%s: %s' % (nm, t)
    return res, txt

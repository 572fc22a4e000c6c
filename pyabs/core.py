"""Abstract values.

A *node* is a hash-consed value number (the abstract value of one scalar, or of
the generic element of an array).  Arrays are modelled by `Arr`/`Buf`: leading
dimensions of statically known extent (6 rows, 3 components, 3x3 matrices) and
one trailing *space* (the per-object axis), of which only the generic element is
represented.  Spaces are symbolic: a masked selection of a space is a different
space, so mixing values that belong to different selections is visible.
"""


class Node:
    __slots__ = ('op', 'args', 'id')

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (rebuild, (self.op,) + self.args)


def rebuild(op, *args):
    '''a term received from another process: operand order is per process'''
    if op == 'fn':
        return fn(*args)
    if op in REBUILD:
        return REBUILD[op](*args)
    return mk(op, *args)


_table = {}
_byid = {}
_seq = [0]


def _key(a):
    if isinstance(a, Node):
        return ('N', a.id)
    if isinstance(a, tuple):
        return ('T',) + tuple(_key(x) for x in a)
    if isinstance(a, float) and a != a:
        return ('nan',)
    return (type(a).__name__, a)


def mk(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    n = _table.get(k)
    if n is None:
        n = Node()
        n.op, n.args = op, args
        _seq[0] += 1
        n.id = _seq[0]
        _table[k] = n
        _byid[n.id] = n
    return n


NAN = mk('nan')
PI = mk('pi')


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def isconst(x):
    return isinstance(x, (int, float, bool, str)) or x is None


def show(n, depth=6):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return '(' + ', '.join(show(x, depth) for x in n) + ')'
        return repr(n)
    if depth == 0:
        return '…'
    if n.op in ('var', 'ext', 'cst'):
        return str(n.args[0])
    if n.op == 'pi':
        return 'pi'
    if n.op == 'nan':
        return 'nan'
    inf = {'add': '+', 'mul': '*', 'div': '/', 'pow': '**', 'mod': '%', 'lt': '<', 'le': '<=',
           'eq': '==', 'ne': '!=', 'and': '&', 'or': '|'}
    if n.op in inf and len(n.args) == 2:
        return '(%s %s %s)' % (show(n.args[0], depth - 1), inf[n.op], show(n.args[1], depth - 1))
    return n.op + '(' + ', '.join(show(a, depth - 1) for a in n.args) + ')'


def unk(reason):
    return mk('unk', reason)


def has_op(n, ops, _memo=None):
    """does the term contain an operation out of `ops`"""
    memo = {} if _memo is None else _memo

    def go(x):
        if isinstance(x, tuple):
            return any(go(y) for y in x)
        if not isinstance(x, Node):
            return False
        r = memo.get(x.id)
        if r is None:
            memo[x.id] = False
            r = x.op in ops or any(go(y) for y in x.args)
            memo[x.id] = r
        return r
    return go(n)


def subterms(n, seen=None):
    seen = {} if seen is None else seen
    if isinstance(n, tuple):
        for x in n:
            subterms(x, seen)
    elif isinstance(n, Node) and n.id not in seen:
        seen[n.id] = n
        for a in n.args:
            subterms(a, seen)
    return seen


def leaves(n):
    return [x for x in subterms(n).values() if x.op in ('var', 'ext', 'cst')]


# ---------------------------------------------------------------- constructors

def nrm(x):
    if isinstance(x, float) and x == x and abs(x) < 1e15 and x == int(x):
        return int(x)
    return x


def order2(a, b):
    """commutative operands in a fixed order: constants first, then by number"""
    ka = (0, repr(a)) if not isinstance(a, Node) else (1, a.id)
    kb = (0, repr(b)) if not isinstance(b, Node) else (1, b.id)
    return (a, b) if ka <= kb else (b, a)


def add(a, b):
    a, b = nrm(a), nrm(b)
    if isnum(a) and isnum(b):
        return a + b
    if isnum(a) and a == 0:
        return b
    if isnum(b) and b == 0:
        return a
    return mk('add', *order2(a, b))


def neg(a):
    a = nrm(a)
    if isnum(a):
        return -a
    if isinstance(a, Node) and a.op == 'neg':
        return a.args[0]
    return mk('neg', a)


def sub(a, b):
    if isnum(a) and isnum(b):
        return a - b
    return add(a, neg(b))


def mul(a, b):
    a, b = nrm(a), nrm(b)
    if isnum(a) and isnum(b):
        return a * b
    if isnum(a) and a == 1:
        return b
    if isnum(b) and b == 1:
        return a
    return mk('mul', *order2(a, b))


def div(a, b):
    a, b = nrm(a), nrm(b)
    if isnum(a) and isnum(b) and b != 0:
        return a / b
    if isnum(b) and b == 1:
        return a
    return mk('div', a, b)


def power(a, b):
    a, b = nrm(a), nrm(b)
    if isnum(a) and isnum(b):
        try:
            r = a ** b
            if isnum(r):
                return r
        except Exception:
            pass
    if isnum(b) and b == 1:
        return a
    return mk('pow', a, b)


def mod(a, b):
    a, b = nrm(a), nrm(b)
    if isnum(a) and isnum(b) and b != 0:
        return a % b
    return mk('mod', a, b)


def cmp(op, a, b):
    """op in lt le gt ge eq ne"""
    a, b = nrm(a), nrm(b)
    if op in ('eq', 'ne'):
        a, b = order2(a, b)
    if op == 'gt':
        return cmp('lt', b, a)
    if op == 'ge':
        return cmp('le', b, a)
    if isconst(a) and isconst(b):
        try:
            return {'lt': lambda: a < b, 'le': lambda: a <= b, 'eq': lambda: a == b,
                    'ne': lambda: a != b}[op]()
        except TypeError:
            return unk('comparison of constants')
    if isinstance(a, Node) and a is b and a.op in ('var', 'size') and op in ('eq', 'le') and \
            not (a.op == 'var'):
        return True
    if isinstance(a, Node) and a is b and a.op == 'size' and op in ('ne', 'lt'):
        return False
    if op == 'ne':
        return not_(cmp('eq', a, b))
    # constants built from pi and the like
    if isinstance(a, Node) and not isinstance(b, (bool, str)) or isinstance(b, Node) and not isinstance(a, (bool, str)):
        x, y = constval(a), constval(b)
        if x is not None and y is not None and abs(x - y) > 1e-9 * (abs(x) + abs(y)):
            return {'lt': x < y, 'le': x <= y, 'eq': False}[op]
    return mk(op, a, b)


_const = {}


def constval(x):
    """number of a term without variables, else None"""
    if isinstance(x, bool):
        return None
    if isnum(x):
        return x
    if not isinstance(x, Node):
        return None
    if x.id not in _const:
        r = None
        if x.op == 'pi':
            r = 3.141592653589793
        elif x.op == 'cst' and x.args[0] == 'euler':
            r = 2.718281828459045
        elif x.op in ('add', 'mul', 'div', 'neg'):
            a = [constval(y) for y in x.args]
            if None not in a and not (x.op == 'div' and a[1] == 0):
                r = {'add': lambda: a[0] + a[1], 'mul': lambda: a[0] * a[1], 'div': lambda: a[0] / a[1],
                     'neg': lambda: -a[0]}[x.op]()
        _const[x.id] = r
    return _const[x.id]


def not_(a):
    if isinstance(a, bool):
        return not a
    if isnum(a):
        return not a
    if isinstance(a, Node) and a.op == 'not':
        return a.args[0]
    if isinstance(a, Node) and a.op in ('and', 'or'):
        return taut(mk('not', a))
    return mk('not', a)


def and_(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, bool):
            return y if x else False
    if a is b:
        return a
    if isinstance(a, Node) and isinstance(b, Node) and a.id > b.id:
        a, b = b, a
    return taut(mk('and', a, b))


def or_(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, bool):
            return True if x else y
    if a is b:
        return a
    if isinstance(a, Node) and isinstance(b, Node) and a.id > b.id:
        a, b = b, a
    return taut(mk('or', a, b))


# boolean terms are kept canonical: every function of the boolean atoms is
# represented by the first term that was built for it (decision diagrams)
_bd = {}            # (atom id, lo, hi) -> diagram
_bdn = [None, None]  # diagram -> (atom id, lo, hi)
_ite = {}
_bdof = {0: 0}      # node id -> diagram
_canon = {}         # diagram -> node
_support = {0: frozenset(), 1: frozenset()}


def _bdmk(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    r = _bd.get(k)
    if r is None:
        r = len(_bdn)
        _bdn.append(k)
        _bd[k] = r
        _support[r] = _support[lo] | _support[hi] | {v}
    return r


def _bdite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _ite.get(k)
    if r is None:
        v = min(_bdn[x][0] for x in (f, g, h) if x > 1)

        def br(x, i):
            return _bdn[x][i] if x > 1 and _bdn[x][0] == v else x
        r = _bdmk(v, _bdite(br(f, 1), br(g, 1), br(h, 1)), _bdite(br(f, 2), br(g, 2), br(h, 2)))
        _ite[k] = r
    return r


def diagram(x):
    """decision diagram of a boolean term, None if it is not boolean"""
    if isinstance(x, bool):
        return int(x)
    if not isinstance(x, Node):
        return None
    r = _bdof.get(x.id, -1)
    if r != -1:
        return r
    if x.op == 'not':
        y = diagram(x.args[0])
        r = None if y is None else _bdite(y, 0, 1)
    elif x.op in ('and', 'or'):
        y, z = diagram(x.args[0]), diagram(x.args[1])
        if y is None or z is None:
            r = None
        else:
            r = _bdite(y, z, 0) if x.op == 'and' else _bdite(y, 1, z)
    else:
        r = _bdmk(x.id, 0, 1)
    _bdof[x.id] = r
    return r


_care = {}


def _care_of(support):
    """an empty mask is False for this object as well"""
    if support in _care:
        return _care[support]
    _care[support] = 1
    care = 1
    todo, done = list(support), set()
    while todo:
        i = todo.pop()
        if i in done:
            continue
        done.add(i)
        em = empty_mask(_byid[i])
        if em is None or not isinstance(em[0], Node):
            continue
        mt, et = diagram(em[0]), diagram(_byid[i])
        if mt is None or et is None:
            continue
        todo += list(_support[mt])
        e = et if em[1] else _bdite(et, 0, 1)
        care = _bdite(care, _bdite(_bdite(mt, e, 0), 0, 1), 0)
    _care[support] = care
    return care


def taut(n):
    """canonical representative of a boolean term"""
    t = diagram(n)
    if t is None:
        return n
    r = _canon.get(t)
    if r is not None:
        return r
    care = _care_of(_support[t])
    r = n
    if care != 1:
        on, off = _bdite(t, care, 0), _bdite(_bdite(t, 0, 1), care, 0)
        if off == 0:
            r = True
        elif on == 0:
            r = False
        else:
            for x in (on, _bdite(care, t, 1)):
                c = _canon.get(x)
                if c is not None:
                    r = c
                    break
            else:
                for i in _support[t]:
                    a = _bdmk(i, 0, 1)
                    for x in (a, _bdite(a, 0, 1)):
                        if _bdite(x, care, 0) == on:
                            r = _byid[i] if x == a else mk('not', _byid[i])
                _canon.setdefault(on, r)
    if t == 1:
        r = True
    elif t == 0:
        r = False
    elif r is n and _bdn[t][1] == 0 and _bdn[t][2] == 1:
        r = _byid[_bdn[t][0]]
    elif r is n and _bdn[t][1] == 1 and _bdn[t][2] == 0:
        r = mk('not', _byid[_bdn[t][0]])
    _canon[t] = r
    return r


def same(a, b):
    if isinstance(a, Node) or isinstance(b, Node):
        return a is b
    return type(a) is type(b) and (a == b or (a != a and b != b))


def where(m, a, b):
    if isinstance(m, bool):
        return a if m else b
    if isinstance(m, (int, float)):
        return a if m else b
    if isinstance(a, bool) and isinstance(b, bool):
        return a if a == b else (m if a else not_(m))
    em = empty_mask(m)
    if em is not None:
        # no object is selected by the mask in this arm
        mask, pol = em
        if mask is True:
            # this very object is selected
            return b if pol else a
        x, y = (a, b) if pol else (b, a)
        x0, y0 = assume_empty(x, mask), assume_empty(y, mask)
        if same(x0, y0):
            return y
        a, b = (x0, b) if pol else (a, x0)
    if isinstance(a, bool) and num_dtype(b) == 'b':
        return or_(m, b) if a else and_(not_(m), b)
    if isinstance(b, bool) and num_dtype(a) == 'b':
        return or_(not_(m), a) if b else and_(m, a)
    if same(a, b):
        return a
    if isinstance(m, Node) and m.op == 'not':
        return where(m.args[0], b, a)
    if num_dtype(a) == 'b' and num_dtype(b) == 'b' and num_dtype(m) == 'b':
        return or_(and_(m, a), and_(not_(m), b))
    return mk('where', m, a, b)


_amemo = {}


def assume_empty(x, mask):
    k = mask.id if isinstance(mask, Node) else None
    m = _amemo.get(k)
    if m is None:
        m = _amemo[k] = ({n.id: v for n, v in mask_false(mask).items()}, {})
    ids, memo = m
    return rewrite(x, lambda n: ids.get(n.id), memo)


def mask_false(mask):
    """facts that follow from the mask being False for every object"""
    out = {mask: False} if isinstance(mask, Node) else {}
    todo = [(mask, False)]
    while todo:
        x, v = todo.pop()
        if not isinstance(x, Node):
            continue
        out[x] = v
        if x.op == 'not':
            todo.append((x.args[0], not v))
        elif x.op == 'or' and not v or x.op == 'and' and v:
            todo += [(y, v) for y in x.args]
    return out


def empty_mask(c):
    """(mask, True) if the condition says that no object is in the mask,
    (mask, False) if it says that some object is"""
    pol = True
    while isinstance(c, Node) and c.op == 'not':
        c, pol = c.args[0], not pol
    if not isinstance(c, Node):
        return None
    r = None
    if c.op == 'reduce' and c.args[0] == 'any':
        r, pol = c, not pol
    elif c.op == 'reduce' and c.args[0] == 'all':
        sp, v = c.args[1], c.args[2]
        if isinstance(v, Node) and num_dtype(v) == 'b':
            return mask_in(sp, not_(v)), pol
        return None
    elif c.op in ('eq', 'lt', 'le'):
        a, b = c.args
        if c.op == 'eq' and isnum(a) and a == 0 and isinstance(b, Node) and b.op == 'reduce':
            r = b
        elif c.op == 'lt' and isnum(a) and a == 0 and isinstance(b, Node) and b.op == 'reduce':
            r, pol = b, not pol
        elif c.op == 'le' and isnum(b) and b == 0 and isinstance(a, Node) and a.op == 'reduce':
            r = a
        elif c.op == 'lt' and isnum(b) and b == 1 and isinstance(a, Node) and a.op == 'reduce':
            r = a
        elif c.op == 'le' and isnum(a) and a == 1 and isinstance(b, Node) and b.op == 'reduce':
            r, pol = b, not pol
        if r is not None and r.args[0] not in ('sum', 'count_nonzero', 'any'):
            return None
    if r is None or len(r.args) < 3:
        return None
    v = r.args[2]
    if not isinstance(v, Node) or num_dtype(v) != 'b':
        return None
    return mask_in(r.args[1], v), pol


def mask_in(space, v):
    while isinstance(space, tuple) and space and space[0] == 'sub':
        v = and_(space[2], v)
        space = space[1]
    return v


def fn(name, *args):
    if name == 'isnan':
        x = args[0]
        if isnum(x):
            return x != x
        if isinstance(x, Node):
            if x.op == 'nan':
                return True
            if x.op == 'where':
                r = _isnan.get(x.id)
                if r is None:
                    r = where(x.args[0], fn('isnan', x.args[1]), fn('isnan', x.args[2]))
                    _isnan[x.id] = r
                return r
            if finite(x):
                return False
    if name == 'abs' and isnum(args[0]):
        return abs(args[0])
    if name == 'sqrt' and isnum(args[0]) and args[0] >= 0 and args[0] ** .5 == int(args[0] ** .5):
        return args[0] ** .5
    return mk('fn', name, *args)


_isnan = {}
FINITE_OPS = ('where', 'at', 'lt', 'le', 'eq', 'not', 'and', 'or', 'add', 'mul', 'div', 'neg', 'pow', 'mod', 'pi', 'cst', 'size', 'k2c', 'c2k', 'anom', 'call',
              'e2k', 'k2e', 'fn')


def finite(x, memo={}):
    """declared finite by the analysis: variables created with a 'finite' tag
    and everything computed from them"""
    if isnum(x) or isinstance(x, bool):
        return x == x
    if isinstance(x, str) or x is None:
        return True
    if isinstance(x, tuple):
        return all(finite(y) for y in x)
    if not isinstance(x, Node):
        return False
    if x.id not in memo:
        if x.op == 'var':
            memo[x.id] = len(x.args) > 1 and 'finite' in x.args[1:]
        elif x.op in FINITE_OPS:
            memo[x.id] = all(finite(y) for y in x.args)
        else:
            memo[x.id] = False
    return memo[x.id]


def at(v, sel):
    '''the value of one particular object'''
    if not isinstance(v, Node) or v.op in ('nan', 'pi', 'size', 'cst', 'unk', 'at'):
        return v
    return mk('at', v, sel)


REBUILD = {
    'at': at,
    'add': add, 'mul': mul, 'div': div, 'pow': power, 'mod': mod, 'neg': neg,
    'not': not_, 'and': and_, 'or': or_, 'where': where,
    'lt': lambda a, b: cmp('lt', a, b), 'le': lambda a, b: cmp('le', a, b),
    'eq': lambda a, b: cmp('eq', a, b),
}


def rewrite(n, leaf, memo=None):
    """bottom-up rewriting: leaf(node) returns a replacement or None"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Node):
            return x
        if x.id in memo:
            return memo[x.id]
        r = leaf(x)
        if r is None:
            if not x.args:
                r = x
            elif x.op == 'where':
                m = go(x.args[0])
                if isinstance(m, bool):
                    r = go(x.args[1] if m else x.args[2])
                else:
                    r = where(m, go(x.args[1]), go(x.args[2]))
            else:
                a = tuple(go(y) for y in x.args)
                if x.op == 'fn':
                    r = fn(*a)
                elif x.op in REBUILD:
                    r = REBUILD[x.op](*a)
                else:
                    r = mk(x.op, *a)
        memo[x.id] = r
        return r
    return go(n)


def assume(n, facts):
    """fold a term under {boolean node: truth value}"""
    ids = {k.id: v for k, v in facts.items()}
    return rewrite(n, lambda x: ids.get(x.id))


# ---------------------------------------------------------------- arrays

UNIT = ('unit',)


def size_of(space):
    if space == UNIT:
        return 1
    if space is None:
        return 1
    if space[0] == 'alloc':
        return space[1]
    return mk('size', space)


def space_of_size(n):
    """space of an axis whose extent is the abstract integer n"""
    if isinstance(n, Node) and n.op == 'size':
        return n.args[0]
    if isinstance(n, int) and n == 1:
        return UNIT
    return ('alloc', n)


def sub_space(space, mask):
    return ('sub', space, mask)


class Buf:
    """storage of one array object"""
    n = 0

    def __init__(self, sshape, space, cells, dtype, origin, loc=None):
        Buf.n += 1
        self.id = Buf.n
        self.sshape = sshape
        self.space = space
        self.cells = cells          # static index tuple -> value
        self.dtype = dtype
        self.origin = origin        # 'fresh' | 'param:<name>' | 'field:<name>'
        self.loc = loc
        self.maybe = None           # Buf this one may share storage with
        self.memo = None            # function that keeps this storage for later calls
        self.elems = {}

    def __repr__(self):
        return 'Buf%d<%s %s %s>' % (self.id, self.origin, self.sshape, self.space)


class Arr:
    """an array object or a view: static index tuple of the view -> of the storage"""

    def __init__(self, buf, sshape=None, imap=None, space='same', zerod=False, elem=None):
        self.buf = buf
        self.sshape = buf.sshape if sshape is None else sshape
        self.imap = {k: k for k in buf.cells} if imap is None else imap
        self.space = buf.space if space == 'same' else space
        self.zerod = zerod
        self.elem = elem            # set for the generic element reached by an iterator

    def get(self, k=()):
        return self.buf.cells[self.imap[k]]

    def items(self):
        return [(k, self.buf.cells[v]) for k, v in self.imap.items()]

    def __repr__(self):
        if self.sshape == ():
            return 'Arr[%s]{%r}' % (self.space, self.get())
        return 'Arr%s[%s]' % (self.sshape, self.space)


def static_indices(sshape):
    out = [()]
    for d in sshape:
        out = [o + (i,) for o in out for i in range(d)]
    return out


def fresh(sshape, space, cells, dtype='f', loc=None, origin='fresh', zerod=False):
    return Arr(Buf(tuple(sshape), space, dict(cells), dtype, origin, loc), zerod=zerod)


RANK = {'b': 0, 'pyi': 1, 'i': 2, 'pyf': 3, 'f4': 4, 'f': 5}


def join_dtype(*ds):
    """result dtype of arithmetic; 'pyi'/'pyf' are weak python scalars"""
    ds = [d for d in ds if d is not None]
    if not ds:
        return 'f'
    strong = [d for d in ds if d in ('b', 'i', 'f4', 'f')]
    weakf = 'pyf' in ds
    if not strong:
        return max(ds, key=lambda d: RANK.get(d, 5))
    if 'f4' in strong and 'i' in strong:
        return 'f'
    r = max(strong, key=lambda d: RANK.get(d, 5))
    if weakf and r in ('b', 'i'):
        return 'f'
    if r == 'b' and 'pyi' in ds:
        return 'i'
    return r


def float_of(d):
    return {'b': 'f', 'i': 'f', 'pyi': 'pyf'}.get(d, d)


_ndt = {}


def num_dtype(x):
    if isinstance(x, bool):
        return 'b'
    if isinstance(x, int):
        return 'pyi'
    if isinstance(x, float):
        return 'pyf'
    if isinstance(x, Node):
        if x.op in ('lt', 'le', 'eq', 'not', 'and', 'or', 'isnew', 'sel'):
            return 'b'
        if x.op == 'var' and 'flag' in x.args[1:]:
            return 'b'
        if x.op == 'fn' and x.args[0] in ('isnan', 'isinf', 'isfinite'):
            return 'b'
        if x.op == 'where':
            r = _ndt.get(x.id)
            if r is None:
                r = _ndt[x.id] = join_dtype(num_dtype(x.args[1]), num_dtype(x.args[2]))
            return r
        if x.op in ('size', 'idx'):
            return 'pyi'
        if x.op == 'reduce' and x.args[0] in ('any', 'all'):
            return 'b'
        if x.op == 'at':
            return num_dtype(x.args[0])
        return 'pyf'
    return None


def is_float_dtype(d):
    return d in ('f', 'f4', 'pyf')

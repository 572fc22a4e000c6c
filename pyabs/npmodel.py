"""Model of the numpy (and builtin) operations on abstract values."""
import ast
import builtins as _bi
from .core import *          # noqa
from . import core as C


_engine = None


def _eng():
    global _engine
    if _engine is None:
        from . import engine
        _engine = engine
    return _engine


ELEMENTWISE = {
    'sqrt', 'cbrt', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh',
    'arccosh', 'arctanh', 'log', 'log10', 'log2', 'log1p', 'exp', 'expm1', 'floor', 'ceil', 'isnan', 'isfinite',
    'isinf', 'sign', 'rint', 'trunc', 'radians', 'degrees', 'deg2rad', 'rad2deg', 'abs', 'absolute', 'fabs',
    'square', 'negative', 'reciprocal', 'logical_not', 'invert', 'nan_to_num', 'signbit', 'spacing', 'positive',
    'conj', 'real', 'round', 'around', 'asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh', 'unwrap', 'sinc',
}
ALIAS = {'deg2rad': 'radians', 'rad2deg': 'degrees', 'absolute': 'abs', 'fabs': 'abs', 'invert': 'logical_not',
         'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'asinh': 'arcsinh', 'acosh': 'arccosh',
         'atanh': 'arctanh', 'atan2': 'arctan2', 'around': 'round'}
BINARY = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div',
          'mod': 'Mod', 'remainder': 'Mod', 'power': 'Pow', 'float_power': 'Pow', 'floor_divide': 'FloorDiv'}
BINFN = {'arctan2', 'hypot', 'maximum', 'minimum', 'fmod', 'copysign', 'fmax', 'fmin', 'atan2', 'nextafter',
         'heaviside', 'pow'}
LOGIC = {'logical_and', 'logical_or', 'logical_xor', 'bitwise_and', 'bitwise_or', 'bitwise_xor'}
COMPARE = {'equal': 'Eq', 'not_equal': 'NotEq', 'less': 'Lt', 'less_equal': 'LtE', 'greater': 'Gt',
           'greater_equal': 'GtE'}
REDUCE = {'sum', 'any', 'all', 'prod', 'mean', 'max', 'min', 'amax', 'amin', 'nansum', 'nanmax', 'nanmin',
          'count_nonzero', 'median', 'std', 'var', 'nanmean', 'ptp', 'cumsum', 'cumprod', 'argmax', 'argmin',
          'sort', 'argsort', 'diff', 'unique', 'flip', 'roll', 'isin', 'searchsorted'}
DTYPES = {'float64': 'f', 'float32': 'f4', 'double': 'f', 'single': 'f4', 'int64': 'i', 'int32': 'i', 'int_': 'i',
          'bool_': 'b', 'bool': 'b', 'float16': 'f4', 'longdouble': 'f', 'float_': 'f', 'intp': 'i', 'uint8': 'i',
          'int8': 'i', 'int16': 'i'}
ABSTRACT_TYPES = {'floating', 'integer', 'number', 'inexact', 'generic', 'ndarray', 'complexfloating',
                  'signedinteger'}


class NdIter:
    """numpy.nditer over one array"""

    def __init__(self, arr):
        self.arr = arr


class NumPy:
    def __init__(self, it):
        self.it = it
        self.genloop = []
        self._bi = None

    # ------------------------------------------------------------ helpers
    def raise_(self, name, *args):
        E = _eng()
        raise E.PyRaise(E.ExcVal(E.ExcType(name), args))

    def unsupported(self, what):
        raise _eng().Unsupported(what)

    def isscalar(self, x):
        return isinstance(x, (Node, int, float, bool))

    def asarr(self, x):
        """Arr for array-likes, scalars untouched"""
        E = _eng()
        if isinstance(x, (Arr, Node, int, float, bool)):
            return x
        if isinstance(x, (list, tuple)):
            return self.array(x)
        if isinstance(x, E.GenList):
            return self.array(x)
        if isinstance(x, E.Opq):
            return mk('var', x.name)
        if isinstance(x, NdIter):
            return x.arr
        if isinstance(x, E.DT):
            self.unsupported('dtype as array')
        if x is None:
            self.raise_('TypeError', 'None in arithmetic')
        if isinstance(x, str):
            self.raise_('TypeError', 'string in arithmetic')
        if isinstance(x, E.Alt):
            self.unsupported('alternative in arithmetic')
        if isinstance(x, E.Sel):
            self.unsupported('selector in arithmetic')
        self.unsupported('array from %r' % (x,))

    def dtype_of(self, x):
        return x.buf.dtype if isinstance(x, Arr) else num_dtype(x)

    def join_space(self, spaces):
        out = None
        for s in spaces:
            if s is None:
                continue
            if out is None or out == UNIT:
                out = s
            elif s == UNIT or s == out:
                pass
            else:
                eq = self.space_equal(out, s)
                if eq is True:
                    continue
                self.it.event('space_mismatch', a=out, b=s, definite=eq is False)
                out = ('mixed', out, s)
        return out

    def space_equal(self, a, b):
        if a == b:
            return True
        from . import logic
        for x, y in ((a, b), (b, a)):
            # the part of an extended axis that was added
            if x[0] == 'sub' and isinstance(x[2], Node) and x[2].op == 'isnew' and x[1][0] == 'cat' and \
                    len(x[1]) == 3 and x[2].args[0] == x[1]:
                n = x[1][2]
                n = size_of(n) if isinstance(n, tuple) else n
                m = size_of(y)
                if same(n, m) or isnum(n) and isnum(m) and n == m:
                    return True
        if a[0] == 'sub' and b[0] == 'sub' and a[1] == b[1]:
            return logic.equivalent(a[2], b[2])
        for x, y in ((a, b), (b, a)):
            if x[0] == 'sub' and x[1] == y:
                r = logic.equivalent(x[2], True)
                return r
        if 'mixed' in (a[0], b[0]):
            return None
        if a[0] == 'alloc' or b[0] == 'alloc':
            return None
        return False

    def other_object(self, v, space, eq):
        '''the value of another object than the one at this position'''
        if not isinstance(v, Node) or v.op in ('nan', 'pi', 'size', 'cst', 'unk'):
            return v
        return mk('pick' if eq is False else 'maybe', v, space)

    def broadcast(self, args):
        """-> sshape, space, list of getters"""
        arrs = [a for a in args if isinstance(a, Arr)]
        space = self.join_space([a.space for a in arrs])
        ref = space
        while isinstance(ref, tuple) and ref and ref[0] == 'mixed':
            ref = ref[1]
        foreign = {}
        if ref is not space:
            for a in arrs:
                if a.space not in (None, UNIT, ref) and a.space[0] != 'mixed':
                    eq = self.space_equal(ref, a.space)
                    if eq is not True:
                        foreign[id(a)] = (a.space, eq)
        shapes = []
        for a in arrs:
            if a.space is None and space is not None and a.sshape and space != UNIT:
                # trailing static axis would align with the object axis
                if a.sshape[-1] == 1:
                    shapes.append(a.sshape[:-1])
                    continue
                self.it.event('axis_mismatch', shape=a.sshape, space=space)
                self.unsupported('static axis against the object axis')
            shapes.append(a.sshape)
        n = max([len(s) for s in shapes] or [0])
        out = []
        for i in range(n):
            d = 1
            for s in shapes:
                j = i - (n - len(s))
                if j >= 0 and s[j] != 1:
                    if d != 1 and s[j] != d:
                        self.it.event('axis_mismatch', shape=s, space=space)
                        self.raise_('ValueError', 'broadcast')
                    d = s[j]
            out.append(d)
        out = tuple(out)

        def getter(a):
            if not isinstance(a, Arr):
                return lambda k: a
            sh = a.sshape
            if a.space is None and space is not None and a.sshape and space != UNIT:
                return lambda k: a.get(tuple(0 if d == 1 else x for x, d in
                                             zip(k[len(k) - len(sh) + 1:], sh[:-1])) + (0,))

            def g(k):
                kk = k[len(k) - len(sh):] if sh else ()
                v = a.get(tuple(0 if d == 1 else x for x, d in zip(kk, sh)))
                if id(a) in foreign:
                    return self.other_object(v, *foreign[id(a)])
                return v
            return g
        return out, space, [getter(a) for a in args]

    def elementwise(self, f, args, dtype):
        args = [self.asarr(a) for a in args]
        if not any(isinstance(a, Arr) for a in args):
            return f(*args)
        sshape, space, gs = self.broadcast(args)
        cells = {k: f(*[g(k) for g in gs]) for k in static_indices(sshape)}
        if sshape == () and space is None:
            return cells[()]
        return fresh(sshape, space, cells, dtype)

    # ------------------------------------------------------------ arithmetic
    def un(self, name, x):
        """one scalar value"""
        name = ALIAS.get(name, name)
        if name in ('logical_not',):
            t = self.boolish(x)
            return not_(t)
        if name in ('neg', 'negative'):
            return neg(x)
        if name == 'positive':
            return x
        if name == 'square':
            return power(x, 2)
        if name == 'reciprocal':
            return div(1, x)
        if name in ('conj', 'real'):
            return x
        return fn(name, x)

    def boolish(self, x):
        if isinstance(x, bool):
            return x
        if isinstance(x, (int, float)):
            return bool(x)
        if isinstance(x, Node) and num_dtype(x) != 'b' and x.op not in ('var', 'unk', 'phi', 'loopout', 'call'):
            return not_(cmp('eq', x, 0))
        return x

    def unary(self, name, x):
        x = self.asarr(x)
        d = self.dtype_of(x)
        if name == 'invert':
            if d != 'b' and not (isinstance(x, Node) and x.op in ('var', 'unk')):
                if isinstance(x, int):
                    return ~x
                self.raise_('TypeError', 'invert of float')
            name = 'logical_not'
        nm = ALIAS.get(name, name)
        if nm in ('isnan', 'isinf', 'isfinite', 'logical_not', 'signbit'):
            dt = 'b'
        elif nm in ('neg', 'negative', 'abs', 'square', 'sign', 'positive', 'conj', 'real'):
            dt = d
        else:
            dt = float_of(d)
        return self.elementwise(lambda v: self.un(nm, v), [x], dt)

    def bin(self, op, a, b):
        if op == 'Add':
            return add(a, b)
        if op == 'Sub':
            return sub(a, b)
        if op == 'Mult':
            return mul(a, b)
        if op == 'Div':
            return div(a, b)
        if op == 'Pow':
            return power(a, b)
        if op == 'Mod':
            return mod(a, b)
        if op == 'FloorDiv':
            return fn('floor', div(a, b))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            a, b = self.boolish(a), self.boolish(b)
            if op == 'BitAnd':
                return and_(a, b)
            if op == 'BitOr':
                return or_(a, b)
            return or_(and_(a, not_(b)), and_(not_(a), b))
        self.unsupported('operator ' + op)

    def binop(self, op, a, b):
        E = _eng()
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not (
                isinstance(a, float) or isinstance(b, float)) and op not in ('Div',):
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b,
                        'Pow': lambda: a ** b, 'Mod': lambda: a % b, 'FloorDiv': lambda: a // b,
                        'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b,
                        'LShift': lambda: a << b, 'RShift': lambda: a >> b}[op]()
            except (ZeroDivisionError, ValueError) as e:
                self.raise_(type(e).__name__)
        native = (str, list, tuple, dict, set)
        if isinstance(a, native) and isinstance(b, native + (int,)) or \
                isinstance(b, native) and isinstance(a, int) and not isinstance(a, bool):
            try:
                if op == 'Mod':
                    return a
                return {'Add': lambda: a + b, 'Mult': lambda: a * b, 'BitOr': lambda: a | b,
                        'Sub': lambda: a - b, 'BitAnd': lambda: a & b}[op]()
            except (TypeError, KeyError):
                self.raise_('TypeError', 'unsupported operand')
        if isinstance(a, str) and op == 'Mod':
            return a
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            self.it.event('type_error', what='arithmetic on %s and %s' % (type(a).__name__, type(b).__name__))
            self.raise_('TypeError', 'unsupported operand')
        if isinstance(a, E.Opq) or isinstance(b, E.Opq):
            a = mk('var', a.name) if isinstance(a, E.Opq) else a
            b = mk('var', b.name) if isinstance(b, E.Opq) else b
        if isinstance(a, E.Alt):
            return self.it.branch(a.cond, lambda: self.binop(op, a.a, b), lambda: self.binop(op, a.b, b))
        if isinstance(b, E.Alt):
            return self.it.branch(b.cond, lambda: self.binop(op, a, b.a), lambda: self.binop(op, a, b.b))
        if op == 'MatMult':
            return self.matmul(a, b)
        if isinstance(a, E.Sel) and isinstance(b, E.Sel) or isinstance(a, E.Sel) or isinstance(b, E.Sel):
            return self.sel_op(op, a, b)
        a, b = self.asarr(a), self.asarr(b)
        da, db = self.dtype_of(a), self.dtype_of(b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            dt = 'b'
        elif op == 'Div':
            dt = float_of(join_dtype(da, db))
        else:
            dt = join_dtype(da, db)
        return self.elementwise(lambda x, y: self.bin(op, x, y), [a, b], dt)

    def sel_op(self, op, a, b):
        self.unsupported('arithmetic on a selector')

    def inplace(self, arr, op, v):
        """arr op= v : stores into the array's storage"""
        r = self.binop(op, arr, v)
        self.store(arr, Ellipsis, r, inplace=True)

    def compare(self, op, a, b):
        E = _eng()
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if op in ('Eq', 'NotEq'):
                if len(a) != len(b) or type(a) is not type(b):
                    r = False
                else:
                    r = True
                    for x, y in zip(a, b):
                        t = self.it.truth(self.compare('Eq', x, y))
                        r = and_(r, t)
                if op == 'Eq':
                    return r
                return (not r) if isinstance(r, bool) else not_(r)
            self.unsupported('sequence order')
        other = (str, tuple, list, dict, type(None), E.DT, E.NpVal, E.ClassVal, E.FuncVal, slice, E.Opq, E.Obj,
                 E.Builtin, E.ExcType, type(Ellipsis), E.Opaque, E.ModVal)
        if isinstance(a, E.Opq) and isinstance(b, (Node, Arr, int, float)) or \
                isinstance(b, E.Opq) and isinstance(a, (Node, Arr, int, float)):
            return mk('unk', 'comparison of a token')
        if isinstance(a, E.Alt):
            return self.it.phi(a.cond, self.compare(op, a.a, b), self.compare(op, a.b, b))
        if isinstance(b, E.Alt):
            return self.it.phi(b.cond, self.compare(op, a, b.a), self.compare(op, a, b.b))
        if isinstance(a, other) or isinstance(b, other):
            if isinstance(a, (E.Opq,)) and isinstance(b, str) or isinstance(b, E.Opq) and isinstance(a, str):
                return mk('var', '%s==%r' % (a, b))
            if op in ('Eq', 'NotEq'):
                if isinstance(a, E.Obj) and isinstance(a.cls, E.ClassVal):
                    m = a.cls.lookup('__eq__')
                    if m is not E.MISSING:
                        r = self.it.call(E.BoundM(m, a), [b], {})
                        return r if op == 'Eq' else not_(self.it.truth(r))
                a2 = self.to_dt(a) if isinstance(b, E.DT) else a
                b2 = self.to_dt(b) if isinstance(a, E.DT) else b
                try:
                    r = a2 is b2 or (type(a2) is type(b2) and bool(a2 == b2))
                except Exception:
                    r = False
                return r if op == 'Eq' else not r
            if isinstance(a, str) and isinstance(b, str):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
            self.it.event('type_error', what='ordering of %s' % type(a).__name__)
            self.raise_('TypeError', 'ordering')
        o = {'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge', 'Eq': 'eq', 'NotEq': 'ne'}[op]

        def f(x, y):
            if isinstance(x, bool) and isinstance(y, Node) and o in ('eq', 'ne'):
                x, y = y, x
            if isinstance(y, bool) and isinstance(x, Node) and num_dtype(x) == 'b' and o in ('eq', 'ne'):
                r = x if y else not_(x)
                return r if o == 'eq' else not_(r)
            return cmp(o, x, y)
        return self.elementwise(f, [a, b], 'b')

    # ------------------------------------------------------------ shapes
    def shape(self, a):
        if isinstance(a, Arr):
            return tuple(a.sshape) + ((size_of(a.space),) if a.space is not None else ())
        return ()

    def parse_shape(self, sh):
        E = _eng()
        if isinstance(sh, (int, Node)):
            sh = (sh,)
        if isinstance(sh, Arr):
            self.unsupported('shape from array')
        sh = [x.get() if isinstance(x, Arr) and x.sshape == () else x for x in sh]
        sst, space = [], None
        for i, d in enumerate(sh):
            last = i == len(sh) - 1
            if isinstance(d, Node):
                if not last:
                    self.unsupported('object axis is not the last axis')
                space = space_of_size(d)
            elif isinstance(d, int):
                if last and d == 1:
                    space = UNIT
                else:
                    sst.append(d)
            elif isinstance(d, float):
                self.raise_('TypeError', 'float in shape')
            else:
                self.unsupported('shape entry')
        return tuple(sst), space

    def new(self, sshape, space, val, dtype):
        return fresh(sshape, space, {k: val for k in static_indices(sshape)}, dtype)

    def uninit(self):
        fnv = self.it.callstack[-1] if self.it.callstack else None
        return mk('uninit', fnv.qualname if fnv is not None else '?', self.it.line)

    def set_shape(self, a, sh):
        if isinstance(a, Arr):
            imap, sst, space = self.reshaped(a, sh)
            self.it.event('shapeset', buf=a.buf, arr=a)
            self.it.setd(a.__dict__, 'imap', imap)
            self.it.setd(a.__dict__, 'sshape', sst)
            self.it.setd(a.__dict__, 'space', space)

    def reshaped(self, a, sh):
        if isinstance(sh, (int, Node)):
            sh = (sh,)
        sh = list(sh)
        S = list(a.sshape)
        n = size_of(a.space) if a.space is not None else None

        def eqn(x, y):
            return x is y or (isinstance(x, int) and isinstance(y, int) and x == y)
        full = S + ([n] if n is not None else [])
        # -1
        if sh.count(-1) == 1:
            i = sh.index(-1)
            rest = sh[:i] + sh[i + 1:]
            known = list(full)
            ok = True
            prod_rest = 1
            for x in rest:
                if isinstance(x, Node):
                    for j, y in enumerate(known):
                        if y is x:
                            del known[j]
                            break
                    else:
                        ok = False
                else:
                    prod_rest *= x
            if not ok:
                self.unsupported('reshape')
            kn = [y for y in known if isinstance(y, Node)]
            pk = 1
            for y in known:
                if isinstance(y, int):
                    pk *= y
            if kn:
                if pk != prod_rest:
                    self.unsupported('reshape')
                sh[i] = kn[0]
            else:
                if prod_rest == 0 or pk % prod_rest:
                    self.raise_('ValueError', 'reshape')
                sh[i] = pk // prod_rest
        nodes = [x for x in sh if isinstance(x, Node)]
        if any(isinstance(x, Node) for x in sh[:-1]):
            self.unsupported('reshape moves the object axis')
        if nodes:
            if not (isinstance(n, Node) and nodes[-1] is n):
                if isinstance(n, int) or n is None:
                    self.it.event('reshape_mismatch')
                self.unsupported('reshape to another size')
            sst, space = sh[:-1], a.space
        elif isinstance(n, Node):
            self.unsupported('reshape drops the object axis')
        else:
            tot = 1
            for d in full:
                tot *= d
            t2 = 1
            for d in sh:
                t2 *= d
            if tot != t2:
                self.raise_('ValueError', 'reshape')
            if sh and sh[-1] == 1:
                sst, space = sh[:-1], UNIT
            else:
                sst, space = sh, None
        old = [a.imap[k] for k in static_indices(S)]
        new = static_indices(sst)
        if len(old) != len(new):
            self.raise_('ValueError', 'reshape')
        return dict(zip(new, old)), tuple(sst), space

    def reshape(self, a, sh):
        if not isinstance(a, Arr):
            a = self.toarr(a)
        imap, sst, space = self.reshaped(a, sh)
        return Arr(a.buf, sst, imap, space, elem=a.elem)

    def toarr(self, x, dtype=None):
        x = self.asarr(x)
        if isinstance(x, Arr):
            return x
        return fresh((), None, {(): x}, dtype or self.strong(num_dtype(x)), zerod=True)

    @staticmethod
    def strong(d):
        return {'pyi': 'i', 'pyf': 'f'}.get(d, d)

    # ------------------------------------------------------------ indexing
    def norm_key(self, a, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, list) for k in key):
            key = tuple(self.list_key(k) if isinstance(k, list) else k for k in key)
        nd = len(a.sshape) + (1 if a.space is not None else 0)
        used = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, (bool,)) or (isinstance(k, Node) and num_dtype(k) == 'b'):
                continue
            if isinstance(k, Arr) and k.buf.dtype == 'b':
                used += len(k.sshape) + (1 if k.space is not None else 0)
                continue
            used += 1
        if not any(k is Ellipsis for k in key):
            # implicit trailing axes, before trailing 0-d boolean masks
            i = len(key)
            while i and (isinstance(key[i - 1], bool) or
                         (isinstance(key[i - 1], Node) and num_dtype(key[i - 1]) == 'b')):
                i -= 1
            key = key[:i] + (Ellipsis,) + key[i:]
        out = []
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (nd - used)
            else:
                out.append(k)
        if nd - used < 0:
            self.it.event('index_error', what='too many indices')
            self.raise_('IndexError', 'too many indices')
        return out

    def list_key(self, k):
        if all(isinstance(x, int) and not isinstance(x, bool) for x in k):
            return tuple(['list']) + tuple(k)
        return self.array(k)

    def locate(self, a, key):
        """-> list of (result static index, storage key), sshape, space, mask, kind
        kind: 'view' | 'copy' | 'maybe'"""
        E = _eng()
        key = self.norm_key(a, key)
        axes = list(a.sshape) + (['obj'] if a.space is not None else [])
        ax = 0
        per = []                # per static axis: list of indices, keep?
        newax = []
        space, mask, kind = a.space, None, 'view'
        res = []
        cellmask = None
        for k in key:
            if k is None:
                res.append(('new',))
                continue
            if isinstance(k, Arr) and k.sshape == () and k.space is None and k.buf.dtype != 'b':
                k = k.get()
            if isinstance(k, Arr) and k.sshape == () and k.space is None:
                k = k.get()
            if isinstance(k, bool) or (isinstance(k, Node) and num_dtype(k) == 'b'):
                # 0-d boolean mask: adds an axis of length 0 or 1
                base = space if space is not None else UNIT
                if a.space is not None and ax < len(axes) and axes[ax] == 'obj':
                    self.unsupported('scalar mask on an object axis')
                space, mask, kind = sub_space(base, k), k if mask is None else and_(mask, k), 'copy'
                res.append(('objnew',))
                continue
            if ax >= len(axes):
                self.it.event('index_error', what='too many indices')
                self.raise_('IndexError', 'too many indices')
            if axes[ax] == 'obj':
                ax += 1
                if isinstance(k, slice) and k.start is None and k.stop is None and k.step in (None, 1):
                    res.append(('obj',))
                    continue
                if isinstance(k, slice):
                    sel = self.slice_sel(k, a.space)
                    if sel is None:
                        res.append(('obj',))
                        continue
                    mask, kind = sel.mask, 'maybe'
                    space = sub_space(space, mask)
                    res.append(('obj',))
                    continue
                if isinstance(k, Arr) and k.buf.dtype == 'b':
                    if k.space is not None and self.space_equal(k.space, a.space) is not True and \
                            k.space != a.space:
                        if not (k.space == UNIT and a.space == UNIT):
                            self.it.event('space_mismatch', a=k.space, b=a.space,
                                          definite=self.space_equal(k.space, a.space) is False)
                    if k.sshape:
                        self.unsupported('mask with static axes')
                    mask = k.get()
                    space, kind = sub_space(space, mask), 'copy'
                    res.append(('obj',))
                    continue
                if isinstance(k, E.Sel):
                    if k.kind == 'int':
                        mask, space, kind = k.mask, None, 'maybe'
                        continue
                    if k.kind == 'all':
                        res.append(('obj',))
                        continue
                    mask = k.mask
                    space, kind = sub_space(space, mask), 'copy' if k.kind == 'mask' else 'maybe'
                    res.append(('obj',))
                    continue
                if isinstance(k, (int, Node)):
                    if isinstance(k, Node) and k.op == 'idx':
                        if k.args[0] is size_of(a.space) or k.args[0] == size_of(a.space):
                            space, kind = None, 'view'
                            continue
                        self.it.event('partial_loop_store', a=k.args[0], b=size_of(a.space))
                        mask, space = mk('unk', 'partial index'), None
                        continue
                    if a.space == UNIT and isinstance(k, int):
                        if k not in (0, -1):
                            self.raise_('IndexError', 'index')
                        space = None
                        continue
                    mask, space, kind = mk('sel', 'index', k), None, 'maybe'
                    continue
                if isinstance(k, tuple) and k[0] == 'list':
                    mask = mk('sel', 'list') if len(k) > 1 else False
                    space, kind = sub_space(space, mask), 'copy'
                    res.append(('obj',))
                    continue
                if isinstance(k, Arr):
                    mask = mk('sel', 'array', k.get())
                    space, kind = sub_space(space, mask), 'copy'
                    res.append(('obj',))
                    continue
                self.unsupported('index %r on the object axis' % (k,))
            d = axes[ax]
            if isinstance(k, Arr) and k.buf.dtype == 'b':
                if k.sshape == tuple(x for x in axes[ax:] if x != 'obj') and k.space == a.space and ax == 0:
                    # mask over all axes
                    cellmask = {kk: k.get(kk) for kk in k.imap}
                    return ('cellmask', cellmask)
                if k.sshape == (d,) and k.space is None and all(isinstance(v, bool) for _, v in k.items()):
                    per.append([i for i in range(d) if k.get((i,))])
                    res.append(('keep', len(per) - 1))
                    kind = 'copy'
                    ax += 1
                    continue
                self.unsupported('mask on a static axis')
            if isinstance(k, Node):
                self.unsupported('symbolic index on a static axis')
            if isinstance(k, E.Sel):
                self.unsupported('selector on a static axis')
            if isinstance(k, Arr):
                if k.space is None and len(k.sshape) == 1 and all(isinstance(v, int) for _, v in k.items()):
                    k = ('list',) + tuple(v for _, v in sorted(k.items()))
                else:
                    self.unsupported('array index on a static axis')
            if isinstance(k, int):
                if not -d <= k < d:
                    self.it.event('index_error', what='index %d of axis with size %d' % (k, d))
                    self.raise_('IndexError', 'index')
                per.append([k % d])
            elif isinstance(k, slice):
                if any(isinstance(x, Node) for x in (k.start, k.stop, k.step)):
                    self.unsupported('symbolic slice')
                per.append(list(range(d))[k])
                res.append(('keep', len(per) - 1))
            elif isinstance(k, tuple) and k[0] == 'list':
                try:
                    per.append([range(d)[x] for x in k[1:]])
                except IndexError:
                    self.it.event('index_error', what='index out of range')
                    self.raise_('IndexError', 'index')
                res.append(('keep', len(per) - 1))
                kind = 'copy'
            else:
                self.it.event('index_error', what='%r as index' % (k,))
                self.raise_('IndexError', 'index type')
            ax += 1
        if ax != len(axes):
            self.unsupported('index arity')
        # result axes
        rs = []
        srcs = []
        for r in res:
            if r[0] == 'keep':
                rs.append(len(per[r[1]]))
                srcs.append(r[1])
            elif r[0] == 'new':
                rs.append(1)
                srcs.append(None)
        # a trailing newaxis is an object axis of one
        if res and res[-1] == ('new',) and a.space is None and space is None:
            rs.pop()
            srcs.pop()
            space = UNIT
        elif any(r == ('new',) for r in res) and ('obj',) in res and \
                res.index(('obj',)) < max(i for i, r in enumerate(res) if r == ('new',)):
            self.unsupported('axis after the object axis')
        pairs = []
        for rk in static_indices(rs):
            sel = [p[0] if p else None for p in per]
            bad = any(s is None for s in sel)
            for pos, src in zip(rk, srcs):
                if src is not None:
                    sel[src] = per[src][pos]
            pairs.append((rk, a.imap[tuple(sel)]))
        if any(len(p) == 0 for p in per):
            pairs = []
        return pairs, tuple(rs), space, mask, kind

    def slice_sel(self, k, space):
        """selection of the object axis by a slice, None for everything"""
        E = _eng()
        st, sp, step = k.start, k.stop, k.step
        if space == UNIT:
            pass
        if space is not None and space[0] == 'cat':
            n0 = size_of(space[1])
            num = space[2]
            if st is n0 and (sp is None or sp is add(n0, num) or sp is size_of(space)) and step in (None, 1):
                return E.Sel(mk('isnew', space), 'slice')
            if st in (None, 0) and not isinstance(st, Node) and sp is n0 and step in (None, 1):
                return E.Sel(not_(mk('isnew', space)), 'slice')
            if isinstance(st, Node) and st is neg(num) and sp is None:
                return E.Sel(mk('isnew', space), 'slice')
        if (st is None or st == 0 and not isinstance(st, Node)) and (sp is None or sp is size_of(space)) and \
                step in (None, 1):
            return None
        if space is not None and space[0] == 'sub' and space[1][0] == 'alloc':
            pass
        return E.Sel(mk('sel', 'slice', *[x if isinstance(x, (Node, int)) else None for x in (st, sp, step)]), 'slice')

    def index(self, a, key):
        E = _eng()
        if isinstance(a, (int, float)) and not isinstance(a, bool) and type(a) in (int, float) and not (
                isinstance(key, Node) or key is Ellipsis or isinstance(key, (bool, Arr)) or key == ()):
            self.it.event('type_error', what='scalar is not subscriptable')
            self.raise_('TypeError', 'not subscriptable')
        if not isinstance(a, Arr):
            if key is Ellipsis or key == ():
                return a
            if isinstance(key, bool) or isinstance(key, Node) and num_dtype(key) == 'b':
                return fresh((), sub_space(UNIT, key), {(): a}, self.strong(num_dtype(a)))
            if isinstance(key, Arr) and key.sshape == () and key.space is None:
                return self.index(a, key.get())
            if isinstance(a, Node) and a.op == 'unk':
                return mk('unk', 'item of unknown')
            if key is None or (isinstance(key, tuple) and None in key):
                return self.index(self.toarr(a), key)
            self.it.event('type_error', what='scalar is not subscriptable')
            self.raise_('TypeError', 'not subscriptable')
        if isinstance(key, str):
            self.raise_('IndexError', 'only integers')
        r = self.locate(a, key)
        if r[0] == 'cellmask':
            self.unsupported('read through a mask over several axes')
        pairs, sshape, space, mask, kind = r
        def cell(sk):
            v = a.buf.cells[sk]
            # one object picked out by its number: not the generic object
            return at(v, mask) if a.space is not None and space is None and mask is not None else v
        if sshape == () and space is None and not (key is Ellipsis or key == () or
                                                   (isinstance(key, tuple) and Ellipsis in key)):
            return cell(pairs[0][1])
        if sshape == () and space is None and key == ():
            return cell(pairs[0][1])
        if kind == 'view':
            return Arr(a.buf, sshape, {rk: sk for rk, sk in pairs}, space, zerod=(sshape == () and space is None),
                       elem=a.elem)
        b = fresh(sshape, space, {rk: cell(sk) for rk, sk in pairs}, a.buf.dtype)
        if kind == 'maybe':
            b.buf.maybe = [a.buf]
            b.buf.viewof = (a.buf, dict(pairs), mask)
        return b

    def store(self, a, key, val, inplace=False):
        E = _eng()
        if isinstance(val, E.Opq):
            val = mk('var', val.name)
        if isinstance(val, E.GenList) or isinstance(val, (list, tuple)):
            val = self.array(val)
        if isinstance(val, NdIter):
            val = val.arr
        if val is None:
            val = NAN
        if not isinstance(val, (Arr, Node, int, float, bool)):
            if isinstance(val, (str, dict)):
                self.raise_('TypeError', 'store')
            self.unsupported('store of %r' % (val,))
        if isinstance(key, str):
            self.raise_('IndexError', 'only integers')
        r = self.locate(a, key)
        if r[0] == 'cellmask':
            if isinstance(val, Arr) and (val.sshape or val.space):
                self.unsupported('array store through a mask over several axes')
            v = val.get() if isinstance(val, Arr) else val
            for kk, m in r[1].items():
                sk = a.imap[kk]
                self.it.setd(a.buf.cells, sk, where(m, v, a.buf.cells[sk]))
            self.it.event('store', buf=a.buf, keys=tuple(a.imap[k] for k in r[1]), arr=a, value=val, mask='cells')
            return
        pairs, sshape, space, mask, kind = r
        # element of an iterator: the loop must visit every object
        if a.elem is not None:
            if not self.genloop:
                self.unsupported('iterator element outside a loop')
            n = self.genloop[-1]
            if n is not None and not (n is a.elem or n == a.elem):
                self.it.event('partial_loop_store', a=n, b=a.elem)
                mask = mk('unk', 'partial loop')
        foreign = None
        if isinstance(val, Arr):
            if val.space is not None and space is not None:
                if val.space != UNIT or space == UNIT:
                    if val.space != space:
                        eq = self.space_equal(val.space, space)
                        if eq is not True and val.space[0] != 'mixed':
                            foreign = (val.space, eq)
                        if eq is not True:
                            self.it.event('space_mismatch', a=val.space, b=space, definite=eq is False)
            elif val.space is not None and space is None:
                if val.space != UNIT and not (val.space[0] == 'sub' and val.space[1] == UNIT):
                    self.it.event('space_mismatch', a=val.space, b=space, definite=True)
            vs = val.sshape
            if val.space is None and vs and space is not None and vs[-1] == 1:
                vs = vs[:-1]
            elif val.space is None and vs and space is not None:
                if space != UNIT:
                    self.it.event('axis_mismatch', shape=val.sshape, space=space)
                    self.unsupported('static axis against the object axis')
                self.it.event('axis_mismatch', shape=val.sshape, space=space)
                self.raise_('ValueError', 'could not broadcast')
            if len(vs) > len(sshape):
                if all(d == 1 for d in vs[:len(vs) - len(sshape)]):
                    pass
                else:
                    self.it.event('axis_mismatch', shape=val.sshape, space=space)
                    self.raise_('ValueError', 'could not broadcast')
            for d, e in zip(reversed(vs), reversed(sshape)):
                if d != 1 and d != e:
                    self.it.event('axis_mismatch', shape=val.sshape, space=space)
                    self.raise_('ValueError', 'could not broadcast')
            nv = len(vs)

            def get(rk):
                kk = rk[len(rk) - nv:] if nv else ()
                kk = (0,) * (nv - len(kk)) + tuple(kk)
                kk = tuple(0 if d == 1 else x for x, d in zip(kk, vs))
                if len(kk) < len(val.sshape):
                    kk = kk + (0,) * (len(val.sshape) - len(kk))
                v = val.get(kk)
                return self.other_object(v, *foreign) if foreign else v
        else:
            def get(rk):
                return val
        vdt = self.dtype_of(val)
        ev = self.it.event('store', buf=a.buf, keys=tuple(sk for _, sk in pairs), arr=a, value=val, mask=mask,
                           inplace=inplace)
        if a.buf.dtype in ('i', 'b') and vdt in ('f', 'f4', 'pyf') and a.buf.dtype != 'b':
            vals = [get(rk) for rk, _ in pairs]
            if not all(isinstance(v, (int, bool)) or (isinstance(v, float) and v == int(v) if v == v else False)
                       for v in vals):
                self.it.event('trunc_store', buf=a.buf, value=val)
                get0 = get

                def get(rk):
                    v = get0(rk)
                    if isinstance(v, float) and v == v and abs(v) < 1e15:
                        return int(v)
                    return fn('trunc', v) if isinstance(v, Node) and v.op != 'nan' else v
        newvals = {sk: get(rk) for rk, sk in pairs}
        if a.buf.dtype == 'b':
            newvals = {k: self.boolish(v) for k, v in newvals.items()}
        targets = [(a.buf, newvals)]
        vo = getattr(a.buf, 'viewof', None)
        for buf, nv_ in targets:
            for sk, v in nv_.items():
                old = buf.cells[sk]
                self.it.setd(buf.cells, sk, v if mask is None else where(mask, v, old))
        if vo is not None:
            # the selection may be a view (slice): the storage behind it changes as well
            base, mp, m0 = vo
            for rk, sk in mp.items():
                if rk in newvals:
                    self.it.event('store', buf=base, keys=(sk,), arr=None, value=val, mask=m0, through='view')
                    base_old = base.cells[sk]
                    self.it.setd(base.cells, sk, where(m0, newvals[rk], base_old))

    # ------------------------------------------------------------ attributes
    def arr_attr(self, a, name):
        E = _eng()
        if isinstance(a, Arr):
            if name == 'shape':
                return self.shape(a)
            if name == 'ndim':
                return len(self.shape(a))
            if name == 'size':
                n = 1
                for d in self.shape(a):
                    n = mul(n, d)
                return n
            if name == 'dtype':
                return E.DT(a.buf.dtype)
            if name == 'T':
                if len(self.shape(a)) <= 1:
                    return a
                if a.space is None:
                    rv = {k: a.imap[tuple(reversed(k))] for k in static_indices(tuple(reversed(a.sshape)))}
                    return Arr(a.buf, tuple(reversed(a.sshape)), rv, None)
                return Transposed(a)
            if name == 'flat':
                return a
            if name == 'real':
                return a
        else:
            if name in ('shape', 'ndim', 'size', 'dtype') and (type(a) in (int, float) or
                                                                isinstance(a, Node) and a.op == 'var'):
                # a plain python number
                self.it.event('attribute_error', name=name)
                self.raise_('AttributeError', name)
            if name == 'shape':
                return ()
            if name == 'ndim':
                return 0
            if name == 'size':
                return 1
            if name == 'dtype':
                return E.DT(self.strong(num_dtype(a)))
            if name in ('real', 'T'):
                return a
        return E.Builtin('ndarray.' + name, lambda args, kw: self.method(a, name, args, kw))

    def method(self, a, name, args, kw):
        if name == 'copy':
            return self.copy(a)
        if name == 'astype':
            return self.astype(a, *args, **kw)
        if name == 'reshape':
            kw.pop('order', None)
            return self.reshape(a, args[0] if len(args) == 1 else tuple(args))
        if name in ('flatten', 'ravel'):
            if isinstance(a, Arr):
                if a.sshape == ():
                    r = self.copy(a) if name == 'flatten' else Arr(a.buf, (), dict(a.imap), a.space)
                    if r.space is None:
                        r.space = UNIT
                    return r
                if a.space is None or a.space == UNIT:
                    n = len(a.imap)
                    src = self.copy(a) if name == 'flatten' else a
                    return Arr(src.buf, (n,), {(i,): src.imap[k] for i, k in
                                               enumerate(static_indices(a.sshape))}, None)
            self.unsupported('flatten')
        if name in ('item',):
            if isinstance(a, Arr):
                if a.sshape == () and not args:
                    return a.get()
                self.unsupported('item')
            return a
        if name == 'tolist':
            if isinstance(a, Arr) and a.space is None:
                return [self.index(a, i) for i in range(a.sshape[0])] if a.sshape else a.get()
            return a
        if name == 'fill':
            self.store(a, Ellipsis, args[0])
            return None
        if name == 'squeeze':
            if isinstance(a, Arr):
                if 1 in a.sshape:
                    self.unsupported('squeeze')
                if a.space == UNIT:
                    return Arr(a.buf, a.sshape, dict(a.imap), None)
            return a
        if name == 'view':
            return a
        if name == 'setflags':
            return None
        if name == 'swapaxes' or name == 'transpose':
            self.unsupported(name)
        if name == 'is_integer' or name == 'is_':
            return mk('unk', name)
        if name == 'clip':
            return self.call_name('clip', [a] + list(args), kw)
        if name == 'round':
            return self.unary('round', a)
        if name == 'dot':
            return self.matmul(a, args[0])
        if name in REDUCE:
            return self.reduce(name, a, args, kw)
        if name == 'nonzero':
            return self.call_name('nonzero', [a], {})
        self.it.event('attribute_error', name=name)
        self.raise_('AttributeError', name)

    def copy(self, a):
        if not isinstance(a, Arr):
            return a
        return fresh(a.sshape, a.space, dict(a.items()), a.buf.dtype, zerod=a.zerod)

    def astype(self, a, dtype=None, copy=True, **kw):
        d = self.to_dt(dtype)
        if not isinstance(a, Arr):
            return self.cast_scalar(a, d)
        if copy is False and a.buf.dtype == d.k:
            return a
        r = self.copy(a)
        if d.k == 'i' and a.buf.dtype in ('f', 'f4'):
            self.it.event('trunc_cast', buf=a.buf)
            r.buf.cells = {k: fn('trunc', v) if isinstance(v, Node) else v for k, v in r.buf.cells.items()}
        r.buf.dtype = d.k
        return r

    def cast_scalar(self, x, d):
        x = self.asarr(x)
        if isinstance(x, Arr):
            return self.astype(x, d)
        if d.k in ('f', 'f4'):
            if isinstance(x, bool):
                return int(x)
            return x
        if d.k == 'i':
            if isinstance(x, (int, float)):
                return int(x)
            return fn('trunc', x)
        if d.k == 'b':
            return self.boolish(x)
        return x

    def to_dt(self, d):
        E = _eng()
        if d is None:
            return E.DT('f')
        if isinstance(d, E.DT):
            return d
        if isinstance(d, E.NpVal):
            nm = d.path.split('.')[-1]
            if nm in DTYPES:
                return E.DT(DTYPES[nm])
        if isinstance(d, E.Builtin) and d.name in ('float', 'int', 'bool'):
            return E.DT({'float': 'f', 'int': 'i', 'bool': 'b'}[d.name])
        if isinstance(d, str):
            s = d.strip('<>=')
            if s in DTYPES:
                return E.DT(DTYPES[s])
            if s in ('float', 'd', 'f8'):
                return E.DT('f')
            if s in ('f4', 'f'):
                return E.DT('f4')
            if s in ('i8', 'int', 'i4', 'i'):
                return E.DT('i')
            if s in ('?', 'bool', 'b1'):
                return E.DT('b')
        if isinstance(d, E.Opq):
            return E.DT('tok:' + d.name)
        self.unsupported('dtype %r' % (d,))

    # ------------------------------------------------------------ arrays from data
    def array(self, x, dtype=None, copy=True):
        E = _eng()
        dt = self.to_dt(dtype).k if dtype is not None else None
        if isinstance(x, Arr):
            r = self.copy(x) if copy else x
            if dt is not None and dt != r.buf.dtype:
                r = self.astype(r, E.DT(dt))
            return r
        if isinstance(x, E.GenList):
            sp = space_of_size(x.size) if x.size is not None else None
            e = x.elem
            if isinstance(e, Arr) and e.sshape == () and e.space is None:
                e = e.get()
            if isinstance(e, (int, float, Node, bool)):
                return fresh((), sp, {(): e}, dt or self.strong(num_dtype(e)))
            self.unsupported('array of per-object arrays')
        if self.isscalar(x):
            return fresh((), None, {(): x}, dt or self.strong(num_dtype(x)), zerod=True)
        if isinstance(x, E.Opq):
            return fresh((), None, {(): mk('var', x.name)}, dt or 'f', zerod=True)
        if isinstance(x, Transposed):
            return x
        if isinstance(x, (list, tuple)):
            items = [self.array(v) if isinstance(v, (list, tuple)) else self.asarr(v) for v in x]
            if not items:
                return fresh((0,), None, {}, dt or 'f')
            sshape, space, gs = self.broadcast(items)
            cells = {}
            for i, g in enumerate(gs):
                for k in static_indices(sshape):
                    cells[(i,) + k] = g(k)
            d = dt or self.strong(join_dtype(*[self.dtype_of(v) for v in items]))
            if len(items) == 1 and sshape == () and space is None:
                return fresh((), UNIT, {(): cells[(0,)]}, d)
            return fresh((len(items),) + sshape, space, cells, d)
        if isinstance(x, NdIter):
            return x.arr
        self.unsupported('array from %r' % (x,))

    def reduce(self, name, a, args, kw):
        name = {'amax': 'max', 'amin': 'min'}.get(name, name)
        axis = kw.get('axis', args[0] if args else None)
        a = self.asarr(a)
        if not isinstance(a, Arr):
            if name in ('any', 'all'):
                return self.boolish(a)
            return a
        if name not in ('sum', 'any', 'all', 'prod', 'max', 'min', 'mean', 'count_nonzero'):
            nd = len(self.shape(a))
            if a.space is not None and (axis is None or axis in (nd - 1, -1)):
                return mk('reduce', name, a.space, tuple(v for _, v in sorted(a.items())))
            self.unsupported('reduction ' + name)
        d = len(a.sshape)
        nd = d + (1 if a.space is not None else 0)
        if isinstance(axis, int) and axis < 0:
            axis += nd
        if axis is not None and not isinstance(axis, int):
            self.unsupported('reduction axis')
        if axis is not None and axis >= nd:
            self.it.event('index_error', what='axis out of range')
            self.raise_('AxisError' if False else 'ValueError', 'axis')

        def comb(vals):
            if name == 'sum':
                r = vals[0]
                for v in vals[1:]:
                    r = add(r, v)
                return r
            if name == 'count_nonzero':
                r = 0
                for v in vals:
                    r = add(r, where(self.boolish(v), 1, 0))
                return r
            if name == 'prod':
                r = vals[0]
                for v in vals[1:]:
                    r = mul(r, v)
                return r
            if name == 'mean':
                r = vals[0]
                for v in vals[1:]:
                    r = add(r, v)
                return div(r, len(vals))
            if name == 'any':
                r = self.boolish(vals[0])
                for v in vals[1:]:
                    r = or_(r, self.boolish(v))
                return r
            if name == 'all':
                r = self.boolish(vals[0])
                for v in vals[1:]:
                    r = and_(r, self.boolish(v))
                return r
            r = vals[0]
            for v in vals[1:]:
                r = fn({'max': 'maximum', 'min': 'minimum'}[name], r, v)
            return r

        def over_obj(v):
            if a.space == UNIT:
                return v
            return self.red(name, a.space, v)
        dt = 'b' if name in ('any', 'all') else a.buf.dtype
        if axis is None:
            v = comb([a.get(k) for k in static_indices(a.sshape)]) if a.imap else 0
            if a.space is not None:
                v = over_obj(self.boolish(v) if name in ('any', 'all') else v)
            return v
        if axis == d and a.space is not None:
            cells = {k: over_obj(v) for k, v in a.items()}
            if a.sshape == ():
                return cells[()]
            if kw.get('keepdims'):
                return fresh(a.sshape, UNIT, cells, dt)
            return fresh(a.sshape, None, cells, dt)
        out = {}
        rest = a.sshape[:axis] + a.sshape[axis + 1:]
        for k in static_indices(rest):
            out[k] = comb([a.get(k[:axis] + (i,) + k[axis:]) for i in range(a.sshape[axis])])
        if kw.get('keepdims'):
            out = {k[:axis] + (0,) + k[axis:]: v for k, v in out.items()}
            rest = a.sshape[:axis] + (1,) + a.sshape[axis + 1:]
        if rest == () and a.space is None:
            return out[()]
        return fresh(rest, a.space, out, dt)

    @staticmethod
    def red(name, space, v):
        return reduce_node(name, space, v)

    def norm(self, a, ord=None, axis=None, keepdims=False):
        if ord not in (None, 2):
            self.unsupported('norm order')
        sq = self.binop('Pow', a, 2)
        s = self.reduce('sum', sq, [], {'axis': axis, 'keepdims': keepdims})
        return self.unary('sqrt', s)

    def cross(self, a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
        a, b = self.toarr(a), self.toarr(b)
        if axis is not None:
            axisa = axisb = axisc = axis

        def comps(x, ax):
            nd = len(self.shape(x))
            ax = ax % nd
            if ax != 0 or len(x.sshape) != 1 or x.sshape[0] != 3:
                if x.space is not None and ax == nd - 1:
                    self.it.event('axis_mismatch', shape=x.sshape, space=x.space)
                self.unsupported('cross product axis')
            return [fresh((), x.space, {(): x.get((i,))}, x.buf.dtype) if x.space is not None else x.get((i,))
                    for i in range(3)]
        A, B = comps(a, axisa), comps(b, axisb)
        B_ = self.binop

        def c(i, j):
            return B_('Sub', B_('Mult', A[i], B[j]), B_('Mult', A[j], B[i]))
        out = self.array([c(1, 2), c(2, 0), c(0, 1)])
        nd = len(self.shape(out))
        if axisc % nd != 0:
            if nd == 1:
                return out
            self.unsupported('cross product axis')
        return out

    def dot2(self, a, b):
        return self.reduce('sum', self.binop('Mult', a, b), [], {})

    def matmul(self, a, b):
        a, b = self.asarr(a), self.asarr(b)
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            return self.binop('Mult', a, b)
        if a.space is None and len(a.sshape) == 2 and len(b.sshape) >= 1 and (b.space is None or len(b.sshape) == 1):
            n, m = a.sshape
            if b.sshape[0] != m:
                self.raise_('ValueError', 'matmul')
            rest = b.sshape[1:]
            cells = {}
            for i in range(n):
                for k in static_indices(rest):
                    s = 0
                    for j in range(m):
                        s = add(s, mul(a.get((i, j)), b.get((j,) + k)))
                    cells[(i,) + k] = s
            return fresh((n,) + rest, b.space, cells, join_dtype(a.buf.dtype, b.buf.dtype))
        if a.space is None and b.space is None and len(a.sshape) == 1 and len(b.sshape) == 1:
            return self.dot2(a, b)
        self.unsupported('matmul')

    def einsum(self, spec, *ops):
        spec = spec.replace(' ', '')
        if '->' not in spec:
            self.unsupported('einsum without output')
        ins, out = spec.split('->')
        ins = ins.split(',')
        ops = [self.toarr(o) for o in ops]
        dims, objl = {}, None
        for sub_, o in zip(ins, ops):
            letters = sub_.replace('...', '.')
            ax = list(o.sshape) + (['obj'] if o.space is not None else [])
            if '.' in letters and len(letters) - 1 == len(ax):
                letters = letters.replace('.', '')
            if len(letters) != len(ax):
                self.raise_('ValueError', 'einsum')
            for l, d in zip(letters, ax):
                if l == '.' and d != 'obj':
                    self.unsupported('einsum ellipsis')
                if dims.get(l, d) != d:
                    self.unsupported('einsum axis')
                dims[l] = d
        out = out.replace('...', '.')
        objs = [l for l, d in dims.items() if d == 'obj']
        if len(objs) > 1:
            self.unsupported('einsum axes')
        if '.' in out and '.' not in dims:
            out = out.replace('.', '')
        if objs and (objs[0] not in out or out[-1] != objs[0]):
            self.unsupported('einsum over objects')
        space = self.join_space([o.space for o in ops])
        ol = [l for l in out if dims[l] != 'obj']
        sl = [l for l, d in dims.items() if d != 'obj' and l not in ol]
        cells = {}
        for k in static_indices([dims[l] for l in ol]):
            env = dict(zip(ol, k))
            tot = 0
            for s in static_indices([dims[l] for l in sl]):
                env.update(zip(sl, s))
                t = 1
                for sub_, o in zip(ins, ops):
                    letters = [l for l in sub_.replace('...', '.') if dims.get(l, 'obj') != 'obj']
                    t = mul(t, o.get(tuple(env[l] for l in letters)))
                tot = add(tot, t)
            cells[k] = tot
        sshape = tuple(dims[l] for l in ol)
        if sshape == () and space is None:
            return cells[()]
        return fresh(sshape, space, cells, join_dtype(*[o.buf.dtype for o in ops]))

    # ------------------------------------------------------------ module attributes
    def attr(self, o, name):
        E = _eng()
        p = o.path + '.' + name
        if o.path in ('numpy', 'math'):
            if name == 'pi':
                return PI
            if name == 'nan':
                return NAN
            if name == 'inf':
                return float('inf')
            if name == 'e':
                return mk('cst', 'euler')
            if name == 'newaxis':
                return None
            if name == 'tau':
                return mul(2, PI)
        if p == 'sys.modules':
            return SysModules(self.it)
        if o.path.split('.')[0] == 'numpy' and o.path != 'numpy' and o.path.split('.')[-1] in DTYPES:
            return E.NpVal(p)
        return E.NpVal(p)

    def special_item(self, o, k):
        E = _eng()
        if isinstance(o, E.NpVal):
            return E.NpVal(o.path + '[]')
        return E.Opaque('item')

    def call(self, f, args, kw):
        path = f.path
        top = path.split('.')[0]
        name = path.split('.', 1)[1] if '.' in path else path
        if top == 'copy':
            return self.copy_module(name, args, kw)
        if top == 'functools':
            E = _eng()
            if name == 'partial':
                return E.PartialV(args[0], args[1:], kw)
            if name in ('wraps', 'lru_cache', 'cache', 'update_wrapper', 'cached_property', 'total_ordering'):
                def memo(f):
                    if name in ('lru_cache', 'cache') and isinstance(f, E.FuncVal):
                        f.memo = True
                    return f
                if name == 'wraps' or not args or not isinstance(args[0], E.FuncVal):
                    return E.Builtin(name, lambda a, k: memo(a[0]))
                return memo(args[0])
        if top == 'warnings':
            return None
        if top == 'math' and name in ('sqrt', 'cbrt', 'sin', 'cos', 'tan', 'exp', 'log', 'radians', 'degrees', 'fabs',
                                      'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'isnan', 'floor', 'asinh',
                                      'acosh', 'atanh', 'isinf', 'isfinite', 'ceil'):
            a = args[0]
            if isinstance(a, Arr):
                if a.sshape == () and a.space in (None, UNIT):
                    a = a.get()
                else:
                    self.it.event('type_error', what='math.%s of an array' % name)
                    self.raise_('TypeError', 'only length-1 arrays')
            return self.unary(name, a)
        if top == 'math' and name in ('atan2', 'hypot', 'fmod', 'pow', 'copysign'):
            if name == 'pow':
                return self.binop('Pow', *args)
            return self.call_name(ALIAS.get(name, name), args, kw)
        if top == 'operator':
            m = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'mod': 'Mod', 'pow': 'Pow'}
            if name in m:
                return self.binop(m[name], *args)
        if top == 'numpy':
            return self.call_name(name, args, kw)
        if top in ('typing', 'types', 'enum', 'collections', 'dataclasses', 'logging', 'contextlib', 'abc'):
            return _eng().Opaque(path)
        self.unsupported('call of %s' % path)

    def copy_module(self, name, args, kw):
        E = _eng()
        x = args[0]
        if isinstance(x, E.Obj):
            m = x.cls.lookup('__%s__' % name)
            if m is not E.MISSING:
                return self.it.call(E.BoundM(m, x), [] if name == 'copy' else [{}], {})
            o = E.Obj(x.cls)
            o.attrs = dict(x.attrs) if name == 'copy' else {k: self.deep(v) for k, v in x.attrs.items()}
            return o
        if name == 'copy':
            if isinstance(x, Arr):
                return self.copy(x)
            if isinstance(x, (dict, list, set)):
                return type(x)(x)
            if isinstance(x, E.Opq):
                r = E.Opq(x.name)
                r.shallow = True
                return r
            return x
        return self.deep(x)

    def deep(self, x):
        E = _eng()
        if isinstance(x, Arr):
            return self.copy(x)
        if isinstance(x, dict):
            return {k: self.deep(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self.deep(v) for v in x]
        if isinstance(x, tuple):
            return tuple(self.deep(v) for v in x)
        if isinstance(x, E.Opq):
            return E.Opq(x.name)
        if isinstance(x, E.Obj):
            return self.copy_module('deepcopy', [x], {})
        return x

    def like(self, x, kw):
        x = self.asarr(x)
        if kw.get('shape') is not None:
            sst, sp = self.parse_shape(kw['shape'])
        elif isinstance(x, Arr):
            sst, sp = x.sshape, x.space
        else:
            sst, sp = (), None
        d = kw.get('dtype')
        dt = self.to_dt(d).k if d is not None else self.strong(self.dtype_of(x))
        return sst, sp, dt

    def call_name(self, name, args, kw):
        E = _eng()
        it = self.it
        if name in ELEMENTWISE:
            out = kw.pop('out', None)
            wh = kw.pop('where', None)
            if wh is not None:
                if out is None:
                    base = self.like(args[0], {})
                    out = self.new(base[0], base[1], self.uninit(), float_of(base[2]))
                r = self.unary(name, args[0])
                self.store(out, Ellipsis, self.call_name('where', [wh, r, out], {}))
                return out
            if name in ('round', 'around', 'nan_to_num'):
                args = args[:1]
            r = self.unary(name, args[0])
            if out is not None:
                self.store(out, Ellipsis, r)
                return out
            if len(args) > 1:
                self.store(args[1], Ellipsis, r)
                return args[1]
            return r
        if name in BINARY or name in BINFN or name in LOGIC or name in COMPARE:
            out = kw.pop('out', None)
            wh = kw.pop('where', None)
            if len(args) > 2:
                out = args[2]
            a, b = args[0], args[1]
            if name in BINARY:
                r = self.binop(BINARY[name], a, b)
            elif name == 'pow':
                r = self.binop('Pow', a, b)
            elif name in COMPARE:
                r = self.compare(COMPARE[name], a, b)
            elif name in LOGIC:
                op = {'and': 'BitAnd', 'or': 'BitOr', 'xor': 'BitXor'}[name.split('_')[1]]
                r = self.elementwise(lambda x, y: self.bin(op, x, y), [a, b], 'b')
            else:
                nm = {'fmax': 'maximum', 'fmin': 'minimum', 'atan2': 'arctan2'}.get(name, name)
                a, b = self.asarr(a), self.asarr(b)
                dt = join_dtype(self.dtype_of(a), self.dtype_of(b))
                if nm in ('arctan2', 'hypot'):
                    dt = float_of(dt)
                if nm == 'hypot':
                    f = lambda x, y: fn('sqrt', add(power(x, 2), power(y, 2)))
                elif nm in ('maximum', 'minimum'):
                    f = lambda x, y: (max if nm == 'maximum' else min)(x, y) if isnum(x) and isnum(y) else fn(
                        nm, *order2(x, y))
                else:
                    f = lambda x, y: fn(nm, x, y)
                r = self.elementwise(f, [a, b], dt)
            if wh is not None:
                if out is None:
                    out = self.new(*(self.like(r, {})[:2] + (self.uninit(), self.like(r, {})[2])))
                r = self.call_name('where', [wh, r, out], {})
            if out is not None:
                self.store(out, Ellipsis, r)
                return out
            return r
        if name == 'divmod':
            return (self.binop('FloorDiv', *args), self.binop('Mod', *args))
        if name in ('where',):
            if len(args) == 1:
                return self.call_name('nonzero', args, kw)
            c, a, b = args
            a, b, c = self.asarr(a), self.asarr(b), self.asarr(c)
            dt = join_dtype(self.dtype_of(a), self.dtype_of(b))
            return self.elementwise(lambda m, x, y: where(self.boolish(m), x, y), [c, a, b], self.strong(dt))
        if name == 'select':
            conds, vals = args[0], args[1]
            r = args[2] if len(args) > 2 else kw.get('default', 0)
            for c, v in reversed(list(zip(conds, vals))):
                r = self.call_name('where', [c, v, r], {})
            return r
        if name == 'choose':
            self.unsupported('choose')
        if name == 'piecewise':
            x, conds, vals = args[0], args[1], args[2]
            x = self.asarr(x)
            conds = self.it.to_list(conds) if not isinstance(conds, list) else conds
            ap = lambda v: it.call(v, [x], {}) if isinstance(v, (E.FuncVal, E.Builtin, E.NpVal)) else v
            r = ap(vals[-1]) if len(vals) > len(conds) else 0
            for c, v in zip(conds, vals):
                r = self.call_name('where', [c, ap(v), r], {})
            return r
        if name == 'clip':
            a = args[0]
            lo = kw.get('a_min', kw.get('min', args[1] if len(args) > 1 else None))
            hi = kw.get('a_max', kw.get('max', args[2] if len(args) > 2 else None))
            r = a
            if lo is not None:
                r = self.elementwise(lambda x, y: where(cmp('lt', x, y), y, x), [r, lo], self.strong(self.dtype_of(self.asarr(a))))
            if hi is not None:
                r = self.elementwise(lambda x, y: where(cmp('lt', y, x), y, x), [r, hi], self.strong(self.dtype_of(self.asarr(a))))
            if kw.get('out') is not None:
                self.store(kw['out'], Ellipsis, r)
                return kw['out']
            return r
        if name in ('empty', 'zeros', 'ones', 'full'):
            shp = args[0] if args else kw.get('shape')
            sst, sp = self.parse_shape(shp)
            if name == 'full':
                v = args[1] if len(args) > 1 else kw['fill_value']
                d = args[2] if len(args) > 2 else kw.get('dtype')
                v = self.asarr(v)
                dt = self.to_dt(d).k if d is not None else self.strong(self.dtype_of(v))
                if isinstance(v, Arr) or dt == 'i' and self.dtype_of(v) in ('f', 'f4', 'pyf'):
                    r = self.new(sst, sp, 0, dt)
                    self.store(r, Ellipsis, v)
                    return r
                return self.new(sst, sp, v, dt)
            d = args[1] if len(args) > 1 else kw.get('dtype')
            dt = self.to_dt(d).k
            v = {'empty': None, 'zeros': False if dt == 'b' else 0, 'ones': True if dt == 'b' else 1}[name]
            if name == 'empty':
                v = self.uninit()
            return self.new(sst, sp, v, dt)
        if name in ('empty_like', 'zeros_like', 'ones_like', 'full_like'):
            if len(args) > 1 and name != 'full_like':
                kw['dtype'] = args[1]
            if name == 'full_like' and len(args) > 2:
                kw['dtype'] = args[2]
            sst, sp, dt = self.like(args[0], kw)
            v = {'e': None, 'z': False if dt == 'b' else 0, 'o': True if dt == 'b' else 1, 'f': 0}[name[0]]
            if name[0] == 'e':
                v = self.uninit()
            if name[0] == 'f':
                v = self.asarr(args[1] if len(args) > 1 else kw['fill_value'])
            if name[0] == 'f' and (isinstance(v, Arr) or dt == 'i' and self.dtype_of(v) in ('f', 'f4', 'pyf')):
                r = self.new(sst, sp, 0, dt)
                self.store(r, Ellipsis, v)
                return r
            r = self.new(sst, sp, v, dt)
            r.zerod = sst == () and sp is None
            return r
        if name in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfarray', 'atleast_1d', 'copy',
                    'atleast_2d', 'asarray_chkfinite'):
            x = args[0]
            d = args[1] if len(args) > 1 else kw.get('dtype')
            if name == 'atleast_1d':
                r = self.toarr(x)
                if r.sshape == () and r.space is None:
                    return Arr(r.buf, (), dict(r.imap), UNIT)
                return r
            if name == 'atleast_2d':
                self.unsupported(name)
            cp = name in ('array', 'copy') and kw.get('copy', True) is not False
            if isinstance(x, Arr) and not cp and d is not None and self.to_dt(d).k == x.buf.dtype:
                return x
            r = self.array(x, d, copy=cp)
            nd = kw.get('ndmin', 0)
            if nd == 1 and isinstance(r, Arr) and r.sshape == () and r.space is None:
                r.space = UNIT
            elif nd > 1 and len(self.shape(r)) < nd:
                self.unsupported('ndmin')
            return r
        if name == 'append':
            return self.append(*args, **kw)
        if name in ('concatenate', 'hstack', 'r_'):
            return self.concatenate(args[0], kw.get('axis', args[1] if len(args) > 1 else (0 if name == 'concatenate' else -1)))
        if name in ('stack', 'vstack', 'row_stack'):
            ax = kw.get('axis', args[1] if len(args) > 1 else 0)
            if ax != 0:
                self.unsupported('stack axis')
            items = [self.asarr(v) for v in it.to_list(args[0])]
            if name == 'vstack' and any(isinstance(v, Arr) and len(self.shape(v)) > 1 for v in items):
                parts = []
                for v in items:
                    parts += [self.index(v, i) for i in range(v.sshape[0])] if isinstance(v, Arr) and v.sshape and \
                        v.space is not None else [v]
                items = parts
            return self.array(items)
        if name in ('column_stack', 'dstack'):
            self.unsupported(name)
        if name == 'delete':
            return self.delete(*args, **kw)
        if name in ('nonzero', 'flatnonzero', 'argwhere'):
            m = self.asarr(args[0])
            if isinstance(m, Arr):
                if m.sshape:
                    self.unsupported(name)
                m = m.get()
            s = E.Sel(self.boolish(m), 'mask')
            return s if name == 'flatnonzero' else (s,)
        if name in REDUCE:
            wh = kw.pop('where', None)
            if wh is not None:
                self.unsupported('masked reduction')
            return self.reduce(name, args[0], args[1:], kw)
        if name == 'linalg.norm':
            return self.norm(*args, **kw)
        if name == 'cross':
            return self.cross(*args, **kw)
        if name in ('dot', 'matmul', 'linalg.multi_dot'):
            if name == 'linalg.multi_dot':
                r = args[0][0]
                for x in args[0][1:]:
                    r = self.matmul(r, x)
                return r
            return self.matmul(args[0], args[1])
        if name in ('inner', 'vdot'):
            return self.dot2(args[0], args[1])
        if name == 'einsum':
            return self.einsum(*args)
        if name == 'nditer':
            x = args[0]
            if isinstance(x, (list, tuple)):
                return MultiIter([NdIter(self.toarr(v)) for v in x], self)
            return NdIter(self.toarr(x))
        if name == 'ndindex':
            sh = args[0] if len(args) == 1 else tuple(args)
            sst, sp = self.parse_shape(sh)
            if sst or sp is None:
                return list(static_indices(sst)) if sp is None else self.unsupported('ndindex')
            return E.GenIter(lambda: mk('idx', size_of(sp)), size_of(sp))
        if name == 'ndenumerate':
            x = self.toarr(args[0])
            return E.GenIter(lambda: (mk('idx', size_of(x.space)), x.get()), size_of(x.space))
        if name == 'arange':
            return self.arange(args)
        if name in ('broadcast_to',):
            x = self.toarr(args[0])
            sst, sp = self.parse_shape(args[1] if len(args) > 1 else kw['shape'])
            r = self.new(sst, sp, 0, x.buf.dtype)
            self.store(r, Ellipsis, x)
            r.buf.maybe = [x.buf]
            return r
        if name == 'broadcast_arrays':
            xs = [self.asarr(a) for a in args]
            sst, sp, gs = self.broadcast(xs)
            out = []
            for x, g in zip(xs, gs):
                r = fresh(sst, sp, {k: g(k) for k in static_indices(sst)}, self.strong(self.dtype_of(x)))
                if isinstance(x, Arr):
                    r.buf.maybe = [x.buf]
                out.append(r)
            return out
        if name == 'broadcast_shapes':
            self.unsupported(name)
        if name in ('shape',):
            return self.shape(self.asarr(args[0]))
        if name == 'ndim':
            return len(self.shape(self.asarr(args[0])))
        if name == 'size':
            return self.arr_attr(self.toarr(args[0]), 'size')
        if name == 'reshape':
            return self.reshape(args[0], args[1] if len(args) > 1 else kw.get('shape', kw.get('newshape')))
        if name in ('ravel',):
            return self.method(self.toarr(args[0]), 'ravel', [], {})
        if name == 'squeeze':
            return self.method(self.toarr(args[0]), 'squeeze', [], {})
        if name == 'copyto':
            wh = kw.get('where')
            if wh is None:
                self.store(args[0], Ellipsis, args[1])
            else:
                self.store(args[0], Ellipsis, self.call_name('where', [wh, args[1], args[0]], {}))
            return None
        if name == 'putmask':
            self.store(args[0], Ellipsis, self.call_name('where', [args[1], args[2], args[0]], {}))
            return None
        if name == 'isclose':
            a, b = args[0], args[1]
            tol = dict(zip(('rtol', 'atol'), args[2:4]))
            tol.update({k: v for k, v in kw.items() if k in ('rtol', 'atol')})
            rt, at = tol.get('rtol', 1e-5), tol.get('atol', 1e-8)
            if any(isinstance(t, (Arr, str)) for t in (rt, at)):
                raise _eng().Unsupported('tolerances')
            if (rt, at) == (1e-5, 1e-8):
                return self.elementwise(lambda x, y: fn('isclose', x, y), [a, b], 'b')
            return self.elementwise(lambda x, y: fn('isclose', x, y, rt, at), [a, b], 'b')
        if name == 'allclose':
            r = self.call_name('isclose', args, kw)
            return self.reduce('all', r, [], {})
        if name == 'array_equal':
            r = self.compare('Eq', args[0], args[1])
            return self.reduce('all', r, [], {})
        if name == 'isscalar':
            return isinstance(args[0], (int, float, Node, str))
        if name == 'iterable':
            return isinstance(args[0], (list, tuple, str, dict)) or isinstance(args[0], Arr) and bool(self.shape(args[0]))
        if name in ('issubdtype',):
            d = self.to_dt(args[0])
            return self.subdtype(d, args[1])
        if name in ('result_type', 'promote_types', 'common_type', 'find_common_type'):
            ds = []
            for a in args:
                if isinstance(a, (Arr, Node, int, float)):
                    ds.append(self.dtype_of(a))
                else:
                    ds.append(self.to_dt(a).k)
            return E.DT(self.strong(join_dtype(*ds)))
        if name == 'dtype':
            return self.to_dt(args[0])
        if name == 'finfo':
            return E.Opaque('finfo')
        if name in ('errstate', 'seterr', 'printoptions', 'set_printoptions'):
            return None
        if name == 'vectorize':
            f = args[0]

            def vec(a, k):
                dt = 'f'
                return self.elementwise(lambda *xs: self.scalar_result(it.call(f, list(xs), k)), a, dt)
            return E.Builtin('vectorized', vec)
        if name == 'frompyfunc':
            f = args[0]
            return E.Builtin('ufunc', lambda a, k: self.elementwise(
                lambda *xs: self.scalar_result(it.call(f, list(xs), k)), a, 'f'))
        if name == 'apply_along_axis':
            self.unsupported(name)
        if name in ('bool_', 'float64', 'float32', 'int64', 'int32', 'intp', 'int_', 'double', 'float_'):
            return self.cast_scalar(args[0] if args else 0, self.to_dt(E.NpVal('numpy.' + name)))
        if name == 'eye' or name == 'identity':
            n = args[0]
            return fresh((n, n), None, {(i, j): 1 if i == j else 0 for i in range(n) for j in range(n)}, 'f')
        if name in ('swapaxes', 'transpose', 'moveaxis'):
            x = self.toarr(args[0])
            if x.space is None and len(x.sshape) == 2:
                return self.arr_attr(x, 'T')
            if name == 'swapaxes' and sorted(args[1:]) == [0, 1] and len(x.sshape) == 2:
                rs = (x.sshape[1], x.sshape[0])
                return Arr(x.buf, rs, {k: x.imap[(k[1], k[0])] for k in static_indices(rs)}, x.space)
            self.unsupported(name)
        if name == 'shares_memory' or name == 'may_share_memory':
            return mk('unk', name)
        if name in ('testing.assert_allclose',):
            return None
        if name == 'expand_dims':
            if args[1] in (-1, len(self.shape(args[0]))):
                return self.index(self.toarr(args[0]), (Ellipsis, None))
            self.unsupported(name)
        if name == 'tile' or name == 'repeat':
            x = self.asarr(args[0])
            if self.isscalar(x) or isinstance(x, Arr) and x.sshape == () and x.space in (None, UNIT):
                sst, sp = self.parse_shape(args[1])
                return self.new(sst, sp, x.get() if isinstance(x, Arr) else x, self.strong(self.dtype_of(x)))
            self.unsupported(name)
        if name == 'polyval':
            r = 0
            for c in it.to_list(args[0]):
                r = self.binop('Add', self.binop('Mult', r, args[1]), c)
            return r
        if name == 'ndarray':
            sst, sp = self.parse_shape(args[0])
            return self.new(sst, sp, self.uninit(), 'f')
        self.unsupported('numpy.' + name)

    def scalar_result(self, r):
        if isinstance(r, Arr) and r.sshape == () and r.space is None:
            return r.get()
        if isinstance(r, (Node, int, float, bool)):
            return r
        self.unsupported('vectorized result')

    def subdtype(self, d, t):
        E = _eng()
        if isinstance(t, E.NpVal):
            nm = t.path.split('.')[-1]
            table = {'floating': ('f', 'f4'), 'inexact': ('f', 'f4'), 'integer': ('i',), 'number': ('f', 'f4', 'i'),
                     'generic': ('f', 'f4', 'i', 'b'), 'signedinteger': ('i',), 'complexfloating': ()}
            if nm in table:
                if d.k not in ('f', 'f4', 'i', 'b'):
                    return mk('unk', 'dtype class')
                return d.k in table[nm]
        return d == self.to_dt(t)

    def arange(self, args):
        E = _eng()
        if len(args) == 1 and isinstance(args[0], Node):
            sp = space_of_size(args[0])
            return fresh((), sp, {(): mk('idx', args[0])}, 'i')
        if all(isinstance(a, int) for a in args):
            r = list(range(*args))
            return fresh((len(r),), None, {(i,): v for i, v in enumerate(r)}, 'i')
        if len(args) == 2 and isinstance(args[0], Node) and args[1] is not None:
            # the range of appended objects
            return E.Sel(mk('sel', 'range', args[0], args[1]), 'mask')
        self.unsupported('arange')

    def append(self, a, b, axis=None):
        a, b = self.toarr(a), self.toarr(b)
        return self.concatenate([a, b], axis, flat=axis is None)

    def concatenate(self, parts, axis=0, flat=False):
        E = _eng()
        parts = [self.toarr(p) for p in self.it.to_list(parts)]
        if len(parts) == 1:
            return self.copy(parts[0])
        out = parts[0]
        for b in parts[1:]:
            a = out
            nd = len(self.shape(a))
            if flat:
                if nd > 1 or a.sshape or b.sshape:
                    self.it.event('axis_mismatch', shape=a.sshape, space=a.space)
                    self.unsupported('flattening append')
                ax = 0
            else:
                ax = axis % nd if nd else 0
            dt = self.strong(join_dtype(a.buf.dtype, b.buf.dtype))
            if ax < len(a.sshape):
                if a.space != b.space and None not in (a.space, b.space):
                    self.join_space([a.space, b.space])
                n = a.sshape[ax]
                rest = b.sshape
                if len(rest) != len(a.sshape):
                    self.raise_('ValueError', 'concatenate')
                sst = a.sshape[:ax] + (n + b.sshape[ax],) + a.sshape[ax + 1:]
                cells = {}
                for k in static_indices(sst):
                    if k[ax] < n:
                        cells[k] = a.get(k)
                    else:
                        cells[k] = b.get(k[:ax] + (k[ax] - n,) + k[ax + 1:])
                out = fresh(sst, a.space if a.space is not None else b.space, cells, dt)
                continue
            # along the object axis
            if a.sshape != b.sshape:
                self.it.event('axis_mismatch', shape=b.sshape, space=b.space)
                self.raise_('ValueError', 'concatenate')
            if a.space is None or b.space is None:
                self.unsupported('concatenate 0-d')
            num = size_of(b.space)
            sp = ('cat', a.space, num)
            new = mk('isnew', sp)
            out = fresh(a.sshape, sp, {k: where(new, b.get(k), a.get(k)) for k in a.imap}, dt)
        return out

    def delete(self, a, sel, axis=None):
        E = _eng()
        a = self.toarr(a)
        nd = len(self.shape(a))
        if axis is None:
            if nd > 1:
                self.unsupported('flattening delete')
            axis = 0
        axis = axis % nd
        if axis < len(a.sshape):
            self.it.event('axis_mismatch', shape=a.sshape, space=a.space)
            if isinstance(sel, E.Sel):
                self.unsupported('deletion of elements instead of objects')
            n = a.sshape[axis]
            drop = {sel % n} if isinstance(sel, int) else None
            if drop is None:
                self.unsupported('delete')
            keep = [i for i in range(n) if i not in drop]
            sst = a.sshape[:axis] + (len(keep),) + a.sshape[axis + 1:]
            return fresh(sst, a.space, {k: a.get(k[:axis] + (keep[k[axis]],) + k[axis + 1:])
                                        for k in static_indices(sst)}, a.buf.dtype)
        key = sel.mask if isinstance(sel, E.Sel) else (sel.get() if isinstance(sel, Arr) else mk('sel', 'del', repr(sel)))
        return fresh(a.sshape, ('del', a.space, key), dict(a.items()), a.buf.dtype)

    # ------------------------------------------------------------ builtins
    def builtin(self, name):
        E = _eng()
        if self._bi is None:
            self._bi = self.make_builtins()
        if name in self._bi:
            return self._bi[name]
        o = getattr(_bi, name, None)
        if isinstance(o, type) and issubclass(o, BaseException):
            return E.ExcType(name)
        return E.MISSING

    def make_builtins(self):
        E = _eng()
        it = self.it
        B = E.Builtin

        def num1(f):
            def g(a, k):
                x = a[0]
                if isinstance(x, (int, float)) and not isinstance(x, bool):
                    return f(x)
                return None
            return g

        def b_len(a, k):
            x = a[0]
            if isinstance(x, Arr):
                s = self.shape(x)
                if not s:
                    self.raise_('TypeError', 'len of unsized object')
                return s[0]
            if isinstance(x, E.Obj):
                m = x.cls.lookup('__len__')
                if m is not E.MISSING:
                    return it.call(E.BoundM(m, x), [], {})
                self.raise_('TypeError', 'no len')
            if isinstance(x, (int, float, Node)) or x is None:
                self.raise_('TypeError', 'no len')
            if isinstance(x, E.DictView):
                return len(x.d)
            if isinstance(x, E.Sel):
                return mk('unk', 'length of a selection')
            if isinstance(x, (str, list, tuple, dict, set, range, type({}.keys()))):
                return len(x)
            if isinstance(x, (bool, slice)):
                self.raise_('TypeError', 'no len')
            if isinstance(x, E.Opq):
                return mk('unk', 'len of token')
            self.unsupported('len')

        def b_range(a, k):
            a = [x.get() if isinstance(x, Arr) else x for x in a]
            if all(isinstance(x, int) for x in a):
                return range(*a)
            if len(a) == 2 and a[0] == 0 and not isinstance(a[0], Node):
                a = a[1:]
            if len(a) == 1:
                n = a[0]
                return E.GenIter(lambda: mk('idx', n), n, bounds=(0, n, 1))
            n = mk('rangelen', *[x for x in a])
            return E.GenIter(lambda: mk('idx', n), n, bounds=(a[0], a[1], a[2] if len(a) > 2 else 1))

        def b_zip(a, k):
            ls = [it.concrete_iter(x) for x in a]
            if all(l is not None for l in ls):
                return list(zip(*ls))
            gs = [it.generic_iter(x) if l is None else None for x, l in zip(a, ls)]
            if any(g is None for g in gs):
                self.unsupported('zip of list and array')
            sz = gs[0].size
            for g in gs[1:]:
                if g.size is not sz and g.size != sz:
                    it.event('space_mismatch', a=sz, b=g.size, definite=None)
            return E.GenIter(lambda: tuple(g.elem() for g in gs), sz)

        def b_enumerate(a, k):
            l = it.concrete_iter(a[0])
            st = a[1] if len(a) > 1 else k.get('start', 0)
            if l is not None:
                return list(enumerate(l, st))
            g = it.generic_iter(a[0])
            return E.GenIter(lambda: (mk('idx', g.size), g.elem()), g.size)

        def b_isinstance(a, k):
            return self.isinstance(a[0], a[1])

        def b_next(a, k):
            x = a[0]
            if isinstance(x, NdIter):
                return self.nditer_elem(x)
            if isinstance(x, MultiIter):
                return tuple(self.nditer_elem(i) for i in x.its)
            if isinstance(x, E.ConcreteIter):
                p = x.pos[0]
                if p < len(x.items):
                    it.log_list(x.pos)
                    x.pos[0] = p + 1
                    return x.items[p]
                if len(a) > 1:
                    return a[1]
                self.raise_('StopIteration')
            if isinstance(x, E.Obj):
                m = x.cls.lookup('__next__')
                if m is not E.MISSING:
                    return it.call(E.BoundM(m, x), [], {})
            if isinstance(x, list):          # iterator over a comprehension
                if x:
                    return x[0]
                if len(a) > 1:
                    return a[1]
                self.raise_('StopIteration')
            if isinstance(x, E.GenIter):
                return x.elem()
            if isinstance(x, E.GenObj):
                v = it.run_generator(x)
                if v:
                    return v[0]
                self.raise_('StopIteration')
            self.unsupported('next')

        def b_iter(a, k):
            x = a[0]
            if isinstance(x, NdIter):
                return x
            if isinstance(x, E.Obj):
                m = x.cls.lookup('__iter__')
                if m is not E.MISSING:
                    return it.call(E.BoundM(m, x), [], {})
            l = it.concrete_iter(x)
            if l is not None:
                return E.ConcreteIter(l)
            return it.generic_iter(x)

        def b_minmax(nm):
            def f(a, k):
                xs = a if len(a) > 1 else it.concrete_iter(a[0])
                if xs is None:
                    return self.reduce(nm, a[0], [], {})
                if all(isinstance(x, (int, float)) for x in xs):
                    return (max if nm == 'max' else min)(xs)
                r = xs[0]
                for x in xs[1:]:
                    r = fn('maximum' if nm == 'max' else 'minimum', *order2(r, x))
                return r
            return f

        def b_sum(a, k):
            l = it.concrete_iter(a[0])
            if l is None:
                x = a[0]
                if isinstance(x, E.GenList):
                    x = self.array(x)
                return self.reduce('sum', x, [0], {})
            r = a[1] if len(a) > 1 else 0
            for x in l:
                r = self.binop('Add', r, x)
            return r

        def b_anyall(nm):
            def f(a, k):
                x = a[0]
                l = it.concrete_iter(x)
                if l is None:
                    if isinstance(x, E.GenList):
                        x = self.array(x)
                    return self.reduce(nm, x, [0], {})
                r = nm == 'all'
                for v in l:
                    t = it.truth(v)
                    r = and_(r, t) if nm == 'all' else or_(r, t)
                return r
            return f

        def b_type(a, k):
            x = a[0]
            if isinstance(x, E.Obj):
                return x.cls
            if isinstance(x, Arr):
                return E.NpVal('numpy.ndarray')
            if isinstance(x, str):
                return self._bi['str']
            if isinstance(x, bool):
                return self._bi['bool']
            if isinstance(x, int):
                return self._bi['int']
            if isinstance(x, (float, Node)):
                return self._bi['float']
            for t in ('list', 'tuple', 'dict', 'set'):
                if type(x).__name__ == t:
                    return self._bi[t]
            return E.Opaque('type')

        def b_float(a, k):
            x = a[0] if a else 0
            if isinstance(x, Arr):
                if x.sshape == () and x.space in (None, UNIT):
                    return x.get()
                self.it.event('type_error', what='float() of an array')
                self.raise_('TypeError', 'only length-1 arrays')
            if isinstance(x, str):
                try:
                    return float(x)
                except ValueError:
                    self.raise_('ValueError')
            if isinstance(x, (int, float)):
                return float(x)
            if isinstance(x, Node):
                return x
            self.raise_('TypeError')

        def b_int(a, k):
            x = a[0] if a else 0
            if isinstance(x, Arr):
                x = x.get()
            if isinstance(x, (int, float)):
                return int(x)
            if isinstance(x, str):
                return int(x)
            if isinstance(x, Node) and x.op in ('size', 'idx', 'var', 'add'):
                return x
            return fn('trunc', x)

        def b_bool(a, k):
            return it.truth(a[0]) if a else False

        def b_hasattr(a, k):
            n = len(it.events)
            try:
                it.getattr(a[0], a[1])
                return True
            except E.PyRaise:
                del it.events[n:]
                return False

        def b_getattr(a, k):
            if isinstance(a[1], E.Alt):
                return it.branch(a[1].cond, lambda: b_getattr([a[0], a[1].a] + a[2:], k),
                                 lambda: b_getattr([a[0], a[1].b] + a[2:], k))
            if not isinstance(a[1], str):
                self.unsupported('getattr name')
            n = len(it.events)
            try:
                return it.getattr(a[0], a[1])
            except E.PyRaise:
                if len(a) > 2:
                    del it.events[n:]
                    return a[2]
                raise

        def b_setattr(a, k):
            it.setattr(a[0], a[1], a[2])

        def b_dict(a, k):
            d = {}
            if a:
                x = a[0]
                if isinstance(x, E.DictView):
                    x = x.d
                if isinstance(x, dict):
                    d.update(x)
                elif isinstance(x, E.Opq):
                    d['**' + x.name] = x
                else:
                    for kk, v in it.to_list(x):
                        d[kk] = v
            d.update(k)
            return d

        def seq(t):
            def f(a, k):
                if not a:
                    return t()
                if isinstance(a[0], E.GenList):
                    return a[0]
                return t(it.to_list(a[0]))
            return f

        def b_map(a, k):
            ls = [it.concrete_iter(x) for x in a[1:]]
            if all(l is not None for l in ls):
                return [it.call(a[0], list(xs), {}) for xs in zip(*ls)]
            g = b_zip(a[1:], {})
            return E.GenIter(lambda: it.call(a[0], list(g.elem()), {}), g.size)

        def b_filter(a, k):
            out = []
            for x in it.to_list(a[1]):
                t = it.truth(it.call(a[0], [x], {}) if a[0] is not None else x)
                if not isinstance(t, bool):
                    self.unsupported('undetermined filter')
                if t:
                    out.append(x)
            return out

        def b_property(a, k):
            return E.PropVal(*(list(a) + [None] * (3 - len(a)))) if not k else E.PropVal(
                k.get('fget', a[0] if a else None), k.get('fset', a[1] if len(a) > 1 else None),
                k.get('fdel', None))

        def b_vars(a, k):
            return E.DictView(a[0].attrs, a[0]) if isinstance(a[0], E.Obj) else E.DictView(a[0].ns, a[0])

        def b_round(a, k):
            if isinstance(a[0], (int, float)):
                return round(*a)
            return self.unary('round', a[0])

        def b_slice(a, k):
            return slice(*a)

        def b_delattr(a, k):
            it.setd(a[0].attrs, a[1], E.MISSING)
        t = {
            'len': b_len, 'range': b_range, 'zip': b_zip, 'enumerate': b_enumerate, 'isinstance': b_isinstance,
            'next': b_next, 'iter': b_iter, 'max': b_minmax('max'), 'min': b_minmax('min'), 'sum': b_sum,
            'any': b_anyall('any'), 'all': b_anyall('all'), 'type': b_type, 'float': b_float, 'int': b_int,
            'bool': b_bool, 'hasattr': b_hasattr, 'getattr': b_getattr, 'setattr': b_setattr, 'dict': b_dict,
            'list': seq(list), 'tuple': seq(tuple), 'set': seq(set), 'frozenset': seq(frozenset), 'map': b_map,
            'filter': b_filter, 'property': b_property, 'vars': b_vars, 'round': b_round, 'slice': b_slice,
            'abs': lambda a, k: self.unary('abs', a[0]),
            'pow': lambda a, k: self.binop('Pow', a[0], a[1]),
            'divmod': lambda a, k: (self.binop('FloorDiv', *a), self.binop('Mod', *a)),
            'print': lambda a, k: None, 'str': lambda a, k: a[0] if a and isinstance(a[0], str) else '<str>',
            'repr': lambda a, k: '<repr>', 'format': lambda a, k: '<str>',
            'staticmethod': lambda a, k: E.StaticM(a[0]), 'classmethod': lambda a, k: E.ClassM(a[0]),
            'callable': lambda a, k: isinstance(a[0], (E.FuncVal, E.Builtin, E.NpVal, E.ClassVal, E.BoundM)),
            'id': lambda a, k: id(a[0]), 'hash': lambda a, k: mk('unk', 'hash'), 'delattr': b_delattr,
            'sorted': lambda a, k: sorted(it.to_list(a[0])), 'reversed': lambda a, k: list(reversed(it.to_list(a[0]))),
            'issubclass': lambda a, k: self.issubclass(a[0], a[1]),
            'object': lambda a, k: E.Opaque('object'), 'locals': lambda a, k: self.unsupported('locals'),
            'globals': lambda a, k: E.DictView(it.callstack[-1].module.ns, it.callstack[-1].module),
        }
        out = {k: B(k, v) for k, v in t.items()}
        out['Ellipsis'] = Ellipsis
        out['NotImplemented'] = E.Opaque('NotImplemented')
        out['__name__'] = '__repo__'
        out['__debug__'] = True
        return out

    def nditer_elem(self, x):
        a = x.arr
        if a.sshape:
            if a.space is None or a.space == UNIT:
                self.unsupported('nditer over static axes')
            self.unsupported('nditer over several axes')
        if not self.genloop:
            if a.space in (None, UNIT):
                return Arr(a.buf, (), dict(a.imap), None, zerod=True)
            self.unsupported('nditer outside a loop')
        return Arr(a.buf, (), dict(a.imap), None, zerod=True, elem=size_of(a.space))

    def issubclass(self, a, b):
        E = _eng()
        if isinstance(a, E.ClassVal):
            if a is b:
                return True
            return any(self.issubclass(x, b) for x in a.bases)
        if isinstance(a, E.ExcType) and isinstance(b, E.ExcType):
            return b.name in a.names()
        return a == b

    def isinstance(self, x, t):
        E = _eng()
        if isinstance(t, tuple):
            r = False
            for y in t:
                r = or_(r, self.isinstance(x, y))
            return r
        if isinstance(x, E.Alt):
            return self.it.phi(x.cond, self.isinstance(x.a, t), self.isinstance(x.b, t))
        if isinstance(t, E.Builtin):
            n = t.name
            if n == 'object':
                return True
            if isinstance(x, E.Sel):
                if x.kind == 'any':
                    return mk('unk', 'kind of selection')
                return {'int': x.kind == 'int', 'slice': x.kind in ('slice', 'all'), 'list': x.kind == 'list'}.get(n, False)
            if isinstance(x, Node):
                b = num_dtype(x) == 'b'
                if n == 'float':
                    return not b and num_dtype(x) != 'pyi'
                if n == 'int':
                    return num_dtype(x) == 'pyi'
                if n == 'bool':
                    return b
                return False
            if isinstance(x, E.DictView):
                return n == 'dict'
            py = {'float': float, 'int': int, 'bool': bool, 'str': str, 'list': list, 'tuple': tuple, 'dict': dict,
                  'set': set, 'slice': slice, 'range': range, 'frozenset': frozenset}.get(n)
            if py is None:
                return False
            return isinstance(x, py)
        if isinstance(t, E.NpVal):
            nm = t.path.split('.')[-1]
            if nm == 'ndarray':
                if isinstance(x, E.Sel):
                    if x.kind == 'any':
                        return mk('unk', 'kind of selection')
                    return x.kind == 'mask'
                return isinstance(x, Arr)
            if nm in ('Number', 'Real'):
                return isinstance(x, (int, float, Node))
            if nm in ('Integral', 'integer'):
                if isinstance(x, E.Sel):
                    return mk('unk', 'kind') if x.kind == 'any' else False
                return isinstance(x, int) and nm == 'Integral'
            if nm in ('floating', 'generic', 'number', 'inexact', 'float64', 'float32', 'int64', 'bool_'):
                if isinstance(x, Node):
                    return mk('unk', 'numpy scalar type')
                return False
            if nm in ('Iterable', 'Sequence'):
                return isinstance(x, (list, tuple, Arr, dict, str))
            if nm in ('Mapping', 'MutableMapping'):
                return isinstance(x, (dict, E.DictView))
            return False
        if isinstance(t, E.ClassVal):
            if isinstance(x, E.Obj):
                return self.issubclass(x.cls, t)
            if isinstance(x, E.ExcVal):
                return t.name in x.names
            return False
        if isinstance(t, E.ExcType):
            return isinstance(x, E.ExcVal) and t.name in x.names
        if isinstance(t, E.Opaque):
            return mk('unk', 'isinstance')
        self.unsupported('isinstance')


class MultiIter:
    def __init__(self, its, np):
        self.its = its


class Transposed:
    """(objects, elements) view of an array"""

    def __init__(self, a):
        self.a = a


class SysModules:
    def __init__(self, it):
        self.it = it


def reduce_node(name, space, v):
    """reduction of the generic element over the object axis"""
    if name == 'any' and v is False:
        return False
    if name == 'all' and v is True:
        return True
    if name in ('sum', 'count_nonzero'):
        if isinstance(v, Node) and v.op == 'where' and all(isnum(x) for x in v.args[1:]):
            if v.args[1] == 1 and v.args[2] == 0:
                v = v.args[0]
            elif v.args[1] == 0 and v.args[2] == 1:
                v = not_(v.args[0])
        if v is False or (isinstance(v, int) and v == 0):
            return 0
        if v is True or (isinstance(v, int) and v == 1):
            return size_of(space)
    return mk('reduce', name, space, v)

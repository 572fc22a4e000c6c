"""Abstract interpreter for the Python subset the repository is written in.

Values are value numbers (`core.Node`), not program data: a run visits every
statement once per call context and joins the states of undetermined branches
with gates (`where`), so the result of a call is one gated value graph.
"""
import ast
import copy
import os
import builtins as _bi
from .core import *          # noqa
from . import core as C


class Unsupported(Exception):
    pass


class NoJoin(Unsupported):
    """two arms of a branch leave states without a common description"""


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Ctl(Exception):
    kind = None

    def __init__(self, value=None):
        self.value = value


class Ret(Ctl):
    kind = 'func'


class Brk(Ctl):
    kind = 'loop'


class Cont(Ctl):
    kind = 'body'


MISSING = type('Missing', (), {'__repr__': lambda s: 'MISSING'})()


class FuncVal:
    def __init__(self, node, scope, name, module, cls=None):
        self.node, self.scope, self.name, self.module, self.cls = node, scope, name, module, cls
        self.defaults = []
        self.kwdefaults = {}
        self.attrs = {}
        self.is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(node))
        self.kind = None
        self.memo = False       # results are kept and handed out again

    @property
    def qualname(self):
        return '%s.%s%s' % (self.module.name, (self.cls.name + '.') if self.cls else '', self.name)

    def __repr__(self):
        return '<func %s>' % self.qualname


def walk_own(fn):
    """nodes of a function body, not of nested functions"""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def own_level(stmts):
    """statements of a loop body, not those of nested functions or loops"""
    todo = list(stmts)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.For, ast.While)):
            continue
        todo.extend(x for x in ast.iter_child_nodes(n) if isinstance(x, (ast.stmt, ast.excepthandler)))


def leaves_loop(s):
    return any(isinstance(x, (ast.Break, ast.Return)) for x in own_level(s.body))


class NoReturn(ast.NodeTransformer):
    """return in a loop as assignments and a break"""

    def __init__(self, done, names):
        self.done, self.names = done, names

    def visit_Return(self, n):
        vals = n.value.elts if isinstance(n.value, ast.Tuple) else [n.value or ast.Constant(None)]
        out = [ast.Assign([ast.Name(x, ast.Store())], v) for x, v in zip(self.names, vals)]
        out += [ast.Assign([ast.Name(self.done, ast.Store())], ast.Constant(True)), ast.Break()]
        for o in out:
            for y in ast.walk(o):
                if not hasattr(y, 'lineno') and isinstance(y, (ast.stmt, ast.expr)):
                    y.lineno, y.col_offset = n.lineno, 0
        return out

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_For = visit_While = visit_FunctionDef


class ClassVal:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module

    def lookup(self, name):
        if name in self.ns:
            return self.ns[name]
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.lookup(name)
                if r is not MISSING:
                    return r
        return MISSING

    def is_exc(self):
        return any(isinstance(b, ExcType) or (isinstance(b, ClassVal) and b.is_exc())
                   for b in self.bases)

    def exc_names(self):
        out = [self.name]
        for b in self.bases:
            if isinstance(b, ExcType):
                out += b.names()
            elif isinstance(b, ClassVal):
                out += b.exc_names()
        return out

    def __repr__(self):
        return '<class %s>' % self.name


class ExcType:
    def __init__(self, name):
        self.name = name

    def names(self):
        t = getattr(_bi, self.name, Exception)
        return [c.__name__ for c in t.__mro__]

    def __repr__(self):
        return '<exc %s>' % self.name


class ExcVal:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    @property
    def names(self):
        return self.cls.names() if isinstance(self.cls, ExcType) else self.cls.exc_names()

    @property
    def name(self):
        return self.cls.name

    def __repr__(self):
        return '%s(...)' % self.name


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return '<obj %s>' % getattr(self.cls, 'name', self.cls)


class BoundM:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class PropVal:
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class ModVal:
    def __init__(self, name, path=None):
        self.name, self.path = name, path
        self.ns = {}

    def __repr__(self):
        return '<module %s>' % self.name


class NpVal:
    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, NpVal) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return '<%s>' % self.path


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class DT:
    """a dtype: 'f' float64, 'f4' float32, 'i' integer, 'b' bool"""

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, DT) and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'dtype(%s)' % self.k


class Sel:
    """selection of objects along the object axis; `mask` is its membership
    predicate for the generic object"""

    def __init__(self, mask, kind='any', space=None):
        self.mask, self.kind, self.space = mask, kind, space

    def __repr__(self):
        return 'Sel(%s,%s)' % (self.kind, show(self.mask))


class GenIter:
    """iterator visiting the generic object: elem() gives the loop value"""

    def __init__(self, elem, size, full=True, bounds=None):
        self.elem, self.size, self.full, self.bounds = elem, size, full, bounds


class GenObj:
    """generator object of a generator function of the repository"""

    def __init__(self, func, scope):
        self.func, self.scope = func, scope


class Opaque:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<opaque %s>' % self.name


class DictView:
    """__dict__ of an object"""

    def __init__(self, d, owner):
        self.d, self.owner = d, owner


class Scope:
    def __init__(self, parent=None, glob=None, fn=None):
        self.vars = {}
        self.parent = parent
        self.glob = glob            # ModVal
        self.fn = fn
        self.cls = None
        self.globals_decl = set()
        self.nonlocal_decl = set()


class Frame:
    def __init__(self, kind, mark, condmark):
        self.kind, self.mark, self.condmark = kind, mark, condmark
        self.exits = []
        self.breaks = []
        self.hit = False


_EXPR = {}


class Interp:
    MAXSTEPS = 400000

    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        self.trail = []
        self.conds = []
        self.facts = {}
        self.frames = []
        self.dup = 0
        self.events = []
        self.loops = []
        self.callstack = []
        self.intrinsics = {}
        self.steps = 0
        self.line = 0
        self.visited = set()       # (qualname) of functions entered
        self.callsites = set()
        self.yields = []
        from . import npmodel
        self.np = npmodel.NumPy(self)
        self.sysmodules = {}
        self.finite_mode = False

    # ------------------------------------------------------------ bookkeeping
    def event(self, kind, **kw):
        fn = self.callstack[-1] if self.callstack else None
        ev = dict(kind=kind, func=fn.qualname if isinstance(fn, FuncVal) else str(fn),
                  file=fn.module.path if isinstance(fn, FuncVal) else None, line=self.line,
                  conds=tuple(self.conds), **kw)
        ev['stack'] = tuple(f.qualname for f in self.callstack)
        self.events.append(ev)
        return ev

    def setd(self, d, k, v):
        self.trail.append((d, k, d.get(k, MISSING)))
        if v is MISSING:
            d.pop(k, None)
        else:
            d[k] = v

    def log_list(self, lst):
        self.trail.append((lst, None, list(lst)))

    def undo(self, mark):
        while len(self.trail) > mark:
            d, k, old = self.trail.pop()
            if isinstance(d, list):
                d[:] = old
            elif old is MISSING:
                d.pop(k, None)
            else:
                d[k] = old

    def collect(self, mark):
        out = {}
        for d, k, old in self.trail[mark:]:
            key = (id(d), k)
            if isinstance(d, list):
                out[key] = (d, k, list(d))
            else:
                out[key] = (d, k, d.get(k, MISSING))
        return out

    def originals(self, mark):
        out = {}
        for d, k, old in self.trail[mark:]:
            out.setdefault((id(d), k), old)
        return out

    @staticmethod
    def cur(d, k):
        if isinstance(d, list):
            return list(d)
        return d.get(k, MISSING)

    def write(self, d, k, v):
        if isinstance(d, list):
            self.log_list(d)
            d[:] = v
        else:
            self.setd(d, k, v)

    # ------------------------------------------------------------ joins
    def phi(self, cond, a, b):
        if a is MISSING:
            return b
        if b is MISSING:
            return a
        if a is b:
            return a
        if isinstance(cond, bool):
            return a if cond else b
        if isconst(a) and isconst(b) and type(a) is type(b) and (a == b or a != a and b != b):
            return a
        num = lambda x: isinstance(x, (int, float, bool, Node))
        if num(a) and num(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return cond if a else not_(cond)
            return where(cond, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.phi(cond, x, y) for x, y in zip(a, b))
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.phi(cond, x, y) for x, y in zip(a, b)]
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.buf is b.buf and a.sshape == b.sshape and a.imap == b.imap and a.space == b.space:
                return a
            if a.sshape == b.sshape and a.space == b.space:
                cells = {k: self.phi(cond, a.get(k), b.get(k)) for k in a.imap}
                r = fresh(a.sshape, a.space, cells, join_dtype(a.buf.dtype, b.buf.dtype),
                          origin='fresh')
                r.buf.maybe = [a.buf, b.buf]
                if a.buf.origin != 'fresh' or b.buf.origin != 'fresh':
                    r.buf.origin = a.buf.origin if a.buf.origin != 'fresh' else b.buf.origin
                return r
        if num(a) and isinstance(b, Arr) and b.sshape == () and b.space is None:
            return self.phi(cond, a, b.get())
        if num(b) and isinstance(a, Arr) and a.sshape == () and a.space is None:
            return self.phi(cond, a.get(), b)
        if isinstance(a, DT) and isinstance(b, DT) and a == b:
            return a
        if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
            return {k: self.phi(cond, a[k], b[k]) for k in a}
        if isinstance(a, NpVal) and a == b:
            return a
        if isinstance(a, (FuncVal, ClassVal, ModVal, Builtin)) or \
                isinstance(b, (FuncVal, ClassVal, ModVal, Builtin)) or a is None or b is None:
            return Alt(cond, a, b)
        plain = (str, bytes, dict, tuple, list, set, frozenset, slice, range, DT, NpVal, BoundM, PartialV, Alt, ExcVal, Obj)
        if isinstance(a, plain) and (isinstance(b, plain) or num(b)) or isinstance(b, plain) and num(a):
            return Alt(cond, a, b)
        return mk('unk', 'join of %s and %s' % (type(a).__name__, type(b).__name__))

    def truth(self, v):
        """True/False or a condition node"""
        if isinstance(v, Node):
            if v.id in self.facts:
                return self.facts[v.id]
            if v.op == 'not':
                t = self.truth(v.args[0])
                return not t if isinstance(t, bool) else v
            if v.op == 'and':
                a, b = self.truth(v.args[0]), self.truth(v.args[1])
                if a is False or b is False:
                    return False
                if a is True:
                    return b
                if b is True:
                    return a
                return v
            if v.op == 'or':
                a, b = self.truth(v.args[0]), self.truth(v.args[1])
                if a is True or b is True:
                    return True
                if a is False:
                    return b
                if b is False:
                    return a
                return v
            if v.op == 'nan':
                return True
            if v.op in BOOLOPS or v.op in ('unk', 'var', 'fn', 'where', 'phi', 'reduce', 'anyall',
                                           'call', 'isnew', 'sel'):
                return v
            if v.op == 'size':
                return cmp('ne', v, 0)
            return not_(cmp('eq', v, 0))
        if isinstance(v, Arr):
            if v.sshape == () and v.space in (None, UNIT):
                return self.truth(v.get())
            if v.sshape == () and v.space is not None:
                self.event('truth_of_array')
                raise PyRaise(ExcVal(ExcType('ValueError'), ('truth of array',)))
            raise PyRaise(ExcVal(ExcType('ValueError'), ('truth of array',)))
        if isinstance(v, (Obj,)):
            m = v.cls.lookup('__bool__') if isinstance(v.cls, ClassVal) else MISSING
            if m is not MISSING:
                return self.truth(self.call(BoundM(m, v), [], {}))
            m = v.cls.lookup('__len__') if isinstance(v.cls, ClassVal) else MISSING
            if m is not MISSING:
                return self.truth(self.call(BoundM(m, v), [], {}))
            return True
        if isinstance(v, Alt):
            return self.phi(v.cond, self.truth(v.a), self.truth(v.b))
        if isinstance(v, (FuncVal, ClassVal, ModVal, NpVal, Builtin, BoundM, DT, ExcVal, Sel,
                          GenIter, Opaque)):
            return True
        return bool(v)

    # ------------------------------------------------------------ branching
    def attempt(self, f):
        try:
            return ('fall', f())
        except Ctl as c:
            return (c.kind, c)
        except PyRaise as p:
            return ('raise', p)

    def branch(self, cond, f1, f2):
        cond = self.truth(cond)
        if cond is True:
            return f1()
        if cond is False:
            return f2()
        mark = len(self.trail)
        facts = dict(self.facts)

        def arm(val, f):
            self.conds.append((cond, val))
            self.assume_fact(cond, val)
            r = self.attempt(f)
            return r
        k1, v1 = arm(True, f1)
        fr1 = None
        if k1 not in ('fall', 'raise'):
            fr1 = self.frame_of(k1)
            ex1 = self.exit_of(fr1, v1)
        W1 = self.collect(mark)
        self.undo(mark)
        self.conds.pop()
        self.facts = dict(facts)
        k2, v2 = arm(False, f2)
        if k2 not in ('fall', 'raise'):
            fr2 = self.frame_of(k2)
            ex2 = self.exit_of(fr2, v2)
        W2 = self.collect(mark)
        self.undo(mark)
        self.conds.pop()
        self.facts = dict(facts)
        if k1 == 'raise' and k2 == 'raise':
            self.event('guarded_raise', exc=v1.exc, cond=cond)
            self.apply(W2)
            raise v2
        if k1 == 'raise':
            self.event('guarded_raise', exc=v1.exc, cond=cond)
            self.apply(W2)
            self.assume_fact(cond, False)
            if k2 == 'fall':
                return v2
            raise v2
        if k2 == 'raise':
            self.event('guarded_raise', exc=v2.exc, cond=not_(cond))
            self.apply(W1)
            self.assume_fact(cond, True)
            if k1 == 'fall':
                return v1
            raise v1
        if k1 == k2:
            self.merge(cond, W1, W2)
            if k1 == 'fall':
                return self.phi(cond, v1, v2)
            raise type(v1)(self.phi(cond, v1.value, v2.value))
        if k1 == 'fall':
            fr2.exits.append(ex2)
            self.apply(W1)
            self.assume_fact(cond, True)
            return v1
        fr1.exits.append(ex1)
        self.apply(W2)
        self.assume_fact(cond, False)
        if k2 == 'fall':
            return v2
        raise v2

    def assume_fact(self, cond, val):
        if isinstance(cond, Node):
            self.facts[cond.id] = val
            if cond.op == 'not':
                self.assume_fact(cond.args[0], not val)
            elif cond.op == 'and' and val:
                self.assume_fact(cond.args[0], True)
                self.assume_fact(cond.args[1], True)
            elif cond.op == 'or' and not val:
                self.assume_fact(cond.args[0], False)
                self.assume_fact(cond.args[1], False)
            elif cond.op in ('lt', 'le', 'eq') and val:
                a, b = cond.args
                for op in ('lt', 'eq'):
                    for x, y in ((a, b), (b, a)):
                        other = cmp(op, x, y)
                        if isinstance(other, Node) and other is not cond and \
                                not (cond.op == 'le') and not (op == 'eq' and cond.op == 'eq'):
                            self.facts[other.id] = False

    def frame_of(self, kind):
        for fr in reversed(self.frames):
            if fr.kind == kind:
                return fr
        raise Unsupported('control flow outside a frame: %s' % kind)

    def exit_of(self, fr, ctl):
        guard = True
        for c, v in self.conds[fr.condmark:]:
            guard = and_(guard, c if v else not_(c))
        return (guard, self.collect(fr.mark), ctl.value)

    def apply(self, W):
        for d, k, v in W.values():
            self.write(d, k, v)

    def merge(self, cond, W1, W2):
        for key in list(W1) + [k for k in W2 if k not in W1]:
            d, k, _ = W1.get(key) or W2.get(key)
            base = self.cur(d, k)
            a = W1[key][2] if key in W1 else base
            b = W2[key][2] if key in W2 else base
            if isinstance(d, list):
                if len(a) == len(b):
                    self.write(d, k, [self.phi(cond, x, y) for x, y in zip(a, b)])
                else:
                    raise NoJoin('join of lists of different length')
                continue
            if k in ('sshape', 'imap', 'space') and a != b and a is not MISSING and b is not MISSING:
                raise NoJoin('join of different array shapes')
            self.write(d, k, self.phi(cond, a, b))

    def run_frame(self, kind, f):
        """run f as target of one kind of jump; returns its value"""
        fr = Frame(kind, len(self.trail), len(self.conds))
        self.frames.append(fr)
        depth = len(self.frames)
        facts = dict(self.facts)
        pend = None
        try:
            try:
                val = f()
                if kind == 'func':
                    val = None
            except Ctl as c:
                if c.kind == kind:
                    val = c.value
                    fr.hit = True
                elif fr.exits:
                    outer = self.frame_of(c.kind)
                    outer.exits.append(self.exit_of(outer, c))
                    pend = 'exits'
                else:
                    raise
            except PyRaise as p:
                if not fr.exits:
                    raise
                self.event('guarded_raise', exc=p.exc, cond=True)
                pend = 'exits'
        finally:
            del self.frames[depth - 1:]
        if fr.exits:
            self.facts = facts
        exits = fr.exits
        if pend == 'exits':
            guard, W, val = exits[-1]
            self.undo(fr.mark)
            self.apply(W)
            exits = exits[:-1]
        for guard, W, v in reversed(exits):
            orig = self.originals(fr.mark)
            now = self.collect(fr.mark)
            W1 = {}
            for key in list(now) + [k for k in W if k not in now]:
                d, k, _ = now.get(key) or W.get(key)
                if key in W:
                    W1[key] = W[key]
                else:
                    W1[key] = (d, k, orig[key])
            self.merge(guard, W1, {})
            val = self.phi(guard, v, val)
        return val

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path += '.py'
        if not os.path.exists(path):
            raise PyRaise(ExcVal(ExcType('ModuleNotFoundError'), (name,)))
        m = ModVal(name, path)
        self.modules[name] = m
        with open(path) as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        m.tree = tree
        m.ns['__name__'] = name
        m.ns['__file__'] = path
        m.ns['__doc__'] = ast.get_docstring(tree)
        sc = Scope(glob=m)
        sc.vars = m.ns
        fake = FuncVal(ast.parse('lambda: 0').body[0].value, sc, '<module>', m)
        self.callstack.append(fake)
        try:
            self.exec_block(tree.body, sc)
        finally:
            self.callstack.pop()
        if name in self.sysmodules:
            self.modules[name] = self.sysmodules[name]
        return self.modules[name]

    def load_source(self, name, src, path='<spec>'):
        '''interpret a definition of the analysis itself (reference formulas,
        usage snippets) with the same semantics'''
        m = ModVal(name, path)
        tree = ast.parse(src, path)
        m.tree = tree
        m.ns['__name__'] = name
        sc = Scope(glob=m)
        sc.vars = m.ns
        self.callstack.append(FuncVal(ast.parse('lambda: 0').body[0].value, sc, '<module>', m))
        try:
            self.exec_block(tree.body, sc)
        finally:
            self.callstack.pop()
        return m

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, sc):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If):
                c = self.truth(self.eval(s.test, sc))
                if not isinstance(c, bool):
                    self.line = s.lineno
                    mark, conds, events = len(self.trail), len(self.conds), len(self.events)
                    exits = [(fr, list(fr.exits), fr.hit) for fr in self.frames]
                    facts, stack = dict(self.facts), list(self.callstack)
                    try:
                        self.branch(c, lambda: self.exec_block(s.body, sc),
                                    lambda: self.exec_block(s.orelse, sc))
                    except NoJoin:
                        rest = stmts[i + 1:]
                        if not rest or self.dup > 4:
                            raise
                        # no common state after the statement: what follows it is run per arm
                        self.undo(mark)
                        del self.conds[conds:], self.events[events:]
                        del self.frames[len(exits):]
                        for fr, ex, hit in exits:
                            fr.exits[:] = ex
                            fr.hit = hit
                        self.facts, self.callstack[:] = facts, stack
                        self.dup += 1
                        try:
                            self.branch(c, lambda: self.exec_block(s.body + rest, sc),
                                        lambda: self.exec_block(s.orelse + rest, sc))
                        finally:
                            self.dup -= 1
                        return
                    continue
                self.exec_block(s.body if c else s.orelse, sc)
                continue
            self.exec(s, sc)

    def exec(self, s, sc):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Unsupported('step limit')
        self.line = getattr(s, 'lineno', self.line)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, sc)

    def s_Expr(self, s, sc):
        self.eval(s.value, sc)

    def s_Pass(self, s, sc):
        pass

    def s_Global(self, s, sc):
        sc.globals_decl.update(s.names)

    def s_Nonlocal(self, s, sc):
        sc.nonlocal_decl.update(s.names)

    def s_Return(self, s, sc):
        raise Ret(self.eval(s.value, sc) if s.value else None)

    def s_Break(self, s, sc):
        raise Brk()

    def s_Continue(self, s, sc):
        raise Cont()

    def s_Import(self, s, sc):
        for a in s.names:
            top = a.name.split('.')[0]
            if a.asname:
                self.setvar(sc, a.asname, self.import_mod(a.name, sc))
            else:
                self.import_mod(a.name, sc)
                self.setvar(sc, top, self.import_mod(top, sc))

    def import_mod(self, name, sc):
        if name.split('.')[0] == 'numpy':
            return NpVal(name)
        if name.split('.')[0] in ('sys', 'copy', 'math', 'warnings', 'functools', 'collections',
                                  'itertools', 'operator', 'numbers', 'os', 'typing', 'types', 'enum',
                                  'contextlib', 'abc', 'dataclasses', 'logging', '__future__', 're',
                                  'datetime', 'textwrap', 'inspect'):
            return NpVal(name)
        if name.split('.')[0] == 'pyorb':
            return self.load(name)
        return Opaque('module ' + name)

    def s_ImportFrom(self, s, sc):
        pkg = sc.glob.name
        if s.level:
            base = pkg.split('.')
            if not sc.glob.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        if name == '__future__':
            return
        mod = self.import_mod(name, sc)
        for a in s.names:
            if a.name == '*':
                if isinstance(mod, ModVal):
                    pub = mod.ns.get('__all__') or [k for k in mod.ns if not k.startswith('_')]
                    for k in pub:
                        self.setvar(sc, k, mod.ns[k])
                continue
            v = MISSING
            try:
                v = self.getattr(mod, a.name)
            except PyRaise:
                try:
                    v = self.load(name + '.' + a.name)
                except PyRaise:
                    self.event('import_error', name='%s.%s' % (name, a.name))
                    raise PyRaise(ExcVal(ExcType('ImportError'), ('%s.%s' % (name, a.name),)))
            self.setvar(sc, a.asname or a.name, v)

    def make_func(self, node, sc, name):
        cls = sc.cls
        f = FuncVal(node, sc, name, sc.glob, cls)
        a = node.args
        f.defaults = [self.eval(d, sc) for d in a.defaults]
        f.kwdefaults = {k.arg: self.eval(d, sc) for k, d in zip(a.kwonlyargs, a.kw_defaults)
                        if d is not None}
        f.mangle = sc.cls_name if getattr(sc, 'cls_name', None) else \
            (sc.fn.mangle if sc.fn is not None else None)
        return f

    def s_FunctionDef(self, s, sc):
        f = self.make_func(s, sc, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.eval(d, sc)
            v = self.call(dv, [v], {})
        self.setvar(sc, self.mangle(s.name, sc), v)

    def s_ClassDef(self, s, sc):
        bases = [self.eval(b, sc) for b in s.bases]
        csc = Scope(parent=sc, glob=sc.glob, fn=sc.fn)
        cls = ClassVal(s.name, bases, csc.vars, sc.glob)
        csc.cls = cls
        csc.cls_name = s.name
        csc.is_class = True
        csc.vars['__module__'] = sc.glob.name
        csc.vars['__qualname__'] = s.name
        self.exec_block(s.body, csc)
        v = cls
        cls.node = s
        for d in reversed(s.decorator_list):
            dv = self.eval(d, sc)
            v = self.call(dv, [v], {})
        self.setvar(sc, s.name, v)

    def s_Assign(self, s, sc):
        v = self.eval(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, s, sc):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, sc), sc)

    def s_AugAssign(self, s, sc):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, sc)
            v = self.eval(s.value, sc)
            if isinstance(old, Arr):
                self.np.inplace(old, op, v)
                # rebinding to the same object
                self.setvar(sc, t.id, old)
                return
            if isinstance(old, list) and op == 'Add':
                self.log_list(old)
                old.extend(self.to_list(v))
                return
            self.setvar(sc, t.id, self.np.binop(op, old, v))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc)
            name = self.mangle(t.attr, sc)
            old = self.getattr(o, name)
            v = self.eval(s.value, sc)
            if isinstance(old, Arr):
                self.np.inplace(old, op, v)
                self.setattr(o, name, old)
                return
            self.setattr(o, name, self.np.binop(op, old, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            k = self.eval(t.slice, sc)
            old = self.getitem(o, k)
            v = self.eval(s.value, sc)
            if isinstance(old, Arr) and isinstance(o, (list, dict)):
                # the element itself is changed
                self.np.inplace(old, op, v)
                self.setitem(o, k, old)
                return
            if isinstance(old, list) and op == 'Add':
                self.log_list(old)
                old.extend(self.to_list(v))
                self.setitem(o, k, old)
                return
            self.setitem(o, k, self.np.binop(op, old, v))
        else:
            raise Unsupported('augmented assignment')

    def s_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, sc)
                k = self.eval(t.slice, sc)
                if isinstance(o, dict):
                    if k not in o:
                        raise PyRaise(ExcVal(ExcType('KeyError'), (k,)))
                    self.setd(o, k, MISSING)
                elif isinstance(o, DictView):
                    self.setd(o.d, k, MISSING)
                elif isinstance(o, list):
                    self.log_list(o)
                    del o[k]
                else:
                    raise Unsupported('del item')
            elif isinstance(t, ast.Name):
                self.setd(sc.vars, t.id, MISSING)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, sc)
                if isinstance(o, Obj):
                    da = o.cls.lookup('__delattr__') if isinstance(o.cls, ClassVal) else MISSING
                    if da is not MISSING:
                        self.call(BoundM(da, o), [self.mangle(t.attr, sc)], {})
                    else:
                        self.setd(o.attrs, self.mangle(t.attr, sc), MISSING)
                else:
                    raise Unsupported('del attribute')
            else:
                raise Unsupported('del')

    def s_If(self, s, sc):
        self.exec_block([s], sc)

    def s_Match(self, s, sc):
        v = self.eval(s.subject, sc)

        def test(p, v):
            '''(condition, names bound)'''
            if isinstance(p, ast.MatchValue):
                return self.truth(self.compare('Eq', v, self.eval(p.value, sc))), []
            if isinstance(p, ast.MatchSingleton):
                return self.truth(self.compare('Is', v, p.value)), []
            if isinstance(p, ast.MatchAs):
                c, n = (True, []) if p.pattern is None else test(p.pattern, v)
                return c, n + ([(p.name, v)] if p.name else [])
            if isinstance(p, ast.MatchOr):
                r = False
                for q in p.patterns:
                    c, n = test(q, v)
                    if n:
                        raise Unsupported('names in alternatives')
                    r = or_(r, c)
                return r, []
            if isinstance(p, ast.MatchClass) and not p.kwd_patterns and len(p.patterns) <= 1:
                c = self.truth(self.np.isinstance(v, self.eval(p.cls, sc)))
                if not p.patterns or c is False:
                    return c, []
                d, n = test(p.patterns[0], v)
                return and_(c, d), n
            if isinstance(p, ast.MatchSequence) and isinstance(v, (list, tuple)) and not any(
                    isinstance(q, ast.MatchStar) for q in p.patterns):
                if len(v) != len(p.patterns):
                    return False, []
                r, names = True, []
                for q, x in zip(p.patterns, v):
                    c, n = test(q, x)
                    r = and_(r, c)
                    names += n
                return r, names
            raise Unsupported('pattern %s' % type(p).__name__)

        def case(i):
            if i == len(s.cases):
                return
            k = s.cases[i]
            c, names = test(k.pattern, v)

            def body():
                for n, x in names:
                    self.setvar(sc, n, x)
                if k.guard is None:
                    return self.exec_block(k.body, sc)
                self.branch(self.eval(k.guard, sc), lambda: self.exec_block(k.body, sc), lambda: case(i + 1))
            self.branch(c, body, lambda: case(i + 1))
        case(0)

    def s_Assert(self, s, sc):
        c = self.truth(self.eval(s.test, sc))

        def bad():
            raise PyRaise(ExcVal(ExcType('AssertionError')))
        self.branch(c, lambda: None, bad)

    def s_Raise(self, s, sc):
        if s.exc is None:
            raise PyRaise(getattr(self, 'current_exc', None) or ExcVal(ExcType('RuntimeError')))
        e = self.eval(s.exc, sc)
        if isinstance(e, (ExcType, ClassVal)):
            e = ExcVal(e)
        if isinstance(e, Obj):
            e = ExcVal(e.cls)
        self.event('raise', exc=e)
        raise PyRaise(e)

    def s_With(self, s, sc):
        for it in s.items:
            v = self.eval(it.context_expr, sc)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, sc)
        self.exec_block(s.body, sc)

    def s_Try(self, s, sc):
        def final():
            if s.finalbody:
                self.exec_block(s.finalbody, sc)
        try:
            try:
                self.exec_block(s.body, sc)
            except PyRaise as p:
                for h in s.handlers:
                    if self.handler_matches(h, p.exc, sc):
                        if h.name:
                            self.setvar(sc, h.name, p.exc)
                        old = getattr(self, 'current_exc', None)
                        self.current_exc = p.exc
                        try:
                            self.exec_block(h.body, sc)
                        finally:
                            self.current_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, sc)
        except (Ctl, PyRaise):
            final()
            raise
        final()

    def handler_matches(self, h, exc, sc):
        if h.type is None:
            return True
        t = self.eval(h.type, sc)
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, (ExcType, ClassVal)) and x.name in exc.names:
                return True
        return False

    # loops -----------------------------------------------------------------
    def s_For(self, s, sc):
        it = self.eval(s.iter, sc)
        if leaves_loop(s):
            stop = None
            if isinstance(it, range) and len(it) > 64:
                lo, stop, step = it.start, it.stop, it.step
            elif isinstance(it, GenIter) and it.bounds is not None and not (
                    it.bounds[0] == 0 and isinstance(it.bounds[1], Node) and it.bounds[1].op == 'size'):
                lo, stop, step = it.bounds
            if stop is not None and isinstance(step, int):
                self.fresh_names = getattr(self, 'fresh_names', 0) + 1
                k, e = '$k%d' % s.lineno, '$e%d' % s.lineno
                self.setvar(sc, k, lo)
                self.setvar(sc, e, stop)
                src = ast.parse('while a < b:\n    t = a\n    a = a + c').body[0]
                names = {'a': k, 'b': e}
                for n in ast.walk(src):
                    if isinstance(n, ast.Name) and n.id in names:
                        n.id = names[n.id]
                if step < 0:
                    src.test.ops = [ast.Gt()]
                src.body[0].targets = [s.target]
                src.body[1].value.right = ast.Constant(step)
                src.body += s.body
                src.lineno = s.lineno
                for n in ast.walk(src):
                    if not hasattr(n, 'lineno'):
                        n.lineno, n.col_offset = s.lineno, 0
                self.generic_while(src, sc)
                if s.orelse:
                    raise Unsupported('else of an unbounded loop')
                return
        self.loop_over(it, lambda v: self.assign(s.target, v, sc),
                       lambda: self.exec_block(s.body, sc), s)
        if s.orelse:
            self.exec_block(s.orelse, sc)

    def loop_over(self, it, bind, body, s):
        items = self.concrete_iter(it)
        if items is not None:
            def all_():
                for v in items:
                    def one():
                        bind(v)
                        body()
                    self.run_frame('body', one)
            self.run_frame('loop', all_)
            return
        g = self.generic_iter(it)
        if not g.full:
            self.event('partial_loop', size=g.size)

        def one():
            self.np.genloop.append(g.size)
            try:
                bind(g.elem())
                body()
            finally:
                self.np.genloop.pop()
        # loop carried values: what the body assigns must not flow around
        mark = len(self.trail)
        evm, lpm, ylm = len(self.events), len(self.loops), len(self.yields)
        facts = dict(self.facts)
        self.run_frame('loop', lambda: self.run_frame('body', one))
        W = self.collect(mark)
        self.undo(mark)
        self.facts = facts
        del self.events[evm:]
        del self.loops[lpm:]
        del self.yields[ylm:]
        for d, k, v in W.values():
            if isinstance(d, list):
                continue
            cur = self.cur(d, k)
            if isinstance(k, str) and isinstance(cur, (int, float, Node)) and not isinstance(cur, bool):
                self.write(d, k, mk('carried', k))
            elif isinstance(k, str) and cur is MISSING:
                pass
        fr_evs = len(self.events)
        self.run_frame('loop', lambda: self.run_frame('body', one))

    def s_While(self, s, sc):
        n = 0
        if isinstance(s.test, ast.Constant) and s.test.value and leaves_loop(s):
            return self.generic_while(s, sc)
        while True:
            c = self.truth(self.eval(s.test, sc))
            if not isinstance(c, bool):
                break
            if not c:
                if s.orelse:
                    self.exec_block(s.orelse, sc)
                return
            n += 1
            if n > 3000:
                raise Unsupported('while loop does not end')
            stop = [True]

            def one():
                self.run_frame('body', lambda: self.exec_block(s.body, sc))
                stop[0] = False
            self.run_frame('loop', one)
            if stop[0]:
                return
        self.generic_while(s, sc)

    def generic_while(self, s, sc):
        fn = self.callstack[-1]
        rets = [x for x in own_level(s.body) if isinstance(x, ast.Return)]
        if any(isinstance(x, (ast.For, ast.While)) and any(isinstance(y, ast.Return) for y in ast.walk(x))
               for x in own_level(s.body)):
            raise Unsupported('return from nested loops')
        if rets and not hasattr(s, 'done_var'):
            ar = {len(r.value.elts) if isinstance(r.value, ast.Tuple) else -1 for r in rets}
            if len(ar) != 1:
                raise Unsupported('different returns in a loop')
            ar = ar.pop()
            done = '$d%d' % s.lineno
            names = ['$r%d_%d' % (s.lineno, i) for i in range(max(ar, 1))]
            new = copy.copy(s)
            new.done_var = done
            new.body = [NoReturn(done, names).visit(copy.deepcopy(x)) for x in s.body]
            new.body = [y for x in new.body for y in (x if isinstance(x, list) else [x])]
            self.setvar(sc, done, False)
            for n in names:
                self.setvar(sc, n, 0)
            self.generic_while(new, sc)
            c = self.truth(self.lookup(done, sc))
            if isinstance(s.test, ast.Constant) and s.test.value and not any(
                    isinstance(x, ast.Break) for x in own_level(s.body)):
                c = True

            def leave():
                v = [self.lookup(n, sc) for n in names]
                raise Ret(tuple(v) if ar >= 0 else v[0])
            if isinstance(c, bool):
                if c:
                    leave()
            else:
                self.branch(c, leave, lambda: None)
            return
        ordinal = [x for x in walk_own(fn.node) if isinstance(x, ast.While)]
        ordinal.sort(key=lambda x: x.lineno)
        ordinal = ordinal.index(s) if s in ordinal else -1
        # 1. what does an iteration change
        mark = len(self.trail)
        evm, lpm, ylm = len(self.events), len(self.loops), len(self.yields)
        facts = dict(self.facts)

        def body():
            self.run_frame('body', lambda: self.exec_block(s.body, sc))
        self.run_frame('loop', body)
        W = self.collect(mark)
        self.undo(mark)
        self.facts = dict(facts)
        del self.events[evm:]
        del self.loops[lpm:]
        del self.yields[ylm:]
        # 2. header values
        phis = {}
        live = self.reachable(sc)
        for d, k, v in W.values():
            if id(d) not in live:
                continue
            if isinstance(d, list):
                raise Unsupported('list changed in an unbounded loop')
            cur = self.cur(d, k)
            if cur is MISSING:
                continue
            if isinstance(cur, (int, float, Node)):
                nm = k if isinstance(k, str) else 'cell%d' % len(phis)
                p = mk('phi', fn.qualname, ordinal, nm)
                phis[(id(d), k)] = (d, k, nm, p, cur)
                self.write(d, k, p)
            elif isinstance(cur, Arr) and not isinstance(k, tuple):
                if cur.sshape == () and isinstance(cur.get(), (int, float, Node)):
                    nm = k
                    p = mk('phi', fn.qualname, ordinal, nm)
                    phis[(id(d), k)] = (d, k, nm, p, cur.get())
                    self.write(d, k, fresh((), cur.space, {(): p}, cur.buf.dtype))
                else:
                    raise Unsupported('array changed in an unbounded loop')
            else:
                raise Unsupported('%s changed in an unbounded loop' % type(cur).__name__)
        cond = self.truth(self.eval(s.test, sc))
        # 3. one generic iteration
        fr = Frame('loop', len(self.trail), len(self.conds))
        self.frames.append(fr)
        depth = len(self.frames)
        facts = dict(self.facts)
        self.conds.append((cond, True))
        self.assume_fact(cond, True)
        try:
            self.run_frame('body', lambda: self.exec_block(s.body, sc))
        except Brk:
            raise Unsupported('loop whose iterations all end in a break')
        finally:
            del self.frames[depth - 1:]
            self.conds.pop()
        breaks = []
        for guard, BW, v in fr.exits:
            breaks.append((guard, {p[2]: BW[key][2] for key, p in phis.items() if key in BW}))
        nexts = {}
        for key, (d, k, nm, p, init) in phis.items():
            v = self.cur(d, k)
            nexts[nm] = v.get() if isinstance(v, Arr) else v
        self.facts = facts
        inits = tuple((p[2], p[4]) for p in phis.values())
        nx = tuple((nm, v if isinstance(v, (int, float, Node)) else mk('unk', 'next')) for nm, v in nexts.items())
        bk = tuple(g for g, _ in breaks)
        info = dict(func=fn.qualname, line=s.lineno, cond=cond, phis={p[2]: p[3] for p in phis.values()},
                    inits=dict(inits), nexts=nexts, breaks=breaks)
        self.loops.append(info)
        # values after the loop
        for key, (d, k, nm, p, init) in phis.items():
            out = mk('loopout', p, inits, cond if isinstance(cond, Node) else bool(cond), nx, bk)
            cur = self.cur(d, k)
            if isinstance(cur, Arr):
                out = fresh((), cur.space, {(): out}, cur.buf.dtype)
            self.write(d, k, out)

    def reachable(self, sc):
        '''containers that existed before and can be reached from a scope'''
        seen, todo = set(), [sc]
        for m in self.modules.values():
            todo.append(m)
        while todo:
            x = todo.pop()
            if x is None or isinstance(x, (int, float, str, bytes, Node, ast.AST)) or id(x) in seen:
                continue
            seen.add(id(x))
            if isinstance(x, dict):
                todo += list(x.values())
            elif isinstance(x, (list, tuple, set, frozenset)):
                todo += list(x)
            elif isinstance(x, Arr):
                todo.append(x.buf)
                todo.append(getattr(x, '__dict__', None))
            elif hasattr(x, '__dict__') and not isinstance(x, (type, Interp)):
                todo.append(x.__dict__)
        return seen

    def concrete_iter(self, it):
        if isinstance(it, (list, tuple, str, range, set, frozenset)):
            return list(it)
        if isinstance(it, dict):
            return list(it.keys())
        if isinstance(it, DictView):
            return list(it.d.keys())
        if isinstance(it, (type({}.keys()), type({}.values()), type({}.items()), zip, enumerate, map,
                           reversed)):
            return list(it)
        if isinstance(it, Arr) and it.elem is None:
            if it.sshape:
                return [self.np.index(it, i) for i in range(it.sshape[0])]
            if it.space == UNIT:
                return [it.get()]
        if isinstance(it, ConcreteIter):
            return it.drain()
        from .npmodel import NdIter, Transposed
        if isinstance(it, NdIter) and not it.arr.sshape and it.arr.space in (None, UNIT):
            return [Arr(it.arr.buf, (), dict(it.arr.imap), None, zerod=True)]
        return None

    def generic_iter(self, it):
        if isinstance(it, GenIter):
            return it
        from .npmodel import NdIter, MultiIter, Transposed
        if isinstance(it, NdIter):
            return GenIter(lambda: self.np.nditer_elem(it), size_of(it.arr.space))
        if isinstance(it, MultiIter):
            return GenIter(lambda: tuple(self.np.nditer_elem(x) for x in it.its), size_of(it.its[0].arr.space))
        if isinstance(it, GenList):
            return GenIter(lambda: it.elem, it.size)
        if isinstance(it, Transposed):
            return GenIter(lambda: fresh(it.a.sshape, None, dict(it.a.items()), it.a.buf.dtype), size_of(it.a.space))
        if isinstance(it, Arr) and not it.sshape and it.space is not None:
            return GenIter(lambda: it.get(), size_of(it.space))
        if isinstance(it, GenObj):
            vals = self.run_generator(it)
            if len(vals) >= 1:
                # the last one belongs to the generic iteration
                return GenIter(lambda: vals[-1], None)
        if isinstance(it, Obj):
            m = it.cls.lookup('__iter__')
            if m is not MISSING:
                return self.generic_iter(self.call(BoundM(m, it), [], {}))
        raise Unsupported('iteration over %r' % (it,))

    def run_generator(self, g):
        if isinstance(g, (list, tuple)):
            return list(g)
        if not isinstance(g, GenObj):
            x = self.generic_iter(g)
            return [x.elem()]
        keep, self.yields = self.yields, []
        self.callstack.append(g.func)
        try:
            self.run_frame('func', lambda: self.exec_block(g.func.node.body, g.scope))
        finally:
            self.callstack.pop()
            vals, self.yields = self.yields, keep
        return vals

    # ------------------------------------------------------------ names
    def mangle(self, name, sc):
        if name.startswith('__') and not name.endswith('__'):
            cn = getattr(sc, 'cls_name', None)
            s = sc
            while cn is None and s is not None:
                if s.fn is not None and getattr(s.fn, 'mangle', None):
                    cn = s.fn.mangle
                    break
                s = s.parent
            if cn:
                return '_' + cn.lstrip('_') + name
        return name

    def setvar(self, sc, name, v):
        if name in sc.globals_decl:
            self.setd(sc.glob.ns, name, v)
            return
        if name in sc.nonlocal_decl:
            s = sc.parent
            while s is not None:
                if name in s.vars and not getattr(s, 'is_class', False):
                    self.setd(s.vars, name, v)
                    return
                s = s.parent
        self.setd(sc.vars, name, v)

    def lookup(self, name, sc):
        s = sc
        first = True
        while s is not None:
            if name in s.vars and (first or not getattr(s, 'is_class', False)):
                return s.vars[name]
            first = False
            s = s.parent
        if name in sc.glob.ns:
            return sc.glob.ns[name]
        b = self.np.builtin(name)
        if b is not MISSING:
            return b
        self.event('name_error', name=name)
        raise PyRaise(ExcVal(ExcType('NameError'), (name,)))

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.setvar(sc, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            if any(isinstance(x, ast.Starred) for x in t.elts):
                items = list(self.to_list(v))
                k = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)][0]
                after = len(t.elts) - k - 1
                parts = items[:k] + [items[k:len(items) - after]] + items[len(items) - after:]
                for x, y in zip(t.elts, parts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, sc)
                return
            for x, y in zip(t.elts, items):
                self.assign(x, y, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, sc), self.mangle(t.attr, sc), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            self.setitem(o, self.eval(t.slice, sc), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        try:
            return self.to_list(v)
        except Unsupported:
            if isinstance(v, Node):
                return [mk('unk', 'unpacked %s' % v.op) for _ in range(n)]
            raise

    def to_list(self, v):
        items = self.concrete_iter(v)
        if items is None:
            if isinstance(v, GenObj):
                return self.run_generator(v)
            raise Unsupported('sequence of unknown length')
        return items

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, NpVal):
            return self.np.attr(o, name)
        if isinstance(o, ModVal):
            if name in o.ns:
                return o.ns[name]
            if name == '__dict__':
                return DictView(o.ns, o)
            sub = o.name + '.' + name
            if sub in self.modules:
                return self.modules[sub]
            raise PyRaise(ExcVal(ExcType('AttributeError'), (name,)))
        if isinstance(o, Obj):
            if name == '__dict__':
                return DictView(o.attrs, o)
            if name == '__class__':
                return o.cls
            c = o.cls.lookup(name) if isinstance(o.cls, ClassVal) else MISSING
            if isinstance(c, PropVal):
                if c.fget is None:
                    raise PyRaise(ExcVal(ExcType('AttributeError'), (name,)))
                return self.call(c.fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if c is not MISSING:
                return self.bind(c, o)
            ga = o.cls.lookup('__getattr__') if isinstance(o.cls, ClassVal) else MISSING
            if ga is not MISSING:
                return self.call(BoundM(ga, o), [name], {})
            self.event('attribute_error', name=name)
            raise PyRaise(ExcVal(ExcType('AttributeError'), (name,)))
        if isinstance(o, ClassVal):
            c = o.lookup(name)
            if c is not MISSING:
                if isinstance(c, StaticM):
                    return c.f
                if isinstance(c, ClassM):
                    return BoundM(c.f, o)
                return c
            if name == '__name__':
                return o.name
            if name == '__dict__':
                return DictView(o.ns, o)
            raise PyRaise(ExcVal(ExcType('AttributeError'), (name,)))
        if isinstance(o, PropVal):
            return {'setter': Builtin('setter', lambda a, k: PropVal(o.fget, a[0], o.fdel)),
                    'getter': Builtin('getter', lambda a, k: PropVal(a[0], o.fset, o.fdel)),
                    'deleter': Builtin('deleter', lambda a, k: PropVal(o.fget, o.fset, a[0])),
                    'fget': o.fget, 'fset': o.fset}[name]
        if isinstance(o, (Arr, Node)) or isinstance(o, (int, float)) and not isinstance(o, bool):
            return self.np.arr_attr(o, name)
        if isinstance(o, (str, list, dict, tuple, set, slice, range, float, int, type({}.items()), bytes)):
            return self.native_attr(o, name)
        if isinstance(o, DictView):
            return self.native_attr(o.d, name)
        if isinstance(o, DT):
            if name == 'kind':
                return {'f': 'f', 'f4': 'f', 'i': 'i', 'b': 'b'}.get(o.k, 'f')
            if name == 'type':
                return o
            return mk('unk', 'dtype attribute')
        if isinstance(o, ExcVal):
            if name == 'args':
                return tuple(o.args)
            return mk('unk', 'exception attribute')
        if isinstance(o, FuncVal):
            if name == '__name__':
                return o.name
            if name == '__doc__':
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name in o.attrs:
                return o.attrs[name]
            raise PyRaise(ExcVal(ExcType('AttributeError'), (name,)))
        if isinstance(o, ExcType) and name == '__name__':
            return o.name
        if isinstance(o, Alt):
            return self.branch(o.cond, lambda: self.getattr(o.a, name), lambda: self.getattr(o.b, name))
        if isinstance(o, (BoundM, Builtin)):
            if name == '__name__':
                return o.func.name if isinstance(o, BoundM) else o.name
        if isinstance(o, SuperVal):
            for b in o.cls.bases:
                if isinstance(b, ClassVal):
                    c = b.lookup(name)
                    if c is not MISSING:
                        return self.bind(c, o.obj)
            if name == '__setattr__':
                return Builtin('object.__setattr__', lambda a, k: self.setd(o.obj.attrs, a[0], a[1]))
            if name == '__init__':
                return Builtin('object.__init__', lambda a, k: None)
            if name == '__getattribute__':
                return Builtin('object.__getattribute__', lambda a, k: self.getattr(o.obj, a[0]))
        if o is None:
            self.event('attribute_error', name=name)
            raise PyRaise(ExcVal(ExcType('AttributeError'), (name,)))
        if isinstance(o, Opaque):
            return Opaque(o.name + '.' + name)
        raise Unsupported('attribute %s of %r' % (name, o))

    def bind(self, c, o):
        if isinstance(c, FuncVal):
            return BoundM(c, o)
        if isinstance(c, StaticM):
            return c.f
        if isinstance(c, ClassM):
            return BoundM(c.f, o.cls)
        if isinstance(c, PropVal):
            return self.call(c.fget, [o], {})
        return c

    def setattr(self, o, name, v, raw=False):
        if isinstance(o, Obj):
            c = o.cls.lookup(name) if isinstance(o.cls, ClassVal) else MISSING
            if not raw and isinstance(o.cls, ClassVal):
                sa = o.cls.lookup('__setattr__')
                if sa is not MISSING:
                    self.call(BoundM(sa, o), [name, v], {})
                    return
            if isinstance(c, PropVal):
                if c.fset is None:
                    self.event('readonly_property', name=name)
                    raise PyRaise(ExcVal(ExcType('AttributeError'), (name,)))
                self.call(c.fset, [o, v], {})
                return
            self.event('attrset', obj=o, name=name, value=v)
            if name == '__dict__':
                nd = v.d if isinstance(v, DictView) else v
                self.trail.append((o.__dict__, 'attrs', o.attrs))
                o.attrs = nd
                return
            self.setd(o.attrs, name, v)
            return
        if isinstance(o, Arr):
            if name == 'shape':
                self.np.set_shape(o, v)
                return
            if name == 'dtype':
                self.event('store', buf=o.buf, keys=(), what='dtype')
                return
            if name == 'flags':
                return
        if isinstance(o, ModVal):
            self.event('moduleset', module=o.name, name=name)
            self.setd(o.ns, name, v)
            return
        if isinstance(o, ClassVal):
            self.event('classset', cls=o.name, name=name)
            self.setd(o.ns, name, v)
            return
        if isinstance(o, FuncVal):
            self.setd(o.attrs, name, v)
            return
        if isinstance(o, (int, float, Node)):
            self.event('attribute_error', name=name)
            raise PyRaise(ExcVal(ExcType('AttributeError'), (name,)))
        raise Unsupported('attribute store on %r' % (o,))

    def native_attr(self, o, name):
        if type(o) in (list, tuple, dict, set, str) and not hasattr(o, name):
            self.event('attribute_error', name=name)
            raise PyRaise(ExcVal(ExcType('AttributeError'), (name,)))
        if isinstance(o, slice) and name in ('start', 'stop', 'step'):
            return getattr(o, name)
        return Builtin('%s.%s' % (type(o).__name__, name), lambda a, k: self.native_call(o, name, a, k))

    def native_call(self, o, name, args, kw):
        if isinstance(o, (list, dict, set)) and name in (
                'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update',
                'setdefault', 'popitem', 'add', 'discard'):
            if isinstance(o, list):
                self.log_list(o)
            elif isinstance(o, dict):
                before = dict(o)
            if name == 'extend':
                o.extend(self.to_list(args[0]))
                return None
            if name == 'update' and isinstance(o, dict):
                new = {}
                for a in args:
                    if isinstance(a, DictView):
                        a = a.d
                    if isinstance(a, dict):
                        new.update(a)
                    elif isinstance(a, Opq):
                        new['**' + a.name] = a
                    else:
                        raise Unsupported('dict.update with %r' % (a,))
                new.update(kw)
                for k, v in new.items():
                    self.setd(o, k, v)
                return None
            try:
                r = getattr(o, name)(*args, **kw)
            except (KeyError, IndexError, ValueError, TypeError) as e:
                raise PyRaise(ExcVal(ExcType(type(e).__name__), e.args))
            if isinstance(o, dict):
                for k in set(before) | set(o):
                    if k not in o:
                        self.trail.append((o, k, before[k]))
                    elif k not in before:
                        self.trail.append((o, k, MISSING))
                    elif before[k] is not o[k]:
                        self.trail.append((o, k, before[k]))
            return r
        if isinstance(o, str) and name == 'format':
            return o
        if isinstance(o, str) and name == 'join':
            items = self.to_list(args[0])
            return o.join(x if isinstance(x, str) else '<?>' for x in items)
        if any(isinstance(x, (Node, Arr)) for x in args) and not isinstance(o, (dict, list)):
            return mk('unk', 'native %s' % name)
        try:
            f = getattr(o, name)
        except AttributeError:
            self.event('attribute_error', name=name)
            raise PyRaise(ExcVal(ExcType('AttributeError'), (name,)))
        if not callable(f):
            return f
        try:
            return f(*args, **kw)
        except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
            raise PyRaise(ExcVal(ExcType(type(e).__name__), e.args))

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        if isinstance(k, Alt):
            return self.branch(k.cond, lambda: self.getitem(o, k.a), lambda: self.getitem(o, k.b))
        if isinstance(o, Alt):
            return self.branch(o.cond, lambda: self.getitem(o.a, k), lambda: self.getitem(o.b, k))
        if isinstance(k, Node) and isinstance(o, (list, tuple, dict, str)):
            if num_dtype(k) == 'b':
                return self.branch(k, lambda: self.getitem(o, 1), lambda: self.getitem(o, 0))
            if k.op == 'where':
                return self.branch(k.args[0], lambda: self.getitem(o, k.args[1]), lambda: self.getitem(o, k.args[2]))
            if isinstance(o, dict):
                raise Unsupported('item of a dictionary by %s' % k.op)
        if isinstance(o, (Arr, Node)) or (isinstance(o, (int, float)) and not isinstance(o, bool)):
            return self.np.index(o, k)
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(k, Node):
                if o and all(isinstance(x, (int, float, Node)) for x in o):
                    return mk('unk', 'sequence index')
                raise Unsupported('sequence index')
            if isinstance(k, Arr) and k.sshape == () and isinstance(k.get(), int):
                k = k.get()
            if isinstance(k, slice) and any(isinstance(x, Node) for x in (k.start, k.stop, k.step)):
                raise Unsupported('sequence slice')
            try:
                return o[k]
            except (IndexError, TypeError) as e:
                raise PyRaise(ExcVal(ExcType(type(e).__name__), e.args))
        if isinstance(o, dict):
            k = self.hashable(k)
            if k in o:
                return o[k]
            raise PyRaise(ExcVal(ExcType('KeyError'), (k,)))
        if isinstance(o, DictView):
            if k in o.d:
                return o.d[k]
            raise PyRaise(ExcVal(ExcType('KeyError'), (k,)))
        if isinstance(o, Obj):
            m = o.cls.lookup('__getitem__')
            if m is MISSING:
                raise PyRaise(ExcVal(ExcType('TypeError')))
            return self.call(BoundM(m, o), [k], {})
        if isinstance(o, Opq):
            return Opq(o.name + '[%r]' % (k,))
        if isinstance(o, (NpVal, Opaque)):
            return self.np.special_item(o, k)
        raise Unsupported('item of %r' % (o,))

    def hashable(self, k):
        try:
            hash(k)
        except TypeError:
            raise PyRaise(ExcVal(ExcType('TypeError'), ('unhashable',)))
        return k

    def setitem(self, o, k, v):
        from .npmodel import SysModules
        if isinstance(o, SysModules):
            self.sysmodules[k] = v
            return
        if isinstance(o, Arr):
            self.np.store(o, k, v)
        elif isinstance(o, dict):
            self.setd(o, self.hashable(k), v)
        elif isinstance(o, DictView):
            self.event('attrset', obj=o.owner, name=k, value=v)
            self.setd(o.d, k, v)
        elif isinstance(o, list):
            self.log_list(o)
            try:
                o[k] = v
            except (IndexError, TypeError) as e:
                raise PyRaise(ExcVal(ExcType(type(e).__name__), e.args))
        elif isinstance(o, Obj):
            m = o.cls.lookup('__setitem__')
            if m is MISSING:
                raise PyRaise(ExcVal(ExcType('TypeError')))
            self.call(BoundM(m, o), [k, v], {})
        elif isinstance(o, (Node, int, float)):
            self.event('scalar_store')
            raise PyRaise(ExcVal(ExcType('TypeError'), ('scalar does not support item assignment',)))
        else:
            raise Unsupported('item store on %r' % (o,))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, BoundM):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, FuncVal):
            h = self.intrinsics.get(f.qualname)
            if h is not None:
                bound = self.bind_args(f, args, kw)
                self.visited.add(f.qualname)
                return h(self, f, bound)
            r = self.invoke(f, args, kw)
            if f.memo:
                for x in r if isinstance(r, tuple) else (r,):
                    if isinstance(x, Arr):
                        x.buf.memo = f.qualname
                    elif isinstance(x, (list, dict)):
                        self.event('memo_result', what=f.qualname)
            return r
        if isinstance(f, Builtin):
            return f.fn(list(args), dict(kw))
        if isinstance(f, NpVal):
            return self.np.call(f, list(args), dict(kw))
        if isinstance(f, ClassVal):
            if f.is_exc():
                return ExcVal(f, tuple(args))
            o = Obj(f)
            init = f.lookup('__init__')
            if init is not MISSING:
                self.call(BoundM(init, o), args, kw)
            elif args or kw:
                raise PyRaise(ExcVal(ExcType('TypeError')))
            return o
        if isinstance(f, ExcType):
            return ExcVal(f, tuple(args))
        if isinstance(f, DT):
            return self.np.cast_scalar(args[0] if args else 0, f)
        if isinstance(f, Obj):
            m = f.cls.lookup('__call__')
            if m is not MISSING:
                return self.call(BoundM(m, f), args, kw)
        if isinstance(f, Alt):
            return self.branch(f.cond, lambda: self.call(f.a, args, kw),
                               lambda: self.call(f.b, args, kw))
        if isinstance(f, Opaque):
            return Opaque(f.name + '()')
        if isinstance(f, PartialV):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.f, list(f.args) + list(args), k2)
        if f is None or isinstance(f, (int, float, str, list, tuple, dict, Arr)):
            self.event('type_error', what='not callable')
            raise PyRaise(ExcVal(ExcType('TypeError'), ('not callable',)))
        raise Unsupported('call of %r' % (f,))

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kw = dict(kw)

        def bad(msg):
            self.event('type_error', what='%s: %s' % (f.qualname, msg), callee=f.qualname)
            raise PyRaise(ExcVal(ExcType('TypeError'), (msg,)))
        for name in pos:
            if args:
                if name in kw:
                    bad('multiple values for %s' % name)
                out[name] = args.pop(0)
            elif name in kw:
                out[name] = kw.pop(name)
        if args:
            if a.vararg is None:
                bad('too many positional arguments')
            out[a.vararg.arg] = tuple(args)
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in out:
                j = i - (len(pos) - nd)
                if j < 0:
                    bad('missing argument %s' % name)
                out[name] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg in kw:
                out[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                out[x.arg] = f.kwdefaults[x.arg]
            else:
                bad('missing keyword %s' % x.arg)
        if kw:
            if a.kwarg is None:
                bad('unexpected keyword %s' % sorted(kw)[0])
            out[a.kwarg.arg] = kw
        elif a.kwarg is not None:
            out[a.kwarg.arg] = {}
        return out

    def invoke(self, f, args, kw):
        self.visited.add(f.qualname)
        if self.callstack:
            self.callsites.add((self.callstack[-1].qualname, self.line, f.qualname))
        if len(self.callstack) > 60:
            raise Unsupported('recursion')
        sc = Scope(parent=f.scope if not getattr(f.scope, 'is_class', False) else f.scope.parent,
                   glob=f.module, fn=f)
        if sc.parent is not None and sc.parent.vars is f.module.ns:
            sc.parent = None
        sc.vars.update(self.bind_args(f, args, kw))
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, sc)
        if f.is_gen:
            return GenObj(f, sc)
        line = self.line
        self.callstack.append(f)
        depth = len(self.callstack)
        cm = len(self.conds)
        facts = dict(self.facts)
        try:
            r = self.run_frame('func', lambda: self.exec_block(f.node.body, sc))
        finally:
            del self.callstack[depth - 1:]
            del self.conds[cm:]
            self.line = line
        return r

    # ------------------------------------------------------------ expressions
    def eval(self, e, sc):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Unsupported('step limit')
        t = e.__class__
        m = _EXPR.get(t)
        if m is None:
            m = getattr(Interp, 'e_' + t.__name__, None)
            if m is None:
                raise Unsupported('expression %s' % t.__name__)
            _EXPR[t] = m
        self.line = getattr(e, 'lineno', self.line)
        return m(self, e, sc)

    def e_Constant(self, e, sc):
        return e.value

    def e_Name(self, e, sc):
        return self.lookup(self.mangle(e.id, sc), sc)

    def e_Attribute(self, e, sc):
        o = self.eval(e.value, sc)
        self.line = e.lineno
        return self.getattr(o, self.mangle(e.attr, sc))

    def e_Subscript(self, e, sc):
        o = self.eval(e.value, sc)
        k = self.eval(e.slice, sc)
        self.line = e.lineno
        return self.getitem(o, k)

    def e_Slice(self, e, sc):
        g = lambda x: self.eval(x, sc) if x is not None else None
        return slice(g(e.lower), g(e.upper), g(e.step))

    def e_Tuple(self, e, sc):
        return tuple(self.elts(e.elts, sc))

    def e_List(self, e, sc):
        return list(self.elts(e.elts, sc))

    def e_Set(self, e, sc):
        return set(self.elts(e.elts, sc))

    def elts(self, elts, sc):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.to_list(self.eval(x.value, sc)))
            else:
                out.append(self.eval(x, sc))
        return out

    def e_Dict(self, e, sc):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, sc)
                d.update(x.d if isinstance(x, DictView) else x)
            else:
                d[self.hashable(self.eval(k, sc))] = self.eval(v, sc)
        return d

    def e_JoinedStr(self, e, sc):
        def more(out, x):
            if isinstance(out, Alt):
                return self.phi(out.cond, more(out.a, x), more(out.b, x))
            if isinstance(x, Alt):
                return self.phi(x.cond, more(out, x.a), more(out, x.b))
            return out + (str(x) if isinstance(x, (str, int, float)) else '{}')
        out = ''
        for v in e.values:
            out = more(out, str(v.value) if isinstance(v, ast.Constant) else self.eval(v.value, sc))
        return out

    def e_UnaryOp(self, e, sc):
        v = self.eval(e.operand, sc)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return not t if isinstance(t, bool) else not_(t)
        if isinstance(e.op, ast.USub):
            return self.np.unary('neg', v)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.np.unary('invert', v)

    def e_BinOp(self, e, sc):
        a = self.eval(e.left, sc)
        b = self.eval(e.right, sc)
        self.line = e.lineno
        return self.np.binop(type(e.op).__name__, a, b)

    def e_BoolOp(self, e, sc):
        def go(i):
            v = self.eval(e.values[i], sc)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And):
                if t is True:
                    return go(i + 1)
                if t is False:
                    return v
                r = self.branch(t, lambda: go(i + 1), lambda: False)
                return r
            if t is True:
                return v
            if t is False:
                return go(i + 1)
            return self.branch(t, lambda: True if not isinstance(v, Arr) else v, lambda: go(i + 1))
        r = go(0)
        return r

    def e_Compare(self, e, sc):
        left = self.eval(e.left, sc)
        res = True
        for op, rhs in zip(e.ops, e.comparators):
            right = self.eval(rhs, sc)
            r = self.compare(type(op).__name__, left, right)
            if res is True:
                res = r
            else:
                t = self.truth(res)
                if t is False:
                    return False
                res = r if t is True else and_(t, self.truth(r))
            left = right
        return res

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            if isinstance(a, (DT, NpVal)) and isinstance(b, (DT, NpVal)):
                r = a == b
            elif isinstance(a, bool) and isinstance(b, Node) or isinstance(b, bool) and isinstance(a, Node):
                n, c = (b, a) if isinstance(b, Node) else (a, b)
                if num_dtype(n) == 'b':
                    r = n if c else not_(n)
                else:
                    r = False
            elif isinstance(a, Alt) or isinstance(b, Alt):
                if isinstance(b, Alt):
                    a, b = b, a
                r = self.phi(a.cond, self.compare('Is', a.a, b), self.compare('Is', a.b, b))
            else:
                r = a is b or (isconst(a) and isconst(b) and type(a) is type(b) and a == b
                               and not isinstance(a, float))
            if isinstance(r, Node):
                return r if op == 'Is' else not_(r)
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = self.contains(a, b)
            if op == 'In':
                return r
            t = self.truth(r)
            return (not t) if isinstance(t, bool) else not_(t)
        return self.np.compare(op, a, b)

    def contains(self, a, b):
        if isinstance(a, Alt):
            return self.branch(a.cond, lambda: self.contains(a.a, b), lambda: self.contains(a.b, b))
        if isinstance(b, Alt):
            return self.branch(b.cond, lambda: self.contains(a, b.a), lambda: self.contains(a, b.b))
        if isinstance(b, dict) and isinstance(a, Node):
            raise Unsupported('membership in a dictionary')
        if isinstance(b, DictView):
            b = b.d
        if isinstance(b, dict):
            return self.hashable(a) in b
        if isinstance(b, (list, tuple, set, frozenset, str, range, type({}.keys()))):
            if isinstance(a, (Node, Arr)):
                r = False
                for x in b:
                    r = or_(r, self.np.compare('Eq', a, x))
                return r
            if isinstance(b, str) and not isinstance(a, str):
                raise PyRaise(ExcVal(ExcType('TypeError')))
            return any(a is x or (type(a) in (str, int, float, bool, tuple, type(None)) and
                                  type(x) in (str, int, float, bool, tuple, type(None)) and a == x)
                       for x in b)
        if isinstance(b, Obj):
            m = b.cls.lookup('__contains__')
            if m is not MISSING:
                return self.call(BoundM(m, b), [a], {})
        if isinstance(b, Opq):
            return mk('var', '%r in %s' % (a, b.name))
        raise Unsupported('membership in %r' % (b,))

    def e_IfExp(self, e, sc):
        c = self.truth(self.eval(e.test, sc))
        return self.branch(c, lambda: self.eval(e.body, sc), lambda: self.eval(e.orelse, sc))

    def e_Lambda(self, e, sc):
        f = self.make_func(e, sc, '<lambda>')
        return f

    def e_Call(self, e, sc):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fn = sc.fn
            slf = sc.vars.get(fn.node.args.args[0].arg)
            return SuperVal(fn.cls, slf)
        f = self.eval(e.func, sc)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.to_list(self.eval(a.value, sc)))
            else:
                args.append(self.eval(a, sc))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, sc)
            if k.arg is None:
                if isinstance(v, DictView):
                    v = v.d
                if isinstance(v, Opq):
                    kw['**'] = v
                    continue
                if not isinstance(v, dict):
                    raise Unsupported('** of %r' % (v,))
                for kk in v:
                    if kk in kw:
                        self.event('type_error', what='multiple values for %s' % kk)
                        raise PyRaise(ExcVal(ExcType('TypeError')))
                kw.update(v)
            else:
                kw[k.arg] = v
        self.line = e.lineno
        if isinstance(f, Builtin) and f.name == 'locals':
            return dict(sc.vars)
        return self.call(f, args, kw)

    def comp(self, gens, sc, emit):
        inner = Scope(parent=sc, glob=sc.glob, fn=sc.fn)
        inner.cls_name = getattr(sc, 'cls_name', None)

        def go(i):
            if i == len(gens):
                emit(inner)
                return
            g = gens[i]
            it = self.eval(g.iter, inner if i else sc)
            items = self.concrete_iter(it)
            if items is None:
                gi = self.generic_iter(it)
                if g.ifs:
                    raise Unsupported('filtered comprehension over objects')
                self.generic_comp = gi
                self.np.genloop.append(gi.size)
                try:
                    self.assign(g.target, gi.elem(), inner)
                    go(i + 1)
                finally:
                    self.np.genloop.pop()
                return
            for v in items:
                self.assign(g.target, v, inner)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.eval(c, inner))
                    if not isinstance(t, bool):
                        raise Unsupported('undetermined filter')
                    if not t:
                        ok = False
                        break
                if ok:
                    go(i + 1)
        go(0)

    def e_ListComp(self, e, sc):
        out = []
        self.generic_comp = None
        self.comp(e.generators, sc, lambda s: out.append(self.eval(e.elt, s)))
        g, self.generic_comp = self.generic_comp, None
        if g is not None:
            return GenList(out[0], g.size)
        return out

    def e_GeneratorExp(self, e, sc):
        return self.e_ListComp(e, sc)

    def e_SetComp(self, e, sc):
        return set(self.e_ListComp(e, sc))

    def e_DictComp(self, e, sc):
        out = {}
        self.comp(e.generators, sc,
                  lambda s: out.__setitem__(self.eval(e.key, s), self.eval(e.value, s)))
        return out

    def e_Yield(self, e, sc):
        v = self.eval(e.value, sc) if e.value else None
        self.yields.append(v)
        return None

    def e_YieldFrom(self, e, sc):
        it = self.eval(e.value, sc)
        for v in self.to_list(it):
            self.yields.append(v)
        return None

    def e_NamedExpr(self, e, sc):
        v = self.eval(e.value, sc)
        self.assign(e.target, v, sc)
        return v

    def e_Starred(self, e, sc):
        raise Unsupported('starred')

    def e_FormattedValue(self, e, sc):
        return ''


class Alt:
    """gated choice between values that have no common representation"""

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class Opq:
    """an uninterpreted value supplied by the caller (a token)"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Opq) and o.name == self.name

    def __hash__(self):
        return hash(('Opq', self.name))

    def __repr__(self):
        return '<%s>' % self.name


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class SuperVal:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class PartialV:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class GenList:
    """list with one entry per object"""

    def __init__(self, elem, size):
        self.elem, self.size = elem, size


class ConcreteIter:
    def __init__(self, items):
        self.items = items
        self.pos = [0]

    def drain(self):
        r = self.items[self.pos[0]:]
        return r


BOOLOPS = ('lt', 'le', 'eq', 'not', 'and', 'or')

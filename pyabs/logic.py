"""Boolean reasoning on masks by case distinction over their comparison atoms."""
from .core import *          # noqa


def atoms(n, out=None):
    """comparison atoms the boolean skeleton of n depends on"""
    out = {} if out is None else out
    if isinstance(n, Node):
        if n.op in ('and', 'or', 'not'):
            for a in n.args:
                atoms(a, out)
        elif n.op == 'where':
            for a in n.args:
                atoms(a, out)
        else:
            out[n.id] = n
    return out


def consistent(ass, nan=True):
    """no contradiction between comparisons of one value with constants.
    ass: list of (atom, bool).  NaN makes every comparison false."""
    by = {}
    for a, v in ass:
        if a.op in ('lt', 'le', 'eq') and len(a.args) == 2:
            x, y = a.args
            cx, cy = constval(x), constval(y)
            if cx is not None and cy is None and isinstance(y, Node):
                x = cx
                by.setdefault(y.id, []).append(({'lt': '>', 'le': '>=', 'eq': '='}[a.op], x, v))
            elif cy is not None and cx is None and isinstance(x, Node):
                y = cy
                by.setdefault(x.id, []).append(({'lt': '<', 'le': '<=', 'eq': '='}[a.op], y, v))
    for xs in by.values():
        cs = sorted({c for _, c, _ in xs})
        pts = [None] if nan else []            # None = NaN
        for i, c in enumerate(cs):
            pts.append(c)
            pts.append((c + cs[i + 1]) / 2 if i + 1 < len(cs) else c + 1)
        pts.append(cs[0] - 1)

        def holds(op, c, p):
            if p is None:
                return False
            return {'<': p < c, '<=': p <= c, '>': p > c, '>=': p >= c, '=': p == c}[op]
        if not any(all(holds(op, c, p) == v for op, c, v in xs) for p in pts):
            return False
    # two-variable atoms
    pair = {}
    for a, v in ass:
        if a.op in ('lt', 'le', 'eq') and len(a.args) == 2 and all(isinstance(z, Node) for z in a.args):
            x, y = a.args
            fl = x.id > y.id
            k = (min(x.id, y.id), max(x.id, y.id))
            rel = {'lt': {'<'}, 'le': {'<', '='}, 'eq': {'='}}[a.op]
            if fl:
                rel = {{'<': '>', '=': '='}[r] for r in rel}
            cur = pair.setdefault(k, {'<', '=', '>'} | ({'nan'} if nan else set()))
            cur &= rel if v else ({'<', '=', '>', 'nan'} - rel)
    return all(pair.values())


def cases(nodes, limit=12):
    """all consistent truth assignments of the atoms below the boolean nodes"""
    at = {}
    for n in nodes:
        atoms(n, at)
    at = list(at.values())
    if len(at) > limit:
        return None
    out = []

    def go(i, ass):
        if not consistent(ass):
            return
        if i == len(at):
            out.append(dict((a, v) for a, v in ass))
            return
        for v in (True, False):
            go(i + 1, ass + [(at[i], v)])
    go(0, [])
    return out


OPAQUE = ('unk', 'var', 'reduce', 'isnew', 'sel', 'call', 'phi', 'loopout', 'uninit')


def equivalent(a, b):
    """True / False / None for two masks"""
    if a is b:
        return True
    cs = cases([a, b])
    if cs is None:
        return None
    exact = True
    for at in {x.id: x for c in cs for x in c}.values():
        if at.op not in ('lt', 'le', 'eq', 'var', 'isnew', 'sel') and not (at.op == 'fn' and at.args[0] == 'isnan'):
            exact = False
    for c in cs:
        if fold(a, c) != fold(b, c):
            # independent comparison atoms can be realised separately
            return False if exact else None
    return True


def fold(n, case):
    if isinstance(n, Node):
        if n.op == 'and':
            return fold(n.args[0], case) and fold(n.args[1], case)
        if n.op == 'or':
            return fold(n.args[0], case) or fold(n.args[1], case)
        if n.op == 'not':
            return not fold(n.args[0], case)
        if n.op == 'where':
            return fold(n.args[1] if fold(n.args[0], case) else n.args[2], case)
        return case.get(n, n)
    return n

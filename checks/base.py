"""Obligations, verdicts, evidence and known findings."""
import json
import os
import pickle
import selectors
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)

from pyabs import core                                    # noqa
from pyabs.engine import Interp, PyRaise, Unsupported     # noqa


class Missing(Exception):
    """the construct a check is anchored at does not exist"""


class Check:
    """collects the obligations of one property in one run"""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obl = []                   # (key, status, text)
        self.functions = set()
        self.callsites = set()
        self.notes = []
        self.counts = {}
        self.missing = []
        self._seen = {}

    def ok(self, key, text=''):
        self._add(key, 'ok', text)

    def bad(self, key, text):
        """definite: key names rule and construct, no line numbers"""
        self._add(key, 'violated', text)

    def unknown(self, key, text):
        self._add(key, 'undecided', text)

    def _add(self, key, status, text):
        rank = {'ok': 0, 'undecided': 1, 'violated': 2}
        i = self._seen.get(key)
        if i is None:
            self._seen[key] = len(self.obl)
            self.obl.append((key, status, text))
        elif rank[status] > rank[self.obl[i][1]]:
            self.obl[i] = (key, status, text)

    def verdict(self, key, v, text_bad='', text_unknown=''):
        """three valued"""
        if v is True:
            self.ok(key)
        elif v is False:
            self.bad(key, text_bad)
        else:
            self.unknown(key, text_unknown or 'not decided')

    def guard(self, key, f, *a):
        """run f; constructs the interpreter has no rule for leave the
        obligation open instead of deciding it"""
        try:
            return f(*a)
        except Unsupported as e:
            self.unknown(key, 'no abstract semantics: %s' % e)
        except Missing as e:
            self.missing.append(str(e))
            self.unknown(key, 'anchor missing: %s' % e)
        except RecursionError:
            self.unknown(key, 'term too deep')
        except MemoryError:
            self.unknown(key, 'terms too large')
        except PyRaise as e:
            self.unknown(key, 'raises %s' % (e.exc,))
        except (KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unknown(key, 'analysis stopped: %s: %s (%s:%d)' % (
                type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        return None

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def saw(self, it):
        self.functions |= {f for f in it.visited}
        self.callsites |= set(it.callsites)


BUDGET = 720
MEMORY = 4 << 30


class OutOfTime(BaseException):
    pass


def _late(sig, frame):
    raise OutOfTime()


def die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except (OSError, AttributeError, ImportError):
        pass


def limit_memory():
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    except (OSError, ValueError, ImportError):
        pass


def one_item(ck, work, chunk, left, wr):
    '''in a child process: what the obligations of these items are'''
    code = 0
    try:
        die_with_parent()
        limit_memory()
        sub = Check(ck.prop, ck.tier)
        try:
            signal.signal(signal.SIGALRM, _late)
            signal.alarm(max(1, int(left)))
            for x in chunk:
                sub.guard(ck.prop + ':item', work, sub, x)
            signal.alarm(0)
        except OutOfTime:
            sub.unknown(ck.prop + ':time', 'a worker ran out of its time')
        with os.fdopen(wr, 'wb') as fh:
            pickle.dump((sub.obl, sub.functions, sub.callsites, sub.counts, sub.missing), fh)
    except BaseException:
        traceback.print_exc()
        code = 3
    os._exit(code)


def parallel(ck, items, work):
    '''work(ck, item) for every item.  Each child process takes a few items and
    ends, so that the terms it made are given back; the results are put
    together in the order of the items.'''
    items = list(items)
    k = min(os.cpu_count() or 1, 8, len(items))
    if k <= 1 or os.environ.get('VERIF_SERIAL'):
        for x in items:
            ck.guard(ck.prop + ':item', work, ck, x)
        return
    n = max(1, min(len(items) // (6 * k), 6))
    chunks = [items[i:i + n] for i in range(0, len(items), n)]
    todo = list(range(len(chunks)))
    end = time.time() + BUDGET
    live, got = {}, {}
    sel = selectors.DefaultSelector()
    while todo or live:
        while todo and len(live) < k:
            i = todo.pop(0)
            left = end - time.time()
            if left < 1:
                got[i] = (None, 'a worker ran out of its time')
                continue
            r, wr = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                one_item(ck, work, chunks[i], left, wr)
            os.close(wr)
            live[r] = (i, pid, [])
            sel.register(r, selectors.EVENT_READ)
        for key, _ in sel.select() if live else ():
            r = key.fd
            data = os.read(r, 1 << 16)
            i, pid, parts = live[r]
            if data:
                parts.append(data)
                continue
            sel.unregister(r)
            os.close(r)
            _, st = os.waitpid(pid, 0)
            del live[r]
            data = b''.join(parts)
            got[i] = (data, None) if st == 0 and data else (None, 'a worker process ended early')
    for i in range(len(chunks)):
        data, why = got[i]
        if why:
            ck.unknown(ck.prop + (':time' if 'time' in why else ':worker'), why)
            continue
        obl, fs, cs, cn, ms = pickle.loads(data)
        for o in obl:
            ck._add(*o)
        ck.functions |= fs
        ck.callsites |= cs
        ck.missing += ms
        for a, b in cn.items():
            ck.count(a, b)


def known_findings():
    path = os.path.join(ROOT, 'known-findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: '):
                d = dict(x.split('=', 1) for x in line[7:].split(' ')[:2])
                out.append((d['property'], d['key'], line))
    return out


def finish(ck, t0, rule, assumptions=()):
    known = [(k, l) for p, k, l in known_findings() if p == ck.prop]
    viol = [(k, t) for k, s, t in ck.obl if s == 'violated']
    und = [(k, t) for k, s, t in ck.obl if s == 'undecided']
    good = [k for k, s, t in ck.obl if s == 'ok']
    listed = [(k, t) for k, t in viol if k in {x for x, _ in known}]
    new = [(k, t) for k, t in viol if k not in {x for x, _ in known}]
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join('evidence', ck.prop + '.violations.txt')
    if new:
        with open(os.path.join(ROOT, replay), 'w') as fh:
            for k, t in new:
                fh.write('%s\n    %s\n' % (k, t))
    elif os.path.exists(os.path.join(ROOT, replay)):
        os.remove(os.path.join(ROOT, replay))
    cov = {
        'explanation': 'Static analysis by abstract interpretation of the source (no code of the '
                       'repository is run). ' + rule,
        'obligations': len(ck.obl),
        'discharged': len(good),
        'undecided': len(und),
        'undecided_list': ['%s: %s' % x for x in und][:60],
        'functions_analysed': sorted(ck.functions),
        'call_sites_resolved': len(ck.callsites),
        'samples': good[:25],
        'counts': ck.counts,
        'rule': rule,
    }
    ev = dict(property=ck.prop, tier=ck.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
              level='other', coverage=cov, wall_s=round(time.time() - t0, 3),
              assumptions=list(assumptions), violations=len(new))
    with open(os.path.join(evdir, ck.prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions; %.1f s' % (
        ck.prop, len(ck.obl), len(good), len(und), len(viol), len(ck.functions), time.time() - t0))
    for k, t in und[:15]:
        print('  undecided: %s: %s' % (k, t))
    for k, t in listed:
        print('KNOWN-FINDING: property=%s %s %s' % (ck.prop, k, t))
    for k, t in new:
        print('  violated: %s: %s' % (k, t))
    if new:
        print('VIOLATION property=%s replay=%s' % (ck.prop, replay))
        return 1
    if ck.missing and not good:
        print('analysis broken: %s' % '; '.join(ck.missing))
        return 2
    if not ck.obl:
        print('analysis broken: no obligation')
        return 2
    return 0

"""Run-time oracle (Jython / Python 2.7): runs the real function and its
executable contract on the same inputs and compares everything observable.

stdin: one JSON job; stdout: one JSON result line starting with @@RESULT.
"""
import sys
import os
import json
import copy
import collections
import weakref
import random
import time
import types
import traceback
import inspect
import datetime

REPO = os.environ.get('PYVC_REPO', '/repo')
SPECS = os.environ['PYVC_SPECS']
sys.path[:0] = [SPECS, REPO]
sys.dont_write_bytecode = True

import speclib

EPOCH = 1
DROP = ('reason', 'description', 'context', 'context2', 'problem_text', 'msg')
CONTEXT_CALLS = ('SetFileContext', 'ClearContext', 'SetContext')

_REAL_STDOUT = sys.stdout


class Skip(Exception):
    pass


def resolve(qual):
    parts = qual.split('.')
    for i in range(len(parts), 0, -1):
        name = '.'.join(parts[:i])
        try:
            __import__(name)
        except ImportError:
            continue
        o = sys.modules[name]
        owner = None
        for p in parts[i:]:
            owner = o
            o = inspect_static(o, p)
        return owner, o
    raise ImportError(qual)


def inspect_static(o, p):
    if isinstance(o, (type, types.ClassType)):
        for c in inspect.getmro(o):
            if p in c.__dict__:
                v = c.__dict__[p]
                if isinstance(v, property):
                    return v.fget
                return getattr(c, p)
    return getattr(o, p)


class Recorder(object):
    """Stands for a problem reporter; every report is recorded."""
    def __init__(self, events=None, who=''):
        self.events = [] if events is None else events
        self.who = who
        self.accumulator = self

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        from transitfeed import problems
        if name in CONTEXT_CALLS:
            return lambda *a, **k: None
        if name == 'GetFileContext':
            return lambda *a, **k: ('ctx', 1)
        f = getattr(problems.ProblemReporter, name)
        spec = inspect.getargspec(f)

        def report(*a, **k):
            names = spec.args[1:]
            if len(a) > len(names):
                raise TypeError('too many arguments')
            env = dict(zip(names, a))
            for n in k:
                if n not in names or n in env:
                    raise TypeError('bad argument %s' % n)
            env.update(k)
            dfl = spec.defaults or ()
            for n, d in zip(names[len(names) - len(dfl):], dfl):
                env.setdefault(n, d)
            for n in names:
                if n not in env:
                    raise TypeError('missing argument %s' % n)
            self.events.append((name + self.who, [(n, freeze(env[n])) for n in names
                                       if n not in DROP]))
        return report


def freeze(v):
    if isinstance(v, list):
        return [freeze(x) for x in v]
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return dict(v)
    if isinstance(v, set):
        return set(v)
    return v


# ------------------------------------------------------------- building
class Env(object):
    def __init__(self, desc, real=False):
        self.desc = desc
        self.real = real        # build for the code, not for the contract
        self.objs = {}
        self.rep = Recorder()

    def build(self, d):
        if d is None or isinstance(d, (bool, int, long)):
            return d
        if isinstance(d, float):
            return d
        if isinstance(d, basestring):
            return d
        k = d.keys()[0]
        v = d[k]
        if k == 'int':
            return int(v)
        if k == 'float':
            return float(v)
        if k == 'str':
            return v.encode('utf-8') if all(ord(c) < 128 for c in v) else v
        if k == 'date':
            return datetime.date.fromordinal(min(max(v, 693596), 767376))
        if k == 'delta':
            return datetime.timedelta(days=v)
        if k == 'rep':
            return self.rep
        if k == 'factory':
            import transitfeed
            return transitfeed.GetGtfsFactory()
        if k == 'opq':
            return 'opq:%s:%s' % (v[0], v[1])
        if k == 'tuple':
            return tuple(self.build(x) for x in v)
        if k == 'list':
            return [self.build(x) for x in v]
        if k == 'set':
            return set(self.build(x) for x in v)
        if k == 'dict':
            return dict((self.build(a), self.build(b)) for a, b in v)
        if k == 'new':
            return new_instance(v)
        if k == 'obj':
            return self.obj(v)
        raise ValueError('cannot build %r' % (d,))

    def obj(self, key):
        if key in self.objs:
            return self.objs[key]
        od = self.desc['objs'][key]
        o = new_instance(od['cls'])
        self.objs[key] = o
        for f, fd in od['fields'].items():
            if isinstance(fd, dict) and 'absent' in fd:
                continue
            if f == '_db_rows' and self.real:
                fill_table(o, self.build(fd))
                continue
            put(o, f, self.build(fd))
        return o


class Counting(object):
    """The connection, with the row count of a DELETE as sqlite3 gives it
    (Jython's driver leaves it unset)."""

    def __init__(self, connection):
        self._counting = connection

    def cursor(self, *args):
        return CountingCursor(self._counting.cursor(*args))

    def __getattr__(self, name):
        return getattr(self._counting, name)


class CountingCursor(object):
    def __init__(self, cursor):
        self._counting = cursor
        self.rowcount = -1

    def execute(self, sql, *args):
        r = self._counting.execute(sql, *args)
        if sql.lstrip().upper().startswith('DELETE'):
            self._counting.execute('SELECT changes()')
            self.rowcount = self._counting.fetchall()[0][0]
        return r

    def __iter__(self):
        return iter(self._counting.fetchall())

    def __getattr__(self, name):
        return getattr(self._counting, name)


def fill_table(schedule, rows):
    schedule.__class__.ConnectDb(schedule, True)
    schedule.__dict__['_connection'] = Counting(
        schedule.__dict__['_connection'])
    c = schedule.__dict__['_connection'].cursor()
    for r in rows:
        c.execute('INSERT INTO stop_times (%s) VALUES (%s)' % (
            ','.join(SQL_COLUMNS), ','.join(['?'] * len(SQL_COLUMNS))), r)


def read_table(connection):
    c = connection.cursor()
    c.execute('SELECT %s FROM stop_times ORDER BY rowid' %
              ','.join(SQL_COLUMNS))
    return [tuple(r) for r in c.fetchall()]


SQL_COLUMNS = ['trip_id', 'arrival_secs', 'departure_secs', 'stop_id',
               'stop_sequence', 'stop_headsign', 'pickup_type',
               'drop_off_type', 'shape_dist_traveled', 'timepoint']


def put(o, f, v):
    if f == 'problem_reporter' and isinstance(v, Recorder):
        v = Recorder(v.events, '@%s.%s' % (type(o).__name__, f))
    if f == '_transfers' and type(v) is dict:
        v = collections.defaultdict(lambda: [], v)
    d = getattr(o, '__dict__', None)
    if d is not None and not has_slots(o):
        d[f] = v
    else:
        object.__setattr__(o, f, v)


def has_slots(o):
    return '__slots__' in o.__class__.__dict__


def slot_dict(o):
    d = {}
    for n in o.__class__.__dict__['__slots__']:
        try:
            d[n] = object.__getattribute__(o, n)
        except AttributeError:
            pass
    return d


def real_class(name):
    c = speclib.CLASSES[name]
    return resolve(c['real'])[1]


def new_instance(name):
    c = real_class(name)
    if isinstance(c, types.ClassType):
        return types.InstanceType(c, {})
    return c.__new__(c)


def decl_of(o):
    t = o.__class__
    for n, c in speclib.CLASSES.items():
        if real_class_cached(n) is t:
            return c
    for n, c in speclib.CLASSES.items():
        k = real_class_cached(n)
        if k is not None and isinstance(o, k):
            return c
    return None


_rc = {}


def real_class_cached(n):
    if n not in _rc:
        try:
            _rc[n] = real_class(n)
        except (ImportError, AttributeError):
            _rc[n] = None
    return _rc[n]


def all_fields(c):
    out = []
    while c is not None:
        out.extend(c['fields'].keys())
        c = speclib.CLASSES.get(c['base']) if c['base'] else None
    return out


# ------------------------------------------------------------- comparison
class Canon(object):
    """Canonical form; objects are numbered by discovery order."""
    def __init__(self, ignore):
        self.ids = {}
        self.keep = []
        self.ignore = ignore

    names = {}

    def canon(self, v, depth=0):
        if type(v) in weakref.ProxyTypes:
            v = v.__repr__.__self__
        if v is None or isinstance(v, (bool, int, long, float, str, unicode)):
            return v
        if isinstance(v, datetime.datetime):
            return ('date', v.toordinal(), v.hour)
        if isinstance(v, datetime.date):
            return ('date', v.toordinal())
        if isinstance(v, datetime.timedelta):
            return ('delta', v.days, v.seconds)
        if isinstance(v, types.GeneratorType):
            v = list(v)
        if isinstance(v, tuple):
            return ('tuple',) + tuple(self.canon(x) for x in v)
        if isinstance(v, list):
            return ['list'] + [self.canon(x) for x in v]
        if isinstance(v, (set, frozenset)):
            return ('set', sorted([self.canon(x) for x in v], key=skey))
        if isinstance(v, dict):
            items = v.items()
            if any(id(a) in self.names for a, _ in items):
                # objects as keys: an order both sides agree on
                items.sort(key=lambda x: self.names.get(id(x[0]), ''))
                return ('dict', [(self.canon(a), self.canon(b))
                                 for a, b in items])
            return ('dict', sorted([(self.canon(a), self.canon(b))
                                    for a, b in items], key=skey))
        if isinstance(v, Recorder):
            return 'REP'
        if isinstance(v, (type, types.ClassType)):
            return ('class', v.__name__)
        if isinstance(v, (types.FunctionType, types.MethodType)):
            return ('func', v.__name__)
        i = self.ids.get(id(v))
        if i is not None:
            return ('ref', i)
        i = len(self.ids)
        self.ids[id(v)] = i
        self.keep.append(v)
        d = getattr(v, '__dict__', None)
        if has_slots(v):
            d = slot_dict(v)
        c = decl_of(v)
        if d is None or c is None:
            return ('opaque', v.__class__.__name__)
        fs = {}
        for f in all_fields(c):
            if '%s.%s' % (c['name'], f) in self.ignore:
                continue
            if f in d:
                fs[f] = self.canon(d[f])
            elif f == '_db_rows' and '_connection' in d:
                fs[f] = self.canon(read_table(d['_connection']))
        return ('obj', i, v.__class__.__name__, fs)


def skey(x):
    return repr(x)


def same(a, b):
    if isinstance(a, (int, long, float, bool)) and \
            isinstance(b, (int, long, float, bool)):
        if a == b:
            return True
        if isinstance(a, float) or isinstance(b, float):
            try:
                return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)) or \
                    (a != a and b != b)
            except OverflowError:
                return False
        return False
    if isinstance(a, basestring) and isinstance(b, basestring):
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return type(a) == type(b) and a == b


def match_events(a, b):
    """Reports as a multiset."""
    if len(a) != len(b):
        return False
    rest = list(b)
    for x in a:
        for y in rest:
            if same(x, y):
                rest.remove(y)
                break
        else:
            return False
    return True


def show(v, n=1500):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


# ------------------------------------------------------------- running
class Patched(object):
    def __init__(self, patches):
        self.patches = patches

    def __enter__(self):
        self.saved = []
        for owner, name, new in self.patches:
            old = owner.__dict__.get(name) if isinstance(
                owner, (type, types.ClassType)) else getattr(owner, name)
            self.saved.append((owner, name, old))
            setattr(owner, name, new)

    def __exit__(self, *a):
        for owner, name, old in reversed(self.saved):
            setattr(owner, name, old)


class Quiet(object):
    def write(self, s):
        pass

    def flush(self):
        pass


class Timeout(Exception):
    pass


def run_one(fn, args, ignore, env):
    """(outcome, result, state, events)"""
    random.seed(7)
    try:
        r = fn(*args)
        if isinstance(r, types.GeneratorType):
            r = list(r)
        out = ['return']
    except Exception as e:
        n = e.__class__.__name__
        out = ['raise', n]
        r = None
        tb = traceback.format_exc()
        env.tb = tb
    c = Canon(ignore)
    c.names = dict((id(o), key) for key, o in env.objs.items())
    res = c.canon(r) if not isinstance(r, dict) or True else r
    state = [c.canon(a) for a in args]
    ev = [(n, [(k, c.canon(v)) for k, v in vs]) for n, vs in env.rep.events]
    return out, res, state, ev


class Runner(object):
    def __init__(self, spec, job):
        self.spec = spec
        self.vc = spec.vc
        self.kind = self.vc['kind']
        self.ignore = set(self.vc.get('ignore', []))
        self.names = inspect.getargspec(spec).args
        self.req = []
        self.skip_error = None
        r = self.vc.get('requires', [])
        for x in ([r] if isinstance(r, basestring) else r):
            self.req.append(compile(x, '<requires>', 'eval'))
        self.target = None
        self.patches = []
        if self.kind == 'contract':
            owner, t = resolve(self.vc['target'])
            if isinstance(t, types.MethodType):
                self.bound_cls = t.im_self is not None
                t = t.im_func if t.im_self is None else t
            self.target = t
        for f in speclib.REGISTRY:
            if f.vc.get('modular') == 'assumed' and f is not spec and \
                    f.vc['target'] not in self.vc.get('inline', []) and \
                    f.vc['target'] != self.vc['target']:
                owner, t = resolve(f.vc['target'])
                self.patches.append((owner, f.vc['target'].split('.')[-1], f))

    def check(self, desc):
        """None if fine, 'skip', or a description of the mismatch."""
        ev = Env(desc)
        try:
            vals = dict((n, ev.build(d)) for n, d in desc['args'])
            g = dict(self.spec.__globals__) if hasattr(
                self.spec, '__globals__') else dict(self.spec.func_globals)
            g.update(vals)
            for c in self.req:
                if not eval(c, g):
                    return 'skip'
        except Skip:
            return 'skip'
        except Exception:
            if not self.skip_error:
                self.skip_error = traceback.format_exc()[-600:]
            return 'skip'
        with Patched(self.patches):
            if self.kind == 'lemma':
                e = Env(desc)
                a = [e.build(dict(desc['args'])[n]) for n in self.names]
                try:
                    self.spec(*a)
                except AssertionError:
                    return 'lemma fails: ' + traceback.format_exc()[-1500:]
                except Exception:
                    return 'lemma raises: ' + traceback.format_exc()[-1500:]
                return None
            e1, e2 = Env(desc, True), Env(desc)
            d = dict(desc['args'])
            a2 = [e2.build(d[n]) for n in self.names]
            s = run_one(self.spec, a2, self.ignore, e2)
            if s[0][0] == 'raise' and s[0][1] == 'Skip':
                return 'skip'
            a1 = [e1.build(d[n]) for n in self.names]
            t = run_one(self.target, a1, self.ignore, e1)
        if t[0] != s[0]:
            return 'outcome: code %r, contract %r; code result %s, contract '\
                'result %s\n%s%s' % (t[0], s[0], show(t[1]), show(s[1]),
                                   getattr(e1, 'tb', '')[-800:],
                                   getattr(e2, 'tb', '')[-800:])
        if not same(t[1], s[1]):
            return 'result: code %s, contract %s' % (show(t[1]), show(s[1]))
        if self.vc.get('log', True) and not match_events(t[3], s[3]):
            return 'reports: code %s, contract %s' % (show(t[3]), show(s[3]))
        if self.vc.get('heap', True) and not same(t[2], s[2]):
            return 'state after the call: code %s, contract %s' % (
                show(t[2]), show(s[2]))
        return None


# ------------------------------------------------------------- generation
DATES = ['20090101', '20090105', '20090106', '20081231', '20100228',
         '20120229', '19991231', '20090110', '20090111', '19000101',
         '21001231', '20091301', '', ' ', 'abc', '20090230', '2009-01-01']
TIMES = ['00:00:00', '08:00:00', '8:05:00', '23:59:59', '24:00:00',
         '25:10:10', '12:60:00', '', ' ', 'x', '08:00', '-1:00:00',
         '99:59:59', '100:00:00', '08:00:00 ']
STRS = ['', ' ', 'a', 'b', 'ab', 'A', '0', '1', '2', '3', '-1', '1.5', '10',
        'x y', ' a ', 'id1', 'id2', '0.0', 'a,b', '007', '+3', 'nan',
        'http://a.com', 'en', 'USD', 'FF0000', 'Foo', 'foo']
INTS = [0, 1, 2, 3, -1, 4, 5, 7, 10, 60, 100, 3600, 86399, 86400, 90000,
        -5, 12, 1000]
FLOATS = [0.0, 1.0, -1.0, 0.5, 1.5, 2.0, 10.0, 45.0, -45.0, 90.0, -90.0,
          180.0, -180.0, 91.0, 181.0, 0.001, 1e-06, 100.0, 37.5, -122.25,
          89.999, 3.0, 1e5]


class Gen(object):
    def __init__(self, rng, lits, pools, maxlen):
        self.r = rng
        self.lits = lits
        self.attrs = None
        self.pools = pools
        self.maxlen = maxlen
        self.desc = None

    def pool(self, name, wrap='%s'):
        if name is None:
            return None
        p = self.pools.get(wrap % name)
        if p is None and '.' in name:
            c, rest = name.split('.', 1)
            if c in speclib.CLASSES:
                p = self.pools.get(wrap % rest)
                if p is None:
                    p = speclib.CLASSES[c]['pools'].get(wrap % rest)
        return p

    def typed(self, name, types, lit=()):
        p = self.pool(name)
        if p is None:
            return None
        return [x for x in p if isinstance(x, types) and
                not isinstance(x, bool)] or None

    def int_(self, name):
        r = self.r
        p = self.typed(name, (int, long))
        if p is not None and r.random() < 0.95:
            return r.choice(p)
        x = r.random()
        if x < 0.35:
            return r.choice(INTS)
        if x < 0.65 and self.lits.get('int'):
            return r.choice(self.lits['int']) + r.choice([-1, 0, 0, 0, 1])
        if x < 0.9:
            return r.randint(0, 12)
        return r.randint(-10, 100000)

    def float_(self, name):
        r = self.r
        p = self.typed(name, (float, int, long))
        if p is not None and r.random() < 0.95:
            return float(r.choice(p))
        x = r.random()
        if x < 0.5:
            return r.choice(FLOATS)
        if x < 0.65 and self.lits.get('float'):
            return r.choice(self.lits['float']) + r.choice(
                [-0.001, 0.0, 0.0, 0.001])
        if x < 0.75 and self.lits.get('int'):
            return float(r.choice(self.lits['int']) + r.choice([-1, 0, 0, 1]))
        if x < 0.9:
            return r.uniform(-10, 10)
        return r.uniform(-200, 2000)

    def str_(self, name):
        r = self.r
        p = self.typed(name, (basestring, type(None)))
        if p is not None and r.random() < 0.95:
            return r.choice(p)
        x = r.random()
        if 'date' in (name or '') and x < 0.8:
            return r.choice(DATES)
        if 'time' in (name or '') and 'zone' not in name and x < 0.8:
            return r.choice(TIMES)
        if x < 0.35 and self.lits.get('str'):
            return r.choice(self.lits['str'])
        if x < 0.9:
            return r.choice(STRS)
        return ''.join(r.choice('ab01 :.-') for _ in range(r.randint(0, 8)))

    def gen(self, T, name=None, depth=0):
        r = self.r
        k = T[0]
        if k == 'int':
            return self.int_(name)
        if k == 'bool':
            return r.random() < 0.5
        if k == 'real':
            return {'float': self.float_(name)}
        if k == 'str':
            v = self.str_(name)
            return {'str': v} if v is not None else None
        if k == 'none':
            return None
        if k == 'date':
            p = self.pool(name)
            if p:
                return {'date': r.choice(p)}
            return {'date': 733408 + r.choice([0, 1, 2, 3, 7, 30, 365, -1,
                                               r.randint(-400, 800)])}
        if k == 'delta':
            return {'delta': r.randint(-5, 400)}
        if k in ('rep', 'absent', 'factory'):
            return {k: 1}
        if k == 'new':
            return {'new': T[1]}
        if k == 'opq':
            return {'opq': [T[1], r.randint(0, 3)]}
        if k == 'tuple':
            p = self.pool(name)
            if p is not None and isinstance(p[0], tuple):
                return self.lift(r.choice(p))
            return {'tuple': [self.gen(t, '%s.%d' % (name, i), depth)
                              for i, t in enumerate(T[1:])]}
        if k == 'union':
            alts = T[1:]
            if name in self.pools and '.' in name and name[0].isupper():
                return self.lift(r.choice(self.pools[name]))
            if name in self.pools and None not in self.pools[name]:
                pass
            elif ('none',) in alts and r.random() < (0.3 if depth < 4 else .9):
                return None
            if ('absent',) in alts and r.random() < 0.2:
                return {'absent': 1}
            rest = [a for a in alts if a[0] not in ('none', 'absent')] or alts
            return self.gen(r.choice(rest), name, depth)
        if k in ('list', 'set', 'dict'):
            fixed = self.pool(name, 'len(%s)')
            n = self.length(depth)
            if fixed is not None:
                n = r.choice(fixed)
            if k == 'dict':
                out = []
                seen = set()
                for _ in range(n):
                    a = self.gen(T[1], '%s.key' % name, depth + 1)
                    key = json.dumps(a, sort_keys=True)
                    if key in seen:
                        continue
                    seen.add(key)
                    out.append([a, self.gen(T[2], '%s.value' % name,
                                            depth + 1)])
                return {'dict': out}
            items = [self.gen(T[1], '%s.item' % name, depth + 1)
                     for _ in range(n)]
            if k == 'list' and items and r.random() < 0.5:
                items = self.maybe_sort(items)
            return {k: items}
        if k == 'obj':
            return self.obj(T[1], depth)
        raise ValueError('no generator for %r' % (T,))

    def lift(self, v):
        if isinstance(v, tuple):
            return {'tuple': [self.lift(x) for x in v]}
        if isinstance(v, float):
            return {'float': v}
        if isinstance(v, basestring):
            return {'str': v}
        return v

    def length(self, depth):
        r = self.r
        m = self.maxlen if depth < 2 else 2
        return r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6][:m + 4]) if m else 0

    def maybe_sort(self, items):
        if all(isinstance(x, int) for x in items):
            return sorted(items)
        if all(isinstance(x, dict) and 'float' in x for x in items):
            return sorted(items, key=lambda d: d['float'])
        return items

    def obj(self, cls, depth):
        r = self.r
        objs = self.desc['objs']
        have = [k for k, o in objs.items() if o['cls'] == cls]
        if have and (depth > 4 or r.random() < 0.25 or len(objs) > 12):
            return {'obj': r.choice(have)}
        subs = [n for n, c in speclib.CLASSES.items() if c['base'] == cls]
        key = '%s#%d' % (cls, len(objs))
        o = {'cls': cls, 'fields': {}}
        objs[key] = o
        if have and r.random() < 0.3:
            # a near copy of an object made before
            old = objs[r.choice(have)]['fields']
            twin = dict((f, copy.deepcopy(old[f])) for f in sorted(old)
                        if r.random() < 0.9)
        else:
            twin = {}
        c = speclib.CLASSES[cls]
        while c is not None:
            for f in sorted(c['fields']):
                if f.startswith('__'):
                    continue
                T = parse_type(c['fields'][f])
                nm = '%s.%s' % (c['name'], f)
                if f in twin:
                    o['fields'][f] = twin[f]
                elif self.attrs is not None and f not in self.attrs and \
                        (depth > 0 or cls == 'Schedule'):
                    o['fields'][f] = self.minimal(T)
                else:
                    o['fields'][f] = self.gen(T, nm, depth + 1)
            c = speclib.CLASSES.get(c['base']) if c['base'] else None
        return {'obj': key}

    def minimal(self, T):
        """A cheap value for a field the code under test does not name."""
        alts = T[1:] if T[0] == 'union' else (T,)
        for a in alts:
            if a[0] in ('none', 'absent'):
                return None if a[0] == 'none' else {'absent': 1}
        for a in alts:
            if a[0] in ('list', 'set', 'dict'):
                return {a[0]: []}
        return self.gen(T, None, 9)


_tp = {}


def parse_type(s):
    if s not in _tp:
        _tp[s] = ty_parse(s)
    return _tp[s]


import re as _re
_tok = _re.compile(r'\s*([A-Za-z_][A-Za-z_0-9]*|[\[\],])')
SIMPLE = {'Int': ('int',), 'Bool': ('bool',), 'Float': ('real',),
          'Real': ('real',), 'Str': ('str',), 'None': ('none',),
          'Date': ('date',), 'Delta': ('delta',), 'Absent': ('absent',),
          'Reporter': ('rep',), 'Factory': ('factory',)}


def ty_parse(s):
    toks = _tok.findall(s)
    pos = [0]

    def nxt():
        t = toks[pos[0]]
        pos[0] += 1
        return t

    def args():
        nxt()
        out = [ty()]
        while toks[pos[0]] == ',':
            nxt()
            out.append(ty())
        nxt()
        return out

    def ty():
        n = nxt()
        if n in SIMPLE:
            return SIMPLE[n]
        if n == 'Opt':
            a = args()[0]
            return ('union', ('none',)) + (a[1:] if a[0] == 'union' else (a,))
        if n == 'Union':
            out = []
            for a in args():
                out.extend(a[1:] if a[0] == 'union' else (a,))
            return ('union',) + tuple(out)
        if n == 'List':
            return ('list', args()[0])
        if n == 'Set':
            return ('set', args()[0])
        if n == 'Dict':
            a = args()
            return ('dict', a[0], a[1])
        if n == 'Tuple':
            return ('tuple',) + tuple(args())
        if n in ('Opq', 'New'):
            return (n.lower(), args()[0][1])
        return ('obj', n)
    return ty()


def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == '[':
            depth += 1
        elif ch == ']':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [(a.split(':', 1)[0].strip(), ty_parse(a.split(':', 1)[1].strip()))
            for a in out]


def run_job(job):
    res = {'contracts': []}
    for m in sorted(os.listdir(SPECS)):
        if m.startswith('spec_') and m.endswith('.py'):
            __import__(m[:-3])
    byname = {}
    for f in speclib.REGISTRY:
        byname[f.__module__ + '.' + f.__name__] = f
    deadline = time.time() + job.get('seconds', 60)
    todo = job['contracts']
    for i, c in enumerate(todo):
        r = {'name': c['name'], 'runs': 0, 'skipped': 0, 'mismatch': None}
        res['contracts'].append(r)
        t0 = time.time()
        f = byname.get(c['name'])
        if f is None:
            r['error'] = 'contract not found at run time'
            continue
        share = (deadline - time.time()) / float(len(todo) - i)
        limit = time.time() + max(share, 0.3)
        if f.vc['kind'] == 'scenario':
            run_scenario(f, c, r, limit, job)
            r['seconds'] = round(time.time() - t0, 2)
            continue
        try:
            run = Runner(f, job)
        except (ImportError, AttributeError) as e:
            r['error'] = 'cannot resolve target: %s' % e
            continue
        # 1. the verifier's counterexamples
        for d in c.get('inputs') or []:
            try:
                m = run.check(d)
            except Exception:
                r['error'] = traceback.format_exc()[-800:]
                continue
            if m == 'skip':
                r['skipped'] += 1
            elif m:
                r['mismatch'] = m
                r['input'] = d
                r['origin'] = 'counterexample of the verifier'
                break
            else:
                r['runs'] += 1
        # 2. type-directed search
        if not r['mismatch'] and c.get('cases', 0) and not r.get('error'):
            try:
                search(run, f, c, r, limit, job)
            except Exception:
                r['error'] = traceback.format_exc()[-1500:]
        r['skip_error'] = run.skip_error
        r['seconds'] = round(time.time() - t0, 2)
    return res


def search(run, f, c, r, limit, job):
    import zlib
    seed = (job.get('seed', 1) * 1000003) ^ zlib.adler32(c['name'])
    rng = random.Random(seed)
    args = split_args(f.vc['args'])
    pools = dict(f.vc.get('pools') or {})
    n = 0
    seen = set()
    gen_fn = f.vc.get('gen')
    while n < c['cases'] and time.time() < limit:
        n += 1
        g = Gen(rng, c.get('literals') or {}, dict(pools),
                f.vc.get('maxlen', 4))
        g.desc = {'args': [], 'objs': {}}
        if c.get('attrs') and rng.random() < 0.9:
            g.attrs = set(c['attrs'])
        try:
            if gen_fn is not None:
                d = gen_fn(g, args)
                if d is not None:
                    g.desc = d
            else:
                for name, T in args:
                    g.desc['args'].append([name, g.gen(T, name)])
        except Skip:
            continue
        ser = json.dumps(g.desc, sort_keys=True)
        d = json.loads(ser)
        m = run.check(d)
        if m == 'skip':
            r['skipped'] += 1
            continue
        r['runs'] += 1
        if hash(ser) not in seen:
            seen.add(hash(ser))
            r['distinct'] = len(seen)
        if r['runs'] == 3:
            r['samples'] = [d]
        if m:
            d, m = shrink(run, d, m)
            r['mismatch'] = m
            r['input'] = d
            r['origin'] = 'search'
            return


def shrink(run, d, m):
    """Greedy removal of list elements and simplification."""
    end = time.time() + 5
    changed = True
    while changed and time.time() < end:
        changed = False
        for path in list(list_paths(d)):
            try:
                lst = at(d, path)
            except (LookupError, TypeError):
                continue        # removed meanwhile
            if not isinstance(lst, list):
                continue
            i = 0
            while i < len(lst) and time.time() < end:
                d2 = json.loads(json.dumps(d))
                del at(d2, path)[i]
                try:
                    m2 = run.check(d2)
                except Exception:
                    m2 = None
                if m2 and m2 != 'skip':
                    d, m = d2, m2
                    lst = at(d, path)
                    changed = True
                else:
                    i += 1
    return d, m


def list_paths(d, pre=()):
    if isinstance(d, dict):
        for k in d:
            if k in ('list', 'dict', 'set') and isinstance(d[k], list):
                yield pre + (k,)
            for x in list_paths(d[k], pre + (k,)):
                yield x
    elif isinstance(d, list):
        for i, x in enumerate(d):
            for y in list_paths(x, pre + (i,)):
                yield y


def at(d, path):
    for p in path:
        d = d[p]
    return d


def run_scenario(f, c, r, limit, job):
    """f(rng, cases, limit) -> number of cases; raises AssertionError."""
    import zlib
    rng = random.Random((job.get('seed', 1) * 1000003) ^
                        zlib.adler32(c['name']))
    try:
        n = 0
        while n < c.get('cases', 50) and (n == 0 or time.time() < limit):
            state = rng.getstate()
            n += 1
            seed = rng.randint(0, 10 ** 9)
            if c.get('seeds'):
                seed = c['seeds'][0]
            f(random.Random(seed))
            r['runs'] += 1
            r['distinct'] = r['runs']
            if r['runs'] == 1:
                r['samples'] = [{'scenario_seed': seed}]
            if c.get('seeds'):
                break
    except Exception as e:
        r['mismatch'] = '%s\n%s' % (e, traceback.format_exc()[-1500:])
        r['input'] = {'scenario_seed': seed}
        r['origin'] = 'scenario'


def main():
    # an assignment also adds a table column: not modelled, switched off
    from transitfeed.gtfsobjectbase import GtfsObjectBase
    if '__setattr__' in GtfsObjectBase.__dict__:
        del GtfsObjectBase.__setattr__
    job = json.loads(sys.stdin.read())
    quiet = Quiet()
    err = sys.stderr
    sys.stdout = quiet
    try:
        res = run_job(job)
    except Exception:
        res = {'error': traceback.format_exc()}
    sys.stdout = _REAL_STDOUT
    s = json.dumps(res, default=repr)
    print '@@RESULT' + s
    sys.stdout.flush()
    os._exit(0)


main()

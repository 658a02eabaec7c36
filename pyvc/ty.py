"""Types (declared shapes of Python values) and their z3 component encoding.

A type is a tuple: ('int',) ('bool',) ('real',) ('str',) ('none',) ('date',)
('delta',) ('opq', name) ('obj', cls) ('tuple', T...) ('list', T) ('dict', K, V)
('set', K) ('union', T...) ('absent',) ('rep',) ('never',)

Every value of a type is encoded by the vector of z3 terms whose sorts
`sorts(T)` lists.  Mathematical integers and reals are used for Python int/long
and float (see DESIGN.md, trusted base).
"""
import re
import z3

INT = ('int',)
BOOL = ('bool',)
REAL = ('real',)
STR = ('str',)
NONE = ('none',)
DATE = ('date',)
DELTA = ('delta',)
ABSENT = ('absent',)
UNBOUND = ('unbound',)
REP = ('rep',)
NEVER = ('never',)
FACTORY = ('factory',)


class Mode(object):
    strings = 'opaque'   # 'opaque' (ordered uninterpreted) | 'seq'


def str_sort():
    return z3.StringSort() if Mode.strings == 'seq' else z3.RealSort()


_opq = {}


def opq_sort(name):
    if name not in _opq:
        _opq[name] = z3.DeclareSort('O_' + name)
    return _opq[name]


_keysorts = {}


def key_sort(K):
    ss = sorts(K)
    if len(ss) == 1:
        return ss[0]
    name = 'Key_' + '_'.join(str(s) for s in ss)
    name = re.sub(r'\W', '_', name)
    if name not in _keysorts:
        d = z3.Datatype(name)
        d.declare('mk', *[('f%d' % i, s) for i, s in enumerate(ss)])
        _keysorts[name] = d.create()
    return _keysorts[name]


def mk_key(K, terms):
    if len(terms) == 1:
        return terms[0]
    if not terms:
        return key_sort(K).mk
    return key_sort(K).mk(*terms)


def key_parts(K, term):
    ss = sorts(K)
    if len(ss) == 1:
        return [term]
    s = key_sort(K)
    return [s.accessor(0, i)(term) for i in range(len(ss))]


_sorts_memo = {}


def sorts(T):
    key = (Mode.strings, T)
    r = _sorts_memo.get(key)
    if r is None:
        r = _sorts(T)
        _sorts_memo[key] = r
    return r


def _sorts(T):
    k = T[0]
    if k in ('int', 'date', 'delta', 'obj'):
        return [z3.IntSort()]
    if k == 'bool':
        return [z3.BoolSort()]
    if k == 'real':
        return [z3.RealSort()]
    if k == 'str':
        return [str_sort()]
    if k in ('none', 'absent', 'rep', 'never', 'unbound', 'factory'):
        return []
    if k == 'opq':
        return [opq_sort(T[1])]
    if k == 'tuple':
        return [s for t in T[1:] for s in sorts(t)]
    if k == 'list':
        return [z3.IntSort()] + [z3.ArraySort(z3.IntSort(), s)
                                 for s in sorts(T[1])]
    if k == 'dict':
        ks = key_sort(T[1])
        return ([z3.ArraySort(ks, z3.BoolSort()), z3.IntSort()] +
                [z3.ArraySort(ks, s) for s in sorts(T[2])])
    if k == 'set':
        ks = key_sort(T[1])
        return [z3.ArraySort(ks, z3.BoolSort()), z3.IntSort()]
    if k == 'union':
        return [z3.IntSort()] + [s for t in T[1:] for s in sorts(t)]
    raise ValueError('no sorts for %r' % (T,))


def default_term(s):
    k = s.kind()
    if k == z3.Z3_INT_SORT:
        return z3.IntVal(0)
    if k == z3.Z3_REAL_SORT:
        return z3.RealVal(0)
    if k == z3.Z3_BOOL_SORT:
        return z3.BoolVal(False)
    if k == z3.Z3_ARRAY_SORT:
        return z3.K(s.domain(), default_term(s.range()))
    if k == z3.Z3_SEQ_SORT:
        return z3.StringVal('')
    if k == z3.Z3_DATATYPE_SORT:
        return s.mk(*[default_term(s.accessor(0, i).range())
                      for i in range(s.constructor(0).arity())])
    return z3.Const('dflt_' + s.name(), s)


ORDER = ['none', 'absent', 'unbound', 'bool', 'int', 'real', 'str', 'date',
         'delta', 'opq', 'obj', 'tuple', 'list', 'dict', 'set', 'rep',
         'factory', 'never']


def mk_union(alts):
    """Canonical union type of alts (flattened, sorted, deduplicated)."""
    flat = []
    for a in alts:
        if a[0] == 'union':
            flat.extend(a[1:])
        elif a[0] != 'never':
            flat.append(a)
    # merge lists / dicts / tuples of same shape
    out = []
    for a in flat:
        for i, b in enumerate(out):
            m = _merge(a, b)
            if m is not None:
                out[i] = m
                break
        else:
            out.append(a)
    if not out:
        return NEVER
    out = sorted(set(out), key=lambda t: (ORDER.index(t[0]), repr(t)))
    if len(out) == 1:
        return out[0]
    return ('union',) + tuple(out)


def _merge(a, b):
    if a == b:
        return a
    if a[0] != b[0]:
        return None
    if a[0] == 'list':
        return ('list', join(a[1], b[1]))
    if a[0] == 'set':
        return ('set', join(a[1], b[1]))
    if a[0] == 'dict':
        return ('dict', join(a[1], b[1]), join(a[2], b[2]))
    if a[0] == 'tuple' and len(a) == len(b):
        return ('tuple',) + tuple(join(x, y) for x, y in zip(a[1:], b[1:]))
    return None


def join(a, b):
    if a == b:
        return a
    return mk_union([a, b])


def alts(T):
    return T[1:] if T[0] == 'union' else (T,)


# ---------------------------------------------------------------- parsing
_tok = re.compile(r'\s*([A-Za-z_][A-Za-z_0-9]*|[\[\],])')


def parse(s):
    if isinstance(s, tuple):
        return s
    toks = _tok.findall(s)
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def nxt():
        t = toks[pos[0]]
        pos[0] += 1
        return t

    def args():
        assert nxt() == '['
        out = [ty()]
        while peek() == ',':
            nxt()
            out.append(ty())
        assert nxt() == ']', s
        return out

    simple = {'Int': INT, 'Bool': BOOL, 'Float': REAL, 'Real': REAL,
              'Str': STR, 'None': NONE, 'Date': DATE, 'Delta': DELTA,
              'Absent': ABSENT, 'Reporter': REP, 'Factory': FACTORY}

    def ty():
        n = nxt()
        if n in simple:
            return simple[n]
        if n == 'Opt':
            return mk_union([NONE, args()[0]])
        if n == 'Union':
            return mk_union(args())
        if n == 'List':
            return ('list', args()[0])
        if n == 'Set':
            return ('set', args()[0])
        if n == 'Dict':
            k, v = args()
            return ('dict', k, v)
        if n == 'Tuple':
            return ('tuple',) + tuple(args())
        if n == 'Opq':
            return ('opq', args()[0][1])
        if n == 'New':
            return ('new', args()[0][1])
        return ('obj', n)

    r = ty()
    assert pos[0] == len(toks), s
    return r


def show(T):
    k = T[0]
    if k == 'obj':
        return T[1]
    if k in ('list', 'set', 'dict', 'tuple', 'union'):
        return '%s[%s]' % (k.capitalize(), ','.join(show(t) for t in T[1:]))
    if k in ('opq', 'new'):
        return '%s[%s]' % (k.capitalize(), T[1])
    return {'int': 'Int', 'bool': 'Bool', 'real': 'Float', 'str': 'Str',
            'none': 'None', 'date': 'Date', 'delta': 'Delta',
            'absent': 'Absent', 'rep': 'Reporter',
            'factory': 'Factory'}.get(k, k)

"""Symbolic values, container contents, storage locations and machine state."""
from . import fastz3
import z3
from . import ty


class Unsupported(Exception):
    """The construct is outside the verifier's reach (never a violation)."""


class V(object):
    __slots__ = ()
    kind = '?'

    def __repr__(self):
        return '<%s>' % self.kind


class VNone(V):
    kind = 'none'
    __slots__ = ()


class VAbsent(V):
    kind = 'absent'
    __slots__ = ()


class VUnbound(V):
    kind = 'unbound'
    __slots__ = ()


NONE = VNone()
ABSENT = VAbsent()
UNBOUND = VUnbound()


class _T(V):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.t)


class VBool(_T):
    kind = 'bool'
    __slots__ = ()


class VInt(_T):
    kind = 'int'
    __slots__ = ()


class VReal(_T):
    kind = 'real'
    __slots__ = ()


class VDate(_T):
    kind = 'date'
    __slots__ = ()


class VDelta(_T):
    kind = 'delta'
    __slots__ = ()


class VStr(V):
    kind = 'str'
    __slots__ = ('t', 'c')

    def __init__(self, t, c=None):
        self.t = t
        self.c = c

    def __repr__(self):
        return '<str %s>' % (repr(self.c) if self.c is not None else self.t)


class VOpq(V):
    kind = 'opq'
    __slots__ = ('name', 't')

    def __init__(self, name, t):
        self.name = name
        self.t = t


class VTuple(V):
    kind = 'tuple'
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items if isinstance(items, LazyItems) else list(items)


class LazyItems(object):
    """The items of a tuple, decoded when first looked at."""
    __slots__ = ('thunks', 'got')

    def __init__(self, thunks):
        self.thunks = thunks
        self.got = [None] * len(thunks)

    def __len__(self):
        return len(self.got)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[j] for j in range(*i.indices(len(self.got)))]
        if self.got[i] is None:
            self.got[i] = self.thunks[i]()
        return self.got[i]

    def __iter__(self):
        return iter([self[j] for j in range(len(self.got))])

    def __add__(self, other):
        return list(self) + list(other)

    def __radd__(self, other):
        return list(other) + list(self)


class _H(V):
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class VList(_H):
    kind = 'list'
    __slots__ = ()


class VDict(_H):
    kind = 'dict'
    __slots__ = ()


class VSet(_H):
    kind = 'set'
    __slots__ = ()


class VObj(V):
    kind = 'obj'
    __slots__ = ('cls', 'ref')

    def __init__(self, cls, ref):
        self.cls = cls
        self.ref = ref

    def __repr__(self):
        return '<obj %s %s>' % (self.cls, self.ref)


class VObjDict(V):
    """obj.__dict__: the declared fields of an object, by name."""
    kind = 'objdict'
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj


class VUnion(V):
    kind = 'union'
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts    # [(guard, V)]

    def __repr__(self):
        return '<union %r>' % (self.alts,)


class VFunc(V):
    kind = 'func'
    __slots__ = ('node', 'mod', 'cls', 'closure', 'qual', 'defaults')

    def __init__(self, node, mod, cls, closure, qual, defaults=None):
        self.node = node
        self.mod = mod
        self.cls = cls          # ClassInfo or None
        self.closure = closure  # Frame or None
        self.qual = qual
        self.defaults = defaults

    def __repr__(self):
        return '<func %s>' % self.qual


class VBound(V):
    kind = 'bound'
    __slots__ = ('recv', 'fn')

    def __init__(self, recv, fn):
        self.recv = recv
        self.fn = fn


class VClass(V):
    kind = 'class'
    __slots__ = ('info',)

    def __init__(self, info):
        self.info = info

    def __repr__(self):
        return '<class %s>' % self.info.name


class VMod(V):
    kind = 'module'
    __slots__ = ('mod',)

    def __init__(self, mod):
        self.mod = mod


class VLib(V):
    """A library module or function, by dotted name."""
    kind = 'lib'
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<lib %s>' % self.name


class VBMeth(V):
    kind = 'bmeth'
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name


class VRep(V):
    """A problem reporter: the one passed in ('') or the one of a field."""
    kind = 'rep'
    __slots__ = ('who',)

    def __init__(self, who=''):
        self.who = who


class VFactory(V):
    kind = 'factory'
    __slots__ = ()


class VExc(V):
    kind = 'exc'
    __slots__ = ('cls', 'args')

    def __init__(self, cls, args):
        self.cls = cls      # name string
        self.args = args


class VSuper(V):
    kind = 'super'
    __slots__ = ('cls', 'recv')

    def __init__(self, cls, recv):
        self.cls = cls
        self.recv = recv


class VSeq(V):
    """A lazily described sequence: length term + element function."""
    kind = 'seq'
    __slots__ = ('n', 'get', 'what', 'bykey')

    def __init__(self, n, get, what='seq', bykey=None):
        self.bykey = bykey  # (dict/set content, key term -> V) or None
        self.n = n      # z3 Int term or python int
        self.get = get  # (z3 Int term | int) -> V
        self.what = what


class VGSeq(VSeq):
    """A sequence of known candidates, each present under a condition."""
    __slots__ = ('guards',)

    def __init__(self, n, get, guards):
        VSeq.__init__(self, n, get, 'guarded')
        self.guards = guards


class VDb(V):
    """The database connection of a Schedule; its table is the ghost field
    `_db_rows`."""
    kind = 'db'
    __slots__ = ('owner',)

    def __init__(self, owner):
        self.owner = owner


class VCur(V):
    """A cursor; cell: [owner, rows selected, position, rowcount]."""
    kind = 'cur'
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class VMatch(V):
    kind = 'match'
    __slots__ = ('pat', 's', 'groups')

    def __init__(self, pat, s, groups):
        self.pat = pat
        self.s = s
        self.groups = groups


class VRegex(V):
    kind = 'regex'
    __slots__ = ('pat', 'flags')

    def __init__(self, pat, flags=0):
        self.pat = pat
        self.flags = flags


# ------------------------------------------------------------- contents
class ListC(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)


class ListS(object):
    __slots__ = ('T', 'n', 'arrs')

    def __init__(self, T, n, arrs):
        self.T = T
        self.n = n
        self.arrs = list(arrs)


class DictC(object):
    __slots__ = ('pairs',)

    def __init__(self, pairs):
        self.pairs = list(pairs)


class DictS(object):
    __slots__ = ('K', 'T', 'present', 'size', 'arrs')

    def __init__(self, K, T, present, size, arrs):
        self.K = K
        self.T = T
        self.present = present
        self.size = size
        self.arrs = list(arrs)


class SetC(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)


class SetS(object):
    __slots__ = ('K', 'present', 'size')

    def __init__(self, K, present, size):
        self.K = K
        self.present = present
        self.size = size


class Redirect(object):
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


# ------------------------------------------------------------- locations
class Loc(object):
    __slots__ = ()


class ConstLoc(Loc):
    __slots__ = ('content',)

    def __init__(self, content):
        self.content = content


class CellLoc(Loc):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id


class FieldLoc(Loc):
    __slots__ = ('ref', 'fkey', 'T')

    def __init__(self, ref, fkey, T):
        self.ref = ref
        self.fkey = fkey
        self.T = T


class SubLoc(Loc):
    """A slice of the component vector of a parent location."""
    __slots__ = ('parent', 'off', 'T')

    def __init__(self, parent, off, T):
        self.parent = parent
        self.off = off
        self.T = T


class ElemLoc(Loc):
    """The value stored under a key of a symbolic dict / index of a list."""
    __slots__ = ('parent', 'key', 'T')

    def __init__(self, parent, key, T):
        self.parent = parent
        self.key = key
        self.T = T


class Event(object):
    __slots__ = ('name', 'args')

    def __init__(self, name, args):
        self.name = name
        self.args = args    # list of (pname, V)

    def __repr__(self):
        return '%s(%s)' % (self.name, ', '.join(
            '%s=%r' % (a, v) for a, v in self.args))


class VArrays(V):
    """The content of a heap field (what a summarised call may read)."""
    kind = 'arrays'

    def __init__(self, arrs):
        self.arrs = list(arrs)

    def __repr__(self):
        return '<field>'


class LogSym(object):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'LOG<%s>' % self.id


class State(object):
    def __init__(self):
        self.heap = {}      # fkey -> (T, [arrays])
        self.cells = {}
        self.ncell = 0
        self.top = None
        self.log = []

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.cells = dict(self.cells)
        s.ncell = self.ncell
        s.top = self.top
        s.log = list(self.log)
        return s

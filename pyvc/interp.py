"""Symbolic interpreter for the Python 2 subset used by /repo.

Direct style: a symbolic branch asks the path explorer (ctx.branch), which
re-runs the whole obligation for the other side.  Loops over data of unknown
length are cut at their head by `sync('loop')`; the product prover (product.py)
replaces the state by an arbitrary one satisfying the loop invariant.
"""
import ast
import re
from fractions import Fraction
import z3
from . import ty
from .values import *
from .ctx import PathDone
from .world import ClassInfo, World

MAXDEPTH = 40
UNROLL = 80


TM = ['tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec',
      'tm_wday', 'tm_yday', 'tm_isdst']


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


EXC_BASES = {
    'KeyError': 'LookupError', 'IndexError': 'LookupError',
    'LookupError': 'StandardError', 'ValueError': 'StandardError',
    'TypeError': 'StandardError', 'AttributeError': 'StandardError',
    'NameError': 'StandardError', 'UnboundLocalError': 'NameError',
    'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'ArithmeticError': 'StandardError', 'AssertionError': 'StandardError',
    'RuntimeError': 'StandardError', 'NotImplementedError': 'RuntimeError',
    'IOError': 'EnvironmentError', 'OSError': 'EnvironmentError',
    'EnvironmentError': 'StandardError', 'StandardError': 'Exception',
    'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError',
    'UnicodeError': 'ValueError', 'StopIteration': 'Exception',
    'Exception': 'BaseException', 'SystemExit': 'BaseException',
    'BaseException': None, 'Warning': 'Exception',
    'DeprecationWarning': 'Warning',
}

BUILTINS = set('''vars id len int float str unicode isinstance hasattr getattr setattr
min max abs round range xrange enumerate zip sorted reversed list tuple dict set
frozenset sum any all map filter cmp bool repr type iter super print open object
basestring long file id issubclass vars callable ord chr next delattr
property reduce'''.split())

PRELUDE = '''
def _max(seq):
    if len(seq) == 0:
        raise ValueError('empty')
    k = 0
    for i in range(len(seq)):
        if seq[i] > seq[k]:
            k = i
    return seq[k]
def _min(seq):
    if len(seq) == 0:
        raise ValueError('empty')
    k = 0
    for i in range(len(seq)):
        if seq[i] < seq[k]:
            k = i
    return seq[k]
def _maxkey(seq, key):
    first = True
    m = None
    for x in seq:
        if first or key(x) > key(m):
            m = x
        first = False
    if first:
        raise ValueError('empty')
    return m
def _minkey(seq, key):
    first = True
    m = None
    for x in seq:
        if first or key(x) < key(m):
            m = x
        first = False
    if first:
        raise ValueError('empty')
    return m
def _sqlmax(seq):
    best = None
    for x in seq:
        if x is not None and (best is None or x > best):
            best = x
    return best


def _sqlmin(seq):
    best = None
    for x in seq:
        if x is not None and (best is None or x < best):
            best = x
    return best


def _sum(seq, start):
    s = start
    for x in seq:
        s = s + x
    return s
def _any(seq):
    for x in seq:
        if x:
            return True
    return False
def _all(seq):
    for x in seq:
        if not x:
            return False
    return True
def _map(f, seq):
    r = []
    for x in seq:
        r.append(f(x))
    return r
def _filter(f, seq):
    r = []
    for x in seq:
        if f(x):
            r.append(x)
    return r
def _filternone(seq):
    r = []
    for x in seq:
        if x:
            r.append(x)
    return r
def _set(seq):
    r = set()
    for x in seq:
        r.add(x)
    return r
def _dictpairs(seq):
    r = {}
    for k, v in seq:
        r[k] = v
    return r
def _extend(l, seq):
    for x in seq:
        l.append(x)
def _flatten(seqs):
    r = []
    for s in seqs:
        r.extend(s)
    return r
def _setupdate(s, seq):
    for x in seq:
        s.add(x)
def _dictupdate(d, o):
    for k, v in o.items():
        d[k] = v
def _index(l, x):
    i = 0
    for y in l:
        if y == x:
            return i
        i = i + 1
    raise ValueError('not in list')
def _count(l, x):
    n = 0
    for y in l:
        if y == x:
            n = n + 1
    return n
def _reduce(f, seq, init):
    a = init
    for x in seq:
        a = f(a, x)
    return a
'''


def lit_term(c):
    """Order-preserving injective embedding of a concrete string."""
    if ty.Mode.strings == 'seq':
        return z3.StringVal(c)
    t = _LITM.get(c)
    if t is not None:
        return t
    b = c.encode('utf-8') if isinstance(c, str) else c
    num = 0
    for x in b:
        num = num * 257 + (x + 1)
    fr = Fraction(num, 257 ** len(b)) if b else Fraction(0)
    t = z3.RealVal(str(fr))
    LITS[str(fr)] = c
    _LITM[c] = t
    return t


LITS = {}
_LITM = {}


def mkstr(c):
    return VStr(lit_term(c), c)


def mkint(n):
    return VInt(z3.IntVal(n))


def mkbool(b):
    return VBool(z3.BoolVal(b) if isinstance(b, bool) else b)


def mkreal(x):
    return VReal(z3.RealVal(repr(x) if isinstance(x, float) else x))


def real_of_float(x):
    f = Fraction(x)     # exact value of the double
    return VReal(z3.RealVal('%d/%d' % (f.numerator, f.denominator)))


def iconst(t):
    """Concrete int of a term, or None."""
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return None


def merge_term(g, new, old):
    """If(g, new, old), keeping updates of an array as updates."""
    if new.eq(old):
        return old
    if z3.is_app_of(new, z3.Z3_OP_STORE) and new.num_args() == 3 and \
            new.arg(0).eq(old):
        k = new.arg(1)
        return z3.Store(old, k, z3.simplify(
            z3.If(g, new.arg(2), z3.Select(old, k))))
    if z3.is_int(new):
        d = iconst(z3.simplify(new - old))
        if d is not None:
            return old + z3.If(g, z3.IntVal(d), z3.IntVal(0))
    return z3.If(g, new, old)


def bconst(t):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return None


class Frame(object):
    __slots__ = ('env', 'mod', 'cls', 'qual', 'closure', 'depth', 'yields', 'sink',
                 'curexc', 'globals_', 'sink')

    def __init__(self, mod, cls, qual, closure, depth):
        self.env = {}
        self.mod = mod
        self.cls = cls
        self.qual = qual
        self.closure = closure
        self.depth = depth
        self.yields = None
        self.sink = None
        self.curexc = None


class UF(object):
    """Uninterpreted functions, by name and signature."""
    memo = {}

    @classmethod
    def get(cls, name, argsorts, ret):
        key = (name, tuple(s.get_id() for s in argsorts), ret.get_id())
        if key not in cls.memo:
            cls.memo[key] = z3.Function(name, *(list(argsorts) + [ret]))
        return cls.memo[key]


def uf(name, args, ret):
    if not args:
        return z3.Const('uf_' + name, ret)
    f = UF.get(name, [a.sort() for a in args], ret)
    return f(*args)


class Interp(object):
    def __init__(self, ctx, world, decls, contracts, st, side='T'):
        self.ctx = ctx
        self.world = world
        self.decls = decls          # name -> ClassDecl
        self.contracts = contracts  # qual -> Contract (callee contracts)
        self.st = st
        self.side = side
        self.sync = None            # set by product prover
        self.top_qual = None
        self.spec_mode = False
        self.used = set()           # callee contracts relied upon
        self.inlined = set()        # functions whose bodies were executed
        self.assumed = set()

    # ================================================== errors
    identity = False

    def unsup(self, msg, node=None):
        ln = getattr(node, 'lineno', None)
        raise Unsupported(msg + (' (line %s)' % ln if ln else ''))

    def py_raise(self, cls, *args):
        raise PyRaise(VExc(cls, list(args)))

    # ================================================== state: locations
    def new_cell(self, content):
        st = self.st
        st.ncell += 1
        cid = st.ncell
        st.cells[cid] = content
        return CellLoc(cid)

    def new_list(self, items=()):
        return VList(self.new_cell(ListC(items)))

    def field_arrays(self, fkey, T):
        h = self.st.heap.get(fkey)
        if h is None:
            arrs = [z3.Const('H_%s.%s_%d' % (fkey[0], fkey[1], i),
                             z3.ArraySort(z3.IntSort(), s))
                    for i, s in enumerate(ty.sorts(T))]
            h = (T, arrs)
            self.st.heap[fkey] = h
        return h[1]

    frame_reads = None
    frame_writes = None

    def get_terms(self, loc):
        if isinstance(loc, FieldLoc):
            if self.frame_reads is not None:
                self.frame_reads.setdefault(loc.fkey, []).append(loc.ref)
            return [z3.Select(a, loc.ref)
                    for a in self.field_arrays(loc.fkey, loc.T)]
        if isinstance(loc, SubLoc):
            n = len(ty.sorts(loc.T))
            return self.get_terms(loc.parent)[loc.off:loc.off + n]
        if isinstance(loc, ElemLoc):
            c = self.load(loc.parent)
            if isinstance(c, (ListS, DictS)):
                return [z3.Select(a, loc.key) for a in c.arrs]
            self.unsup('element location in a concrete container')
        if isinstance(loc, CellLoc):
            c = self.st.cells[loc.id]
            if isinstance(c, Redirect):
                return self.get_terms(c.loc)
        self.unsup('terms of location %r' % (loc,))

    def set_terms(self, loc, terms):
        if isinstance(loc, FieldLoc):
            if self.frame_writes is not None:
                self.frame_writes.setdefault(loc.fkey, []).append(loc.ref)
            arrs = self.field_arrays(loc.fkey, loc.T)
            self.st.heap[loc.fkey] = (loc.T, [
                z3.Store(a, loc.ref, t) for a, t in zip(arrs, terms)])
            return
        if isinstance(loc, SubLoc):
            full = self.get_terms(loc.parent)
            full[loc.off:loc.off + len(terms)] = terms
            self.set_terms(loc.parent, full)
            return
        if isinstance(loc, ElemLoc):
            c = self.load(loc.parent)
            arrs = [z3.Store(a, loc.key, t) for a, t in zip(c.arrs, terms)]
            if isinstance(c, ListS):
                self.store(loc.parent, ListS(c.T, c.n, arrs))
            else:
                self.store(loc.parent, DictS(c.K, c.T, c.present, c.size,
                                             arrs))
            return
        self.unsup('store to location %r' % (loc,))

    def wrap_content(self, T, terms):
        if T[0] == 'list':
            return ListS(T[1], terms[0], terms[1:])
        if T[0] == 'dict':
            return DictS(T[1], T[2], terms[0], terms[1], terms[2:])
        if T[0] == 'set':
            return SetS(T[1], terms[0], terms[1])
        self.unsup('content of type %s' % (T,))

    def content_terms(self, T, c):
        """Encode a content in the component vector of type T."""
        if T[0] == 'list':
            if isinstance(c, ListC):
                arrs = [ty.default_term(s) for s in ty.sorts(T)[1:]]
                for i, v in enumerate(c.items):
                    ts = self.pack(T[1], v)
                    arrs = [z3.Store(a, z3.IntVal(i), t)
                            for a, t in zip(arrs, ts)]
                return [z3.IntVal(len(c.items))] + arrs
            if c.T == T[1]:
                return [c.n] + c.arrs
            return [c.n] + self.retype_arrays(c.T, T[1], c.arrs, z3.IntSort())
        if T[0] == 'dict':
            if isinstance(c, DictC):
                ss = ty.sorts(T)
                d = DictS(T[1], T[2], ty.default_term(ss[0]), z3.IntVal(0),
                          [ty.default_term(s) for s in ss[2:]])
                for k, v in c.pairs:
                    kt = ty.mk_key(T[1], self.pack(T[1], k))
                    d = self.dict_store(d, kt, self.pack(T[2], v))
                c = d
            if (c.K, c.T) == T[1:]:
                return [c.present, c.size] + c.arrs
            if c.K == T[1]:
                return [c.present, c.size] + self.retype_arrays(
                    c.T, T[2], c.arrs, ty.key_sort(c.K))
            if c.T[0] == 'never' or z3.simplify(c.size).eq(z3.IntVal(0)):
                ss = ty.sorts(T)
                return [ty.default_term(ss[0]), z3.IntVal(0)] + [
                    ty.default_term(s) for s in ss[2:]]
            self.unsup('dict type mismatch %s vs %s' % (
                ty.show(('dict', c.K, c.T)), ty.show(T)))
        if T[0] == 'set':
            if isinstance(c, SetC):
                ss = ty.sorts(T)
                s = SetS(T[1], ty.default_term(ss[0]), z3.IntVal(0))
                for k in c.items:
                    kt = ty.mk_key(T[1], self.pack(T[1], k))
                    s = self.set_add(s, kt)
                c = s
            if c.K == T[1]:
                return [c.present, c.size]
            if c.K[0] == 'never':
                return [ty.default_term(ty.sorts(T)[0]), z3.IntVal(0)]
            return [self.rekey(c.K, T[1], c.present), c.size]
        self.unsup('content terms')

    def rekey(self, Kfrom, Kto, present):
        """The membership array of a set whose key type widens."""
        with self.ctx.bound('rk!k', ty.key_sort(Kto)) as k:
            v = self.unpack(Kto, ty.key_parts(Kto, k), None)
            alts = v.alts if isinstance(v, VUnion) else [(True, v)]
            ors = []
            for g, a in alts:
                if not self.fits(a, Kfrom):
                    continue
                k1 = ty.mk_key(Kfrom, self.pack(Kfrom, a))
                back = ty.mk_key(Kto, self.pack(Kto, a))
                ts = [z3.Select(present, k1), back == k]
                ors.append(z3.And(ts if g is True else [g] + ts))
            return z3.Lambda([k], z3.Or(ors) if ors else z3.BoolVal(False))

    def retype_arrays(self, Tfrom, Tto, arrs, isort):
        """Re-encode element components from type Tfrom to the wider Tto."""
        if not arrs and not ty.sorts(Tto):
            return []
        with self.ctx.bound('rt!i', isort) as i:
            v = self.unpack(Tfrom, [z3.Select(a, i) for a in arrs], None)
            ts = self.pack(Tto, v)
            return [z3.Lambda([i], t) for t in ts]

    def load(self, loc):
        if isinstance(loc, ConstLoc):
            return loc.content
        if isinstance(loc, CellLoc):
            c = self.st.cells[loc.id]
            if isinstance(c, Redirect):
                return self.load(c.loc)
            return c
        return self.wrap_content(loc.T, self.get_terms(loc))

    def store(self, loc, content):
        if isinstance(loc, ConstLoc):
            self.unsup('mutation of a module or class constant')
        if isinstance(loc, CellLoc):
            c = self.st.cells[loc.id]
            if isinstance(c, Redirect):
                return self.store(c.loc, content)
            self.st.cells[loc.id] = content
            return
        self.set_terms(loc, self.content_terms(loc.T, content))

    def relocate(self, v, T, loc):
        """After v was stored at loc, its own cell becomes an alias of loc."""
        if isinstance(v, (VList, VDict, VSet)):
            l = v.loc
            if isinstance(l, CellLoc):
                c = self.st.cells[l.id]
                if isinstance(c, Redirect):
                    self.unsup('container shared between two owners')
                off, TT = self.alt_offset(T, v)
                self.st.cells[l.id] = Redirect(
                    loc if off is None else SubLoc(loc, off, TT))
            elif isinstance(l, ConstLoc):
                pass
            elif isinstance(l, (FieldLoc, SubLoc, ElemLoc)):
                if self.same_loc(l, loc):
                    return
                self.unsup('container shared between two owners')

    def same_loc(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, FieldLoc):
            return a.fkey == b.fkey and a.ref.eq(b.ref)
        return a is b

    def alt_offset(self, T, v):
        if T[0] != 'union':
            return None, T
        off = 1
        for a in T[1:]:
            if a[0] == v.kind:
                return off, a
            off += len(ty.sorts(a))
        self.unsup('no alternative for %s in %s' % (v.kind, ty.show(T)))

    # ================================================== encode / decode
    def unpack(self, T, terms, loc):
        k = T[0]
        if k == 'int':
            return VInt(terms[0])
        if k == 'bool':
            return VBool(terms[0])
        if k == 'real':
            return VReal(terms[0])
        if k == 'str':
            return self.str_of(terms[0])
        if k == 'none':
            return NONE
        if k == 'absent':
            return ABSENT
        if k == 'unbound':
            return UNBOUND
        if k == 'rep':
            return VRep('@%s.%s' % loc.fkey if isinstance(loc, FieldLoc)
                        else '')
        if k == 'factory':
            return VFactory()
        if k == 'date':
            return VDate(terms[0])
        if k == 'delta':
            return VDelta(terms[0])
        if k == 'opq':
            return VOpq(T[1], terms[0])
        if k == 'obj':
            self.ref_facts(terms[0])
            return VObj(T[1], terms[0])
        if k == 'tuple':
            items = []
            off = 0
            for t in T[1:]:
                n = len(ty.sorts(t))
                sub = SubLoc(loc, off, t) if loc is not None else None
                items.append(lambda t=t, ts=terms[off:off + n], sub=sub:
                             self.unpack(t, ts, sub))
                off += n
            return VTuple(LazyItems(items))
        if k in ('list', 'dict', 'set'):
            if loc is None:
                loc = self.new_cell(self.wrap_content(T, terms))
            if k == 'list':
                self.ctx.assume(terms[0] >= 0)
                return VList(loc)
            self.ctx.assume(terms[1] >= 0)
            return VDict(loc) if k == 'dict' else VSet(loc)
        if k == 'union':
            alts = []
            off = 1
            tag = terms[0]
            n = len(T) - 1
            self.ctx.assume(z3.And(tag >= 0, tag < n))
            c = iconst(tag)
            for i, t in enumerate(T[1:]):
                m = len(ty.sorts(t))
                if c is None or c == i:
                    sub = SubLoc(loc, off, t) if loc is not None else None
                    alts.append((tag == i, (t, terms[off:off + m], sub)))
                off += m
            if len(alts) == 1:
                t, ts, sub = alts[0][1]
                return self.unpack(t, ts, sub)
            out = []
            for g, (t, ts, sub) in alts:
                if t[0] == 'obj':
                    # facts about the reference only hold under the tag
                    v = VObj(t[1], ts[0])
                    self.ref_facts(ts[0], g)
                else:
                    v = self.unpack(t, ts, sub)
                out.append((g, v))
            return VUnion(out)
        self.unsup('unpack %s' % (T,))

    def str_of(self, t):
        if ty.Mode.strings == 'seq':
            if z3.is_string_value(t):
                return VStr(t, t.as_string())
            return VStr(t)
        if z3.is_rational_value(t):
            c = LITS.get(str(t.as_fraction()))
            if c is not None:
                return VStr(t, c)
        return VStr(t)

    def base_of(self, t):
        """The unmodified initial term below Stores, for select chains."""
        if z3.is_select(t):
            a = self.base_of(t.arg(0))
            return a, t.arg(1)
        return None

    def ref_facts(self, t, guard=None):
        ctx = self.ctx
        f = z3.And(t >= 0, t < self.st.top)
        if guard is not None:
            f = z3.Implies(guard, f)
        ctx.assume(f)
        # initial containers only hold pre-existing objects
        b = self._init_term(t)
        if b is not None and self.st.top is not ctx.top0:
            f = z3.And(b >= 0, b < ctx.top0)
            if guard is None:
                ctx.assume(f)

    def _init_term(self, t):
        if z3.is_select(t):
            a, i = t.arg(0), t.arg(1)
            a2 = self._init_arr(a)
            if a2 is None:
                return None
            return z3.Select(a2, i)
        return None

    def _init_arr(self, a):
        while z3.is_store(a):
            a = a.arg(0)
        if z3.is_select(a):
            b = self._init_arr(a.arg(0))
            return z3.Select(b, a.arg(1)) if b is not None else None
        if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = a.decl().name()
            if n.startswith('H_') or n.startswith('in_'):
                return a
        return None

    def pack(self, T, v):
        """Component terms of value v at declared type T."""
        k = T[0]
        if k == 'union':
            if isinstance(v, VUnion):
                packs = [(g, self.pack(T, a)) for g, a in v.alts]
                res = packs[-1][1]
                for g, p in reversed(packs[:-1]):
                    res = [x if x.eq(y) else z3.If(g, x, y)
                           for x, y in zip(p, res)]
                return res
            terms = None
            out = []
            for i, t in enumerate(T[1:]):
                if terms is None and self.fits(v, t):
                    terms = self.pack(t, v)
                    idx = i
                    out.extend(terms)
                else:
                    out.extend(ty.default_term(s) for s in ty.sorts(t))
            if terms is None:
                # numeric widening
                for i, t in enumerate(T[1:]):
                    if t[0] == 'real' and v.kind in ('int', 'bool'):
                        return self.pack(T, self.to_real(v))
                self.unsup('value %r does not fit declared type %s' % (
                    v, ty.show(T)))
            return [z3.IntVal(idx)] + out
        if isinstance(v, VUnion):
            packs = []
            for g, a in v.alts:
                if self.fits(a, T):
                    packs.append((g, self.pack(T, a)))
                elif not self.ctx.entails(z3.Not(g)):
                    self.unsup('value %r does not fit declared type %s' % (
                        v, ty.show(T)))
            res = packs[-1][1]
            for g, p in reversed(packs[:-1]):
                res = [x if x.eq(y) else z3.If(g, x, y)
                       for x, y in zip(p, res)]
            return res
        if k in ('none', 'absent', 'rep', 'unbound', 'factory', 'never'):
            if not self.fits(v, T):
                self.unsup('value %r does not fit %s' % (v, ty.show(T)))
            return []
        if k == 'real' and v.kind in ('int', 'bool'):
            return [self.to_real(v).t]
        if not self.fits(v, T):
            self.unsup('value %r does not fit declared type %s' % (
                v, ty.show(T)))
        if k in ('int', 'bool', 'real', 'str', 'date', 'delta', 'opq'):
            return [v.t]
        if k == 'obj':
            return [v.ref]
        if k == 'tuple':
            out = []
            for t, x in zip(T[1:], v.items):
                out.extend(self.pack(t, x))
            return out
        if k in ('list', 'dict', 'set'):
            if isinstance(v, VSeq):
                v = self.materialize(v)
            return self.content_terms(T, self.load(v.loc))
        self.unsup('pack %s' % (T,))

    def refine(self, v, T=None):
        """Drops alternatives that the current path excludes."""
        if isinstance(v, VTuple):
            items = [self.refine(x) for x in v.items]
            if all(a is b for a, b in zip(items, v.items)):
                return v
            return VTuple(items)
        if isinstance(v, VUnion):
            alts = [(g, self.refine(a)) for g, a in v.alts
                    if not self.ctx.entails(z3.Not(g))]
            if len(alts) == 1:
                return alts[0][1]
            if alts and len(alts) < len(v.alts):
                return VUnion(alts)
        return v

    def fits(self, v, T):
        k = T[0]
        if isinstance(v, VUnion):
            return all(self.fits(a, T) for g, a in v.alts)
        if k == 'union':
            return any(self.fits(v, t) for t in T[1:])
        if isinstance(v, VSeq):
            return k == 'list'
        if v.kind != k:
            return False
        if k == 'obj':
            return self.is_subclass(v.cls, T[1])
        if k == 'opq':
            return v.name == T[1]
        if k == 'tuple':
            return len(v.items) == len(T) - 1 and all(
                self.fits(x, t) for x, t in zip(v.items, T[1:]))
        if k == 'list':
            c = self.load(v.loc)
            if isinstance(c, ListC):
                return all(self.fits(x, T[1]) or
                           (T[1] == ty.REAL and x.kind == 'int')
                           for x in c.items)
            return self.subtype(c.T, T[1])
        if k == 'dict':
            c = self.load(v.loc)
            if isinstance(c, DictC):
                return all(self.fits(a, T[1]) and self.fits(b, T[2])
                           for a, b in c.pairs)
            return self.subtype(c.K, T[1]) and self.subtype(c.T, T[2])
        if k == 'set':
            c = self.load(v.loc)
            if isinstance(c, SetC):
                return all(self.fits(a, T[1]) for a in c.items)
            return self.subtype(c.K, T[1])
        return True

    def subtype(self, A, B):
        if A == B or A[0] == 'never':
            return True
        if A[0] == 'union':
            return all(self.subtype(a, B) for a in A[1:])
        if B[0] == 'union':
            return any(self.subtype(A, b) for b in B[1:])
        if A[0] == 'obj' and B[0] == 'obj':
            return self.is_subclass(A[1], B[1])
        if A[0] == B[0] and A[0] in ('list', 'set', 'dict', 'tuple') and \
                len(A) == len(B):
            return all(self.subtype(a, b) for a, b in zip(A[1:], B[1:]))
        return False

    def is_subclass(self, c, d):
        while c is not None:
            if c == d:
                return True
            c = self.decls[c].base if c in self.decls else None
        return False

    def typeof(self, v):
        if isinstance(v, VUnion):
            return ty.mk_union([self.typeof(a) for g, a in v.alts])
        k = v.kind
        if k in ('int', 'bool', 'real', 'str', 'none', 'absent', 'date',
                 'delta', 'rep', 'unbound', 'factory'):
            return (k,)
        if k == 'opq':
            return ('opq', v.name)
        if k == 'obj':
            return ('obj', v.cls)
        if k == 'tuple':
            return ('tuple',) + tuple(self.typeof(x) for x in v.items)
        if k in ('list', 'dict', 'set'):
            return self.content_type(self.load(v.loc))
        if k == 'seq':
            return self.typeof(self.materialize(v))
        self.unsup('no symbolic type for %r' % (v,))

    def content_type(self, c):
        if isinstance(c, ListC):
            return ('list', ty.mk_union([self.typeof(x) for x in c.items]))
        if isinstance(c, ListS):
            return ('list', c.T)
        if isinstance(c, DictC):
            return ('dict', ty.mk_union([self.typeof(a) for a, b in c.pairs]),
                    ty.mk_union([self.typeof(b) for a, b in c.pairs]))
        if isinstance(c, DictS):
            return ('dict', c.K, c.T)
        if isinstance(c, SetC):
            return ('set', ty.mk_union([self.typeof(a) for a in c.items]))
        return ('set', c.K)

    def fresh_value(self, T, name):
        """An arbitrary value of type T (canonical inactive components)."""
        terms = [self.ctx.fresh('%s_%d' % (name, i), s)
                 for i, s in enumerate(ty.sorts(T))]
        return self.value_from(T, terms)

    def value_from(self, T, terms):
        self.canon_facts(T, terms)
        return self.unpack(T, terms, None)

    def canon_facts(self, T, terms):
        """Constrain inactive union components of a scalar input."""
        if T[0] == 'union':
            tag = terms[0]
            off = 1
            for i, t in enumerate(T[1:]):
                ss = ty.sorts(t)
                for j, s in enumerate(ss):
                    if s.kind() != z3.Z3_ARRAY_SORT:
                        self.ctx.assume(z3.Implies(
                            tag != i, terms[off + j] == ty.default_term(s)))
                off += len(ss)
        elif T[0] == 'tuple':
            off = 0
            for t in T[1:]:
                n = len(ty.sorts(t))
                self.canon_facts(t, terms[off:off + n])
                off += n

    # ================================================== basic operations
    def force(self, v):
        while isinstance(v, VUnion):
            for g, a in v.alts[:-1]:
                if self.ctx.branch(g):
                    v = a
                    break
            else:
                g, a = v.alts[-1]
                self.ctx.assume(g)
                v = a
            if isinstance(v, VObj):
                self.ref_facts(v.ref)
        return v

    def to_real(self, v):
        if v.kind == 'real':
            return v
        if v.kind == 'int':
            return VReal(z3.ToReal(v.t))
        if v.kind == 'bool':
            return VReal(z3.If(v.t, z3.RealVal(1), z3.RealVal(0)))
        self.unsup('to_real %r' % v)

    def to_int(self, v):
        if v.kind == 'bool':
            return VInt(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        return v

    def truth(self, v):
        """z3 Bool (or python bool) of Python truthiness."""
        k = v.kind
        if k == 'none':
            return False
        if k == 'bool':
            return v.t
        if k == 'int':
            return v.t != 0
        if k == 'real':
            return v.t != 0
        if k == 'delta':
            return v.t != 0
        if k == 'str':
            if v.c is not None:
                return len(v.c) > 0
            return v.t != lit_term('')
        if k in ('list', 'dict', 'set'):
            n = self.length(v)
            return (n != 0) if not isinstance(n, int) else n != 0
        if k == 'tuple':
            return len(v.items) > 0
        if k == 'seq':
            return v.n != 0
        if k == 'union':
            ts = []
            for g, a in v.alts:
                t = self.truth(a)
                if isinstance(t, bool):
                    t = z3.BoolVal(t)
                ts.append(z3.And(g, t))
            return z3.Or(ts)
        if k == 'obj':
            d = self.decls[v.cls]
            info = self.class_of(v.cls)
            if info is not None:
                for m in ('__nonzero__', '__len__'):
                    c, n = info.find(m)
                    if n is not None:
                        r = self.call(self.get_method(v, m), [], {})
                        return self.truth(self.force(r))
            return True
        if k in ('absent', 'unbound'):
            self.unsup('truth of an absent value')
        return True

    def test(self, v):
        return self.ctx.branch(self.truth(v))

    def length(self, v):
        if v.kind == 'tuple':
            return len(v.items)
        if v.kind == 'seq':
            return v.n
        if v.kind == 'str':
            if v.c is not None:
                return len(v.c)
            if ty.Mode.strings == 'seq':
                return z3.Length(v.t)
            n = uf('strlen', [v.t], z3.IntSort())
            self.ctx.assume(z3.And(n >= 0, (n == 0) == (v.t == lit_term(''))))
            return n
        if v.kind in ('list', 'dict', 'set'):
            c = self.load(v.loc)
            if isinstance(c, (ListC, SetC)):
                return len(c.items)
            if isinstance(c, DictC):
                return len(c.pairs)
            if isinstance(c, ListS):
                self.ctx.assume(c.n >= 0)
                return c.n
            self.size_facts(c)
            return c.size
        if v.kind == 'obj':
            info = self.class_of(v.cls)
            if info is not None and info.find('__len__')[1] is not None:
                r = self.force(self.call(self.get_method(v, '__len__'), [], {}))
                return r.t
        self.py_raise('TypeError')

    def size_facts(self, c):
        empty = z3.K(ty.key_sort(c.K), z3.BoolVal(False))
        self.ctx.assume(z3.And(c.size >= 0,
                               (c.size == 0) == (c.present == empty)))

    # -------------------------------------------------- equality
    def eq(self, a, b, goal=False, other=None):
        """z3 Bool / bool: Python == of a (in self) and b (in other or self).

        goal=True: the term is only used in positive position of an
        obligation, so universals are represented by fresh constants."""
        o = other or self
        ka, kb = a.kind, b.kind
        if ka == 'union' or kb == 'union':
            la = a.alts if ka == 'union' else [(True, a)]
            lb = b.alts if kb == 'union' else [(True, b)]
            ts = []
            for ga, x in la:
                for gb, y in lb:
                    e = self.eq(x, y, goal, other)
                    if e is False:
                        continue
                    conj = [z for z in (ga, gb, e)
                            if not isinstance(z, bool)]
                    ts.append(z3.And(conj) if conj else z3.BoolVal(True))
            return z3.Or(ts) if ts else False
        num = ('int', 'real', 'bool')
        if ka in num and kb in num:
            if ka == kb:
                return a.t == b.t
            if goal and 'bool' in (ka, kb):
                # True == 1 in Python; observable results are the same
                pass
            if 'real' in (ka, kb):
                return self.to_real(a).t == o.to_real(b).t
            return self.to_int(a).t == o.to_int(b).t
        if ka == 'seq' and kb in ('seq', 'list', 'tuple'):
            a = self.materialize(a)
            ka = 'list'
        if kb == 'seq':
            b = o.materialize(b)
            kb = 'list'
        if ka != kb:
            return False
        if ka == 'rep':
            return a.who == b.who
        if ka in ('none', 'absent', 'factory', 'unbound'):
            return True
        if ka == 'str':
            if a.c is not None and b.c is not None:
                return a.c == b.c
            return a.t == b.t
        if ka in ('date', 'delta'):
            return a.t == b.t
        if ka == 'opq':
            return a.t == b.t if a.name == b.name else False
        if ka == 'tuple':
            if len(a.items) != len(b.items):
                return False
            return self.conj([self.eq(x, y, goal, other)
                              for x, y in zip(a.items, b.items)])
        if ka == 'obj':
            return self.eq_obj(a, b, goal, o)
        if ka == 'list':
            return self.eq_list(self.load(a.loc), o.load(b.loc), goal, other)
        if ka == 'dict':
            return self.eq_dict(self.load(a.loc), o.load(b.loc), goal, other)
        if ka == 'set':
            return self.eq_set(self.load(a.loc), o.load(b.loc), goal, other)
        if ka == 'exc':
            return a.cls == b.cls
        if ka == 'func':
            return a.node is b.node
        if ka == 'class':
            return a.info.node is b.info.node
        if ka == 'lib':
            return a.name == b.name
        if ka == 'match':
            return a.s.t == b.s.t if a.pat == b.pat else False
        self.unsup('equality of %r and %r' % (a, b))

    def conj(self, ts):
        out = []
        for t in ts:
            if t is True:
                continue
            if t is False:
                return False
            out.append(t)
        if not out:
            return True
        return z3.And(out) if len(out) > 1 else out[0]

    def eq_obj(self, a, b, goal, o):
        if goal or self.identity or o is not self:
            # identity of (pre-existing or equally numbered) objects
            return a.ref == b.ref
        d = self.decls.get(a.cls)
        info = self.class_of(a.cls)
        if a.ref.eq(b.ref):
            return True
        if info is not None and info.find('__eq__')[1] is not None:
            mode = d.eq
            if mode == 'id':
                return a.ref == b.ref
            if mode == 'call':
                r = self.call(self.get_method(a, '__eq__'), [b], {})
                t = self.truth(r)
                return t
            self.unsup('== on %s objects' % a.cls)
        return a.ref == b.ref

    def elem(self, c, i):
        """Element i of a list content."""
        if isinstance(c, ListC):
            k = iconst(i)
            if k is not None:
                return c.items[k]
            alts = [(i == j, x) for j, x in enumerate(c.items)]
            if not alts:
                if self.ctx.entails(z3.BoolVal(False)):
                    return NONE     # not reached
                self.unsup('element of an empty list')
            if len(alts) == 1:
                return alts[0][1]
            return VUnion(alts)
        return self.unpack(c.T, [z3.Select(a, i) for a in c.arrs], None)

    def eq_list(self, c, d, goal, other):
        o = other or self
        if isinstance(c, ListC) and isinstance(d, ListC):
            if len(c.items) != len(d.items):
                return False
            return self.conj([self.eq(x, y, goal, other)
                              for x, y in zip(c.items, d.items)])
        nc = z3.IntVal(len(c.items)) if isinstance(c, ListC) else c.n
        nd = z3.IntVal(len(d.items)) if isinstance(d, ListC) else d.n
        if isinstance(c, ListC) or isinstance(d, ListC):
            m = len(c.items) if isinstance(c, ListC) else len(d.items)
            ts = [nc == nd]
            for i in range(m):
                x = c.items[i] if isinstance(c, ListC) else self.elem(
                    c, z3.IntVal(i))
                y = d.items[i] if isinstance(d, ListC) else o.elem(
                    d, z3.IntVal(i))
                e = self.eq(x, y, goal, other)
                if e is False:
                    # lengths would have to differ
                    return False if True else None
                if e is not True:
                    ts.append(e)
            return z3.And(ts)
        if c.T == d.T and nc.eq(nd) and all(
                x.eq(y) for x, y in zip(c.arrs, d.arrs)):
            return True
        with self.ctx.bound('eqi!q', z3.IntSort()) as i:
            if goal:
                i = self.ctx.fresh('eqi', z3.IntSort())
            e = self.eq(self.elem(c, i), o.elem(d, i), goal, other)
            if e is True:
                return nc == nd
            if e is False:
                return z3.And(nc == nd, nc == 0)
            if c.T == d.T:
                e = z3.Or(z3.And([z3.Select(x, i) == z3.Select(y, i)
                                  for x, y in zip(c.arrs, d.arrs)]), e)
            body = z3.Implies(z3.And(i >= 0, i < nc), e)
            if goal:
                return z3.And(nc == nd, body)
            return z3.And(nc == nd, z3.ForAll([i], body))

    def eq_dict(self, c, d, goal, other):
        o = other or self
        if isinstance(c, DictC) and isinstance(d, DictC):
            if len(c.pairs) != len(d.pairs):
                return False
            if not c.pairs:
                return True
        Tc, Td = self.content_type(c), o.content_type(d)
        T = ty.join(Tc, Td)
        if T[0] == 'union':
            self.unsup('equality of differently typed dicts')
        ct = self.content_terms(T, c)
        dt = o.content_terms(T, d)
        if all(x.eq(y) for x, y in zip(ct, dt)):
            return True
        ks = ty.key_sort(T[1])
        with self.ctx.bound('eqk!q', ks) as k:
            if goal:
                k = self.ctx.fresh('eqk', ks)
            vx = self.unpack(T[2], [z3.Select(a, k) for a in ct[2:]], None)
            vy = o.unpack(T[2], [z3.Select(a, k) for a in dt[2:]], None)
            e = self.eq(vx, vy, goal, other)
            if isinstance(e, bool):
                e = z3.BoolVal(e)
            body = z3.And(z3.Select(ct[0], k) == z3.Select(dt[0], k),
                          z3.Implies(z3.Select(ct[0], k), e))
            return body if goal else z3.ForAll([k], body)

    def eq_set(self, c, d, goal, other):
        o = other or self
        T = ty.join(self.content_type(c), o.content_type(d))
        if T == ('set', ty.NEVER):
            return True
        ct = self.content_terms(T, c)
        dt = o.content_terms(T, d)
        return ct[0] == dt[0]

    # -------------------------------------------------- ordering
    RANK = {'none': 0, 'bool': 1, 'int': 1, 'real': 1, 'dict': 2, 'list': 3,
            'str': 4, 'tuple': 5}

    def lt(self, a, b):
        """Python 2 a < b (operands forced)."""
        num = ('int', 'real', 'bool')
        ka, kb = a.kind, b.kind
        if ka in num and kb in num:
            if 'real' in (ka, kb):
                return self.to_real(a).t < self.to_real(b).t
            return self.to_int(a).t < self.to_int(b).t
        if ka == 'str' and kb == 'str':
            if a.c is not None and b.c is not None:
                return a.c < b.c
            if ty.Mode.strings == 'seq':
                return z3.StrLT(a.t, b.t)
            self.ctx.assume(z3.And(a.t >= 0, b.t >= 0))
            return a.t < b.t
        if ka == kb and ka in ('date', 'delta'):
            return a.t < b.t
        if ka == 'none' and kb == 'none':
            return False
        if ka == 'seq':
            a = self.materialize(a)
            ka = 'list'
        if kb == 'seq':
            b = self.materialize(b)
            kb = 'list'
        if ka == 'tuple' and kb == 'tuple':
            for x, y in zip(a.items, b.items):
                e = self.eq(x, y)
                if not self.ctx.branch(e):
                    return self.lt(self.force(x), self.force(y))
            return len(a.items) < len(b.items)
        if ka in self.RANK and kb in self.RANK and \
                self.RANK[ka] != self.RANK[kb]:
            return self.RANK[ka] < self.RANK[kb]
        if ka == 'none' and kb in ('obj', 'opq', 'func', 'class'):
            return True
        if kb == 'none' and ka in ('obj', 'opq', 'func', 'class'):
            return False
        if {'date', 'none'} == {ka, kb} or {'delta', 'none'} == {ka, kb}:
            self.py_raise('TypeError')
        if ka == 'obj':
            info = self.class_of(a.cls)
            for m in ('__lt__', '__cmp__'):
                if info is not None and info.find(m)[1] is not None:
                    r = self.force(self.call(self.get_method(a, m), [b], {}))
                    if m == '__lt__':
                        return self.truth(r)
                    return r.t < 0
        self.unsup('ordering of %s and %s' % (ka, kb))

    def compare(self, op, a, b, node=None):
        """Returns VBool."""
        on = type(op).__name__
        if on == 'Is' or on == 'IsNot':
            r = self.is_same(a, b)
            return mkbool(self.neg(r) if on == 'IsNot' else r)
        if on in ('Eq', 'NotEq'):
            r = self.eq_py(a, b)
            return mkbool(self.neg(r) if on == 'NotEq' else r)
        if on in ('In', 'NotIn'):
            r = self.contains(b, a)
            return mkbool(self.neg(r) if on == 'NotIn' else r)
        a, b = self.force(a), self.force(b)
        if on == 'Lt':
            return mkbool(self.lt(a, b))
        if on == 'Gt':
            return mkbool(self.lt(b, a))
        if on == 'LtE':
            return mkbool(self.neg(self.lt(b, a)))
        if on == 'GtE':
            return mkbool(self.neg(self.lt(a, b)))
        self.unsup('comparison %s' % on)

    def eq_py(self, a, b):
        has = [x for x in (a, b) if x.kind == 'obj' or (
            x.kind == 'union' and any(y.kind == 'obj' for g, y in x.alts))]
        if has and any(self.obj_has_eq(x) for x in has):
            a, b = self.force(a), self.force(b)
        return self.eq(a, b)

    def obj_has_eq(self, v):
        if v.kind == 'union':
            return any(self.obj_has_eq(a) for g, a in v.alts)
        if v.kind != 'obj':
            return False
        info = self.class_of(v.cls)
        return info is not None and self.decls[v.cls].eq == 'call' and \
            info.find('__eq__')[1] is not None

    def neg(self, t):
        if isinstance(t, bool):
            return not t
        return z3.Not(t)

    def is_same(self, a, b):
        if a.kind == 'union' or b.kind == 'union':
            la = a.alts if a.kind == 'union' else [(True, a)]
            lb = b.alts if b.kind == 'union' else [(True, b)]
            ts = []
            for ga, x in la:
                for gb, y in lb:
                    e = self.is_same(x, y)
                    if e is False:
                        continue
                    conj = [z for z in (ga, gb, e) if not isinstance(z, bool)]
                    ts.append(z3.And(conj) if conj else z3.BoolVal(True))
            return z3.Or(ts) if ts else False
        if a.kind != b.kind:
            return False
        if a.kind == 'none':
            return True
        if a.kind == 'bool':
            return a.t == b.t
        if a.kind == 'obj':
            return a.ref == b.ref
        if a.kind in ('class', 'func', 'lib', 'opq'):
            return self.eq(a, b)
        if a.kind in ('list', 'dict', 'set'):
            if a.loc is b.loc:
                return True
        if a.kind in ('int', 'str') :
            return self.eq(a, b)
        self.unsup('identity of %s values' % a.kind)

    def contains(self, cont, x):
        cont = self.force(cont)
        k = cont.kind
        if k == 'tuple':
            return self.disj([self.eq_py(x, y) for y in cont.items])
        if k == 'seq' and cont.what == 'keys' and cont.bykey is not None:
            return self.key_test(cont.bykey[0], x)
        if k == 'seq':
            cont = self.materialize(cont)
            k = 'list'
        if k == 'list':
            c = self.load(cont.loc)
            if isinstance(c, ListC):
                return self.disj([self.eq_py(x, y) for y in c.items])
            with self.ctx.bound('in!i', z3.IntSort()) as i:
                e = self.eq(x, self.elem(c, i))
                if isinstance(e, bool):
                    e = z3.BoolVal(e)
                return z3.Exists([i], z3.And(i >= 0, i < c.n, e))
        if k == 'dict':
            c = self.load(cont.loc)
            if isinstance(c, DictC):
                return self.disj([self.eq_py(x, y) for y, _ in c.pairs])
            return self.key_test(c, x)
        if k == 'set':
            c = self.load(cont.loc)
            if isinstance(c, SetC):
                return self.disj([self.eq_py(x, y) for y in c.items])
            return self.key_test(c, x)
        if k == 'str':
            x = self.force(x)
            if cont.c is not None and x.kind == 'str' and x.c is not None:
                return x.c in cont.c
            if ty.Mode.strings == 'seq':
                return z3.Contains(cont.t, x.t)
            return uf('str_contains', [cont.t, x.t], z3.BoolSort())
        if k == 'obj':
            info = self.class_of(cont.cls)
            if info is not None and info.find('__contains__')[1] is not None:
                return self.truth(self.call(
                    self.get_method(cont, '__contains__'), [x], {}))
        if k == 'none':
            self.py_raise('TypeError')
        if k == 'objdict':
            x = self.force(x)
            if x.kind != 'str':
                return False
            return self.disj([
                self.conj([self.eq_py(x, mkstr(n)), self.field_set(cont.obj, n)])
                for n in self.all_fields(cont.obj.cls)
                if x.c is None or x.c == n])
        self.unsup('membership in %s' % k)

    def all_fields(self, cls):
        out = []
        while cls is not None:
            d = self.decls.get(cls)
            if d is None:
                break
            out.extend(d.fields)
            cls = d.base
        return sorted(out)

    def field_raw(self, obj, name):
        fkey, T = self.find_field(obj.cls, name)
        loc = FieldLoc(obj.ref, fkey, T)
        return self.unpack(T, self.get_terms(loc), loc)

    def field_set(self, obj, name):
        r = self.field_raw(obj, name)
        if isinstance(r, VAbsent):
            return False
        if isinstance(r, VUnion):
            gs = [g for g, a in r.alts if isinstance(a, VAbsent)]
            if gs:
                return z3.Not(z3.Or(gs))
        return True

    def guarded_items(self, obj):
        """The (name, value) pairs of the attributes that are set."""
        items, guards = [], []
        for n in self.all_fields(obj.cls):
            items.append(VTuple([mkstr(n), self.present_value(obj, n)]))
            guards.append(self.field_set(obj, n))
        seq = self.conc_seq(items)
        return VGSeq(seq.n, seq.get, guards)

    def present_value(self, obj, n):
        r = self.field_raw(obj, n)
        if isinstance(r, VUnion):
            rest = [(g, a) for g, a in r.alts if not isinstance(a, VAbsent)]
            r = rest[0][1] if len(rest) == 1 else VUnion(rest)
        return r

    def text_of(self, v):
        """v as the value of an attribute is written into a table."""
        if isinstance(v, VUnion):
            return VUnion([(g, self.text_of(a)) for g, a in v.alts])
        if v.kind == 'none':
            return mkstr('')
        if v.kind == 'str':
            return v
        return self.format(mkstr('%s'), VTuple([v]))

    def objdict_get(self, d, key):
        key = self.force(key)
        for n in self.all_fields(d.obj.cls):
            if self.ctx.branch(self.eq_py(key, mkstr(n))):
                if not self.ctx.branch(self.field_set(d.obj, n)):
                    break
                r = self.field_raw(d.obj, n)
                if isinstance(r, VUnion):
                    rest = [(g, a) for g, a in r.alts
                            if not isinstance(a, VAbsent)]
                    r = rest[0][1] if len(rest) == 1 else VUnion(rest)
                return r
        return None

    def objdict_update(self, d, o):
        o = self.force(o)
        if o.kind == 'objdict':
            self.unsup('update from another __dict__')
        if o.kind == 'obj':
            # dict.update(x) reads x.keys() and x[k] (GtfsObjectBase)
            info = self.class_of(o.cls)
            for m in ('keys', '__getitem__'):
                c = info.find(m)[0] if info is not None else None
                if c is None or c.name != 'GtfsObjectBase':
                    self.unsup('update from %r' % (o,))
            for n in self.all_fields(o.cls):
                if n.startswith('_'):
                    continue
                T = self.find_field(o.cls, n)[1]
                if any(t[0] in ('list', 'dict', 'set') for t in ty.alts(T)):
                    self.unsup('update from %r' % (o,))
                g = self.field_set(o, n)
                if g is False:
                    continue
                v = self.text_of(self.present_value(o, n))
                self.setattr(d.obj, n, v if g is True else self.ite(
                    g, v, self.field_raw(d.obj, n)))
            return
        c = self.load(o.loc)
        if isinstance(c, DictC):
            for a, b in c.pairs:
                self.setitem(d, a, b)
            return
        for n in self.all_fields(d.obj.cls):
            T = self.find_field(d.obj.cls, n)[1]
            if n.startswith('_'):
                continue    # column names of a table do not start with _
            if any(t[0] in ('list', 'dict', 'set') for t in ty.alts(T)):
                continue    # nor are they those of a container attribute
            if not self.subtype(c.T, T):
                if self.ctx.branch(self.key_test(c, mkstr(n))):
                    self.unsup('update of field %s' % n)
                continue
            kt = self.key_term(c, mkstr(n))
            new = self.unpack(c.T, [z3.Select(a, kt) for a in c.arrs], None)
            self.setattr(d.obj, n, self.ite(
                self.key_test(c, mkstr(n)), new, self.field_raw(d.obj, n)))

    def key_test(self, c, x):
        """Membership of (possibly union) x in a symbolic dict/set."""
        if isinstance(x, VUnion):
            ts = []
            for g, a in x.alts:
                if self.fits(a, c.K):
                    ts.append(z3.And(g, self.key_test(c, a)))
            return z3.Or(ts) if ts else False
        x = self.force_key(c, x)
        if not self.fits(x, c.K):
            return False
        kt = ty.mk_key(c.K, self.pack(c.K, x))
        r = z3.Select(c.present, kt)
        self.ctx.assume(z3.Implies(r, c.size >= 1))
        return r

    def disj(self, ts):
        out = []
        for t in ts:
            if t is False:
                continue
            if t is True:
                return True
            out.append(t)
        if not out:
            return False
        return z3.Or(out) if len(out) > 1 else out[0]

    # -------------------------------------------------- dict/set primitives
    def dict_store(self, d, kt, vterms):
        was = z3.Select(d.present, kt)
        return DictS(d.K, d.T, z3.Store(d.present, kt, z3.BoolVal(True)),
                     z3.simplify(z3.If(was, d.size, d.size + 1)),
                     [z3.Store(a, kt, t) for a, t in zip(d.arrs, vterms)])

    def set_add(self, s, kt):
        was = z3.Select(s.present, kt)
        return SetS(s.K, z3.Store(s.present, kt, z3.BoolVal(True)),
                    z3.simplify(z3.If(was, s.size, s.size + 1)))

    # -------------------------------------------------- sequences
    def materialize(self, s):
        """VSeq -> VList with its own cell."""
        if s.kind != 'seq':
            return s
        n = iconst(s.n)
        if n is not None and n <= UNROLL:
            return self.new_list([s.get(z3.IntVal(i)) for i in range(n)])
        with self.ctx.bound('mat!i', z3.IntSort()) as i:
            v = s.get(i)
            T = self.typeof(v)
            ts = self.pack(T, v)
            return VList(self.new_cell(ListS(
                T, s.n, [z3.Lambda([i], t) for t in ts])))

    def as_seq(self, v, node=None, guards=False):
        """A VSeq view of any iterable value (snapshot)."""
        v = self.force(v)
        k = v.kind
        if k == 'seq':
            return v
        if k == 'tuple':
            items = v.items
            return self.conc_seq(items)
        if k == 'list':
            c = self.load(v.loc)
            if isinstance(c, ListC):
                return self.conc_seq(list(c.items))
            self.ctx.assume(c.n >= 0)
            loc = v.loc

            def get(i, c=c):
                if c.T[0] in ('list', 'dict', 'set') or (
                        c.T[0] == 'tuple' and any(
                            t[0] in ('list', 'dict', 'set')
                            for t in c.T[1:])):
                    # keep identity of nested containers
                    return self.unpack(c.T, [z3.Select(a, i) for a in c.arrs],
                                       ElemLoc(loc, i, c.T))
                return self.elem(c, i)
            return VSeq(c.n, get, 'list')
        if k == 'dict':
            return self.dict_seq(v, 'keys')
        if k == 'set':
            c = self.load(v.loc)
            if isinstance(c, SetC):
                return self.conc_seq(list(c.items))
            n, get = self.key_order(c)
            return VSeq(n, get, 'set', (c, lambda k: self.unpack(
                c.K, ty.key_parts(c.K, k), None)))
        if k == 'str' and v.c is not None:
            return self.conc_seq([mkstr(ch) for ch in v.c])
        if k == 'none':
            self.py_raise('TypeError')
        if k == 'objdict':
            names = self.all_fields(v.obj.cls)
            if not guards:
                return self.conc_seq([
                    mkstr(n) for n in names
                    if self.ctx.branch(self.field_set(v.obj, n))])
            seq = self.conc_seq([mkstr(n) for n in names])
            return VGSeq(seq.n, seq.get, [self.field_set(v.obj, n)
                                          for n in names])
        if k == 'cur':
            c = self.load(v.loc).items
            if iconst(c[2].t) != 0:
                self.unsup('iteration over a cursor already read', node)
            return self.as_seq(c[1])
        if k == 'obj':
            info = self.class_of(v.cls)
            if info is not None and info.find('__iter__')[1] is not None:
                return self.as_seq(self.call(
                    self.get_method(v, '__iter__'), [], {}))
        self.unsup('iteration over %r' % (v,), node)

    def conc_seq(self, items):
        def get(i):
            k = iconst(i)
            if k is not None:
                return items[k]
            return VUnion([(i == j, x) for j, x in enumerate(items)])
        return VSeq(z3.IntVal(len(items)), get, 'concrete')

    def same_keys(self, a, b):
        """Do two key sets agree?  (Asked with little patience once sets of
        this origin have turned out not to.)"""
        ctx = self.ctx

        def origin(t):
            while z3.is_select(t) or z3.is_store(t):
                t = t.arg(0)
            return re.sub(r'!\d+', '', t.decl().name()) \
                if z3.is_app(t) else ''
        k = tuple(sorted([origin(a), origin(b)]))
        n = ctx.unequal.get(k, 0)
        if n < 3:
            r = ctx.entails(a == b)
        else:
            r = ctx.entails(a == b, 20)
        if not r:
            ctx.unequal[k] = n + 1
        return r

    def key_order(self, c):
        """Arbitrary but fixed enumeration of the keys of a dict/set."""
        ctx = self.ctx
        for (K, present, size, arr, inv) in ctx.dictorders:
            if K == c.K and (present.eq(c.present) or
                             self.same_keys(present, c.present)):
                if not present.eq(c.present):
                    ctx.assume(size == c.size)
                break
        else:
            ks = ty.key_sort(c.K)
            arr = ctx.fresh('keyorder', z3.ArraySort(z3.IntSort(), ks))
            inv = z3.Function('inv%d' % ctx.counter, ks, z3.IntSort())
            ctx.dictorders.append((c.K, c.present, c.size, arr, inv))
        self.size_facts(c)
        n = c.size

        def get(i):
            kt = z3.Select(arr, i)
            ctx.assume(z3.Implies(z3.And(i >= 0, i < n), z3.And(
                z3.Select(c.present, kt), inv(kt) == i)))
            parts = ty.key_parts(c.K, kt)
            kv = self.unpack(c.K, parts, None)
            if len(parts) > 1:
                # keys are stored in one form only
                k2 = ty.mk_key(c.K, self.pack(c.K, kv))
                if not k2.eq(kt):
                    ctx.assume(z3.Implies(z3.And(i >= 0, i < n), k2 == kt))
            get.raw = kt
            return kv
        return n, get

    def dict_seq(self, v, what):
        c = self.load(v.loc)
        if isinstance(c, DictC):
            if what == 'keys':
                return self.conc_seq([k for k, _ in c.pairs])
            if what == 'values':
                return self.conc_seq([x for _, x in c.pairs])
            return self.conc_seq([VTuple([k, x]) for k, x in c.pairs])
        n, getk = self.key_order(c)
        loc = v.loc

        def getv(i):
            kv = getk(i)
            kt = getk.raw
            sub = None
            if c.T[0] in ('list', 'dict', 'set'):
                sub = ElemLoc(loc, kt, c.T)
            return kv, self.unpack(c.T, [z3.Select(a, kt) for a in c.arrs],
                                   sub)
        def byk(kt):
            kv = self.unpack(c.K, ty.key_parts(c.K, kt), None)
            sub = None
            if c.T[0] in ('list', 'dict', 'set'):
                sub = ElemLoc(loc, kt, c.T)
            return kv, self.unpack(c.T, [z3.Select(a, kt) for a in c.arrs],
                                   sub)
        if what == 'keys':
            return VSeq(n, getk, 'keys', (c, lambda k: self.unpack(
                c.K, ty.key_parts(c.K, k), None)))
        if what == 'values':
            return VSeq(n, lambda i: getv(i)[1], 'values',
                        (c, lambda k: byk(k)[1]))
        return VSeq(n, lambda i: VTuple(list(getv(i))), 'items',
                    (c, lambda k: VTuple(list(byk(k)))))

    # ================================================== names
    def class_of(self, name):
        d = self.decls.get(name)
        if d is None:
            return None
        if d.info is None and d.real:
            v = self.world.get(d.real)
            if not isinstance(v, VClass):
                raise Unsupported('class %s not found' % d.real)
            d.info = v.info
        return d.info

    def lookup(self, name, fr, node=None):
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if v.kind == 'unbound':
                    self.py_raise('UnboundLocalError')
                if v.kind == 'poison':
                    self.unsup('loop-carried variable %s has no symbolic '
                               'type' % name, node)
                if v.kind == 'union' and any(a.kind == 'unbound'
                                             for g, a in v.alts):
                    v = self.force(v)
                    if v.kind == 'unbound':
                        self.py_raise('UnboundLocalError')
                return v
            f = f.closure
        v = self.world.lookup(fr.mod, name)
        if v is not None:
            return v
        if name == 'None':
            return NONE
        if name == 'True':
            return mkbool(True)
        if name == 'False':
            return mkbool(False)
        if name in BUILTINS:
            return VLib(name)
        if name in EXC_BASES:
            return VLib(name)
        if name in ('NotImplemented', '__name__', '__file__'):
            self.unsup('name %s' % name, node)
        self.py_raise('NameError')

    # ================================================== attributes
    def find_field(self, cls, name):
        while cls is not None:
            d = self.decls.get(cls)
            if d is None:
                return None
            if name in d.fields:
                return (cls, name), d.fields[name]
            cls = d.base
        return None

    def getattr(self, v, name, node=None, fr=None):
        v = self.force(v)
        k = v.kind
        if k == 'obj':
            return self.obj_getattr(v, name, node)
        if k == 'module':
            if name == 'default_problem_reporter':
                return VRep('@default')
            r = self.world.lookup(v.mod, name)
            if r is None:
                self.py_raise('AttributeError', mkstr(name))
            return r
        if k == 'class':
            return self.class_getattr(v.info, name, node)
        if k == 'lib':
            return self.lib_getattr(v, name)
        if k == 'rep':
            return VBMeth(v, name)
        if k == 'factory':
            return self.factory_getattr(name)
        if k == 'super':
            info = self.class_of(v.recv.cls)
            c, n = info.find(name, after=v.cls)
            if n is None:
                if name == '__init__':
                    return VLib('object.__init__')
                self.unsup('super().%s' % name, node)
            return VBound(v.recv, VFunc(n, c.mod, c, None,
                                        c.qual + '.' + name))
        if k == 'none':
            self.py_raise('AttributeError', mkstr(name))
        if k == 'exc':
            self.unsup('attribute %s of exception' % name, node)
        if k == 'date' and name in ('year', 'month', 'day'):
            return VInt(uf('date_' + name, [v.t], z3.IntSort()))
        if k == 'delta' and name == 'days':
            return VInt(v.t)
        if k == 'tuple' and name in TM and len(v.items) == 9:
            return v.items[TM.index(name)]
        if k == 'func' and name in ('__name__', 'func_name'):
            return mkstr(v.node.name)
        if k == 'cur' and name == 'rowcount':
            return self.load(v.loc).items[3]
        if k in ('db', 'cur'):
            return VBMeth(v, name)
        if k in ('str', 'list', 'dict', 'set', 'date', 'delta', 'seq',
                 'match', 'regex', 'tuple', 'opq', 'real', 'int', 'objdict'):
            if k in ('int', 'real', 'tuple', 'list', 'dict', 'str', 'seq') \
                    and not self.has_method(k, name):
                self.py_raise('AttributeError', mkstr(name))
            return VBMeth(v, name)
        self.unsup('attribute %s of %r' % (name, v), node)

    METHS = {
        'str': '''strip lstrip rstrip lower upper title startswith endswith find
            rfind index split join replace isdigit isalpha encode decode format
            count splitlines rsplit zfill isspace isupper islower capitalize
            partition ljust rjust center isalnum translate''',
        'list': '''append extend insert pop remove sort reverse index count''',
        'seq': '''append extend insert pop remove sort reverse index count''',
        'dict': '''get items keys values iteritems iterkeys itervalues has_key
            setdefault update pop copy clear''',
        'tuple': 'index count', 'int': '', 'real': 'is_integer'}

    def has_method(self, k, name):
        return name in self.METHS[k].split()

    def factory_getattr(self, name):
        v = self.world.get('transitfeed.' + name)
        if v is None:
            self.py_raise('AttributeError', mkstr(name))
        return v

    def class_getattr(self, info, name, node=None):
        if name == '__name__':
            return mkstr(info.name)
        c, n = info.find(name)
        if n is None:
            if name == '__init__':
                return VLib('object.__init__')
            if info.lib_bases() and name not in ('__class__',):
                self.unsup('class attribute %s.%s' % (info.name, name), node)
            self.py_raise('AttributeError', mkstr(name))
        if isinstance(n, ast.FunctionDef):
            decs = [d.id for d in n.decorator_list if isinstance(d, ast.Name)]
            f = VFunc(n, c.mod, c, None, c.qual + '.' + name)
            if 'classmethod' in decs:
                return VBound(VClass(info), f)
            return f
        if name not in c.cache:
            c.cache[name] = self.world.static_eval(n.value, c.mod, c)
        return c.cache[name]

    def obj_getattr(self, v, name, node=None, raw=False):
        f = self.find_field(v.cls, name)
        if f is not None:
            fkey, T = f
            loc = FieldLoc(v.ref, fkey, T)
            r = self.unpack(T, self.get_terms(loc), loc)
            if ty.ABSENT in ty.alts(T):
                r2 = self.drop_absent(v, r, name)
                return r2
            return r
        info = self.class_of(v.cls)
        if name == '__class__':
            return VClass(info)
        if name == '__dict__':
            return VObjDict(v)
        if name == '_connection' and \
                self.find_field(v.cls, '_db_rows') is not None:
            return VDb(v)
        if info is not None:
            c, n = info.find(name)
            if n is not None:
                if isinstance(n, ast.FunctionDef):
                    decs = [d.id for d in n.decorator_list
                            if isinstance(d, ast.Name)]
                    fn = VFunc(n, c.mod, c, None, c.qual + '.' + name)
                    if 'property' in decs:
                        return self.call(VBound(v, fn), [], {})
                    if 'staticmethod' in decs:
                        return fn
                    if 'classmethod' in decs:
                        return VBound(VClass(info), fn)
                    return VBound(v, fn)
                return self.class_getattr(info, name, node)
            if raw:
                self.py_raise('AttributeError', mkstr(name))
            c, n = info.find('__getattr__')
            if n is not None:
                return self.call(VBound(v, VFunc(
                    n, c.mod, c, None, c.qual + '.__getattr__')),
                    [mkstr(name)], {})
            self.py_raise('AttributeError', mkstr(name))
        self.unsup('attribute %s.%s not declared' % (v.cls, name), node)

    def drop_absent(self, obj, r, name):
        if isinstance(r, VAbsent) or (isinstance(r, VUnion) and any(
                isinstance(a, VAbsent) for g, a in r.alts)):
            if isinstance(r, VUnion):
                gs = [g for g, a in r.alts if isinstance(a, VAbsent)]
                if not self.ctx.branch(z3.Or(gs)):
                    rest = [(g, a) for g, a in r.alts
                            if not isinstance(a, VAbsent)]
                    if len(rest) == 1:
                        return rest[0][1]
                    return VUnion(rest)
            info = self.class_of(obj.cls)
            if info is not None:
                c, n = info.find('__getattr__')
                if n is not None:
                    return self.call(VBound(obj, VFunc(
                        n, c.mod, c, None, c.qual + '.__getattr__')),
                        [mkstr(name)], {})
                c, n = info.find(name)
                if n is not None:
                    return self.class_getattr(info, name)
            self.py_raise('AttributeError', mkstr(name))
        return r

    def get_method(self, v, name):
        info = self.class_of(v.cls)
        c, n = info.find(name)
        if n is None:
            self.py_raise('AttributeError', mkstr(name))
        return VBound(v, VFunc(n, c.mod, c, None, c.qual + '.' + name))

    def setattr(self, v, name, val, node=None):
        v = self.force(v)
        if v.kind == 'none':
            self.py_raise('AttributeError', mkstr(name))
        if v.kind != 'obj':
            self.unsup('attribute assignment on %r' % (v,), node)
        f = self.find_field(v.cls, name)
        if f is None:
            self.unsup('field %s.%s not declared' % (v.cls, name), node)
        fkey, T = f
        if isinstance(val, VSeq):
            val = self.materialize(val)
        if not self.fits(val, T):
            val = self.refine(val)
        loc = FieldLoc(v.ref, fkey, T)
        if any(t[0] in ('list', 'dict', 'set') for t in ty.alts(T)):
            if isinstance(val, (VList, VDict, VSet)) and \
                    self.same_loc(val.loc, loc):
                return
            self.detach(loc)
        terms = self.pack(T, val)
        self.set_terms(loc, terms)
        if isinstance(val, (VList, VDict, VSet)):
            self.relocate(val, T, loc)

    def detach(self, loc):
        """Handles to the old value of a container field keep that value."""
        old = None
        for cid, c in list(self.st.cells.items()):
            if isinstance(c, Redirect) and self.loc_under(c.loc, loc):
                self.st.cells[cid] = self.load(c.loc)
        for fr in self.frames:
            for n, v in list(fr.env.items()):
                if isinstance(v, (VList, VDict, VSet)) and \
                        self.loc_under(v.loc, loc):
                    fr.env[n] = type(v)(self.new_cell(self.load(v.loc)))

    def loc_under(self, l, loc):
        while True:
            if isinstance(l, FieldLoc) and isinstance(loc, FieldLoc):
                return l.fkey == loc.fkey
            if isinstance(l, (SubLoc, ElemLoc)):
                l = l.parent
                continue
            return False

    frames = ()

    # ================================================== expressions
    def ev(self, node, fr):
        m = getattr(self, 'ev_' + type(node).__name__, None)
        if m is None:
            self.unsup('expression %s' % type(node).__name__, node)
        return m(node, fr)

    def ev_Constant(self, node, fr):
        c = node.value
        if c is None:
            return NONE
        if isinstance(c, bool):
            return mkbool(c)
        if isinstance(c, int):
            return mkint(c)
        if isinstance(c, float):
            return real_of_float(c)
        if isinstance(c, str):
            return mkstr(c)
        if isinstance(c, bytes):
            return mkstr(c.decode('latin-1'))
        self.unsup('constant %r' % (c,), node)

    def ev_Name(self, node, fr):
        return self.lookup(node.id, fr, node)

    def ev_Attribute(self, node, fr):
        return self.getattr(self.ev(node.value, fr), node.attr, node, fr)

    def ev_Tuple(self, node, fr):
        return VTuple([self.ev(e, fr) for e in node.elts])

    def ev_List(self, node, fr):
        return self.new_list([self.ev(e, fr) for e in node.elts])

    def ev_Set(self, node, fr):
        items = [self.ev(e, fr) for e in node.elts]
        s = VSet(self.new_cell(SetC([])))
        for i in items:
            self.call_method(s, 'add', [i], {})
        return s

    def ev_Dict(self, node, fr):
        d = VDict(self.new_cell(DictC([])))
        for k, v in zip(node.keys, node.values):
            kv = self.ev(k, fr)
            vv = self.ev(v, fr)
            self.setitem(d, kv, vv)
        return d

    def ev_BoolOp(self, node, fr):
        is_and = isinstance(node.op, ast.And)
        for j, e in enumerate(node.values[:-1]):
            v = self.ev(e, fr)
            if v.kind == 'bool' and all(isinstance(
                    x, (ast.Name, ast.Constant)) for x in node.values[j + 1:]):
                rest = [self.ev(x, fr) for x in node.values[j + 1:]]
                if all(x.kind == 'bool' for x in rest):
                    f = z3.And if is_and else z3.Or
                    return VBool(z3.simplify(f([v.t] + [x.t for x in rest])))
            if not is_and and j == len(node.values) - 2 and isinstance(
                    node.values[-1], ast.Constant) and self.scalar(v):
                t = self.undecided(v)
                c = self.ev(node.values[-1], fr)
                if t is not None:
                    return self.ite(t, self.narrow(v, True), c)
            t = self.test(v)
            if is_and and not t:
                return self.narrow(v, False)
            if not is_and and t:
                return self.narrow(v, True)
        return self.ev(node.values[-1], fr)

    # ------- merging of simple branches (instead of forking the path)
    def scalar(self, v):
        if isinstance(v, VUnion):
            return all(self.scalar(a) for g, a in v.alts)
        return v.kind in ('none', 'bool', 'int', 'real', 'str', 'date',
                          'delta')

    def undecided(self, v):
        """The truth of a test as a term, when this path leaves it open."""
        t = self.truth(v)
        if isinstance(t, bool):
            return None
        t = z3.simplify(t)
        if z3.is_true(t) or z3.is_false(t):
            return None
        if self.ctx.known.get(t.get_id()) is not None:
            return None
        nt = z3.simplify(z3.Not(t))
        if self.ctx.known.get(nt.get_id()) is not None:
            return None
        return t

    def simple(self, node, fr):
        if isinstance(node, ast.Constant):
            return True
        if isinstance(node, ast.Name):
            return node.id in fr.env and self.scalar(fr.env[node.id])
        return False

    def simple_block(self, stmts, fr):
        for s in stmts:
            if isinstance(s, ast.Pass):
                continue
            if not isinstance(s, ast.Assign) or not all(
                    isinstance(t, ast.Name) for t in s.targets) or \
                    not self.simple(s.value, fr):
                return False
            for t in s.targets:
                if t.id not in fr.env or not self.scalar(fr.env[t.id]):
                    return False
        return True

    def merged_if(self, s, fr):
        if not (self.simple_block(s.body, fr) and
                self.simple_block(s.orelse, fr)):
            return None
        v = self.ev(s.test, fr)
        t = self.undecided(v)
        if t is None:
            return v
        old = dict(fr.env)
        self.ex_block(s.body, fr)
        one = fr.env.copy()
        fr.env.clear()
        fr.env.update(old)
        self.ex_block(s.orelse, fr)
        for k in old:
            if one[k] is not fr.env[k]:
                fr.env[k] = self.ite(t, one[k], fr.env[k])
        return True

    def narrow(self, v, truthy):
        """Drop union alternatives whose static truth contradicts."""
        if isinstance(v, VUnion):
            keep = []
            for g, a in v.alts:
                t = self.truth(a)
                if isinstance(t, bool) and t != truthy:
                    continue
                keep.append((g, a))
            if len(keep) == 1:
                return keep[0][1]
            return VUnion(keep)
        return v

    def ev_UnaryOp(self, node, fr):
        v = self.ev(node.operand, fr)
        if isinstance(node.op, ast.Not):
            return mkbool(self.neg(self.truth(v)))
        v = self.force(v)
        if isinstance(node.op, ast.USub):
            if v.kind in ('int', 'real', 'delta'):
                return type(v)(-v.t)
            if v.kind == 'bool':
                return VInt(-self.to_int(v).t)
            self.py_raise('TypeError')
        if isinstance(node.op, ast.UAdd):
            return v
        self.unsup('unary operator', node)

    def ev_BinOp(self, node, fr):
        a = self.ev(node.left, fr)
        b = self.ev(node.right, fr)
        return self.binop(node.op, a, b, node)

    def binop(self, op, a, b, node=None):
        on = type(op).__name__
        if on == 'Mod':
            fa = self.force(a)
            if fa.kind == 'str':
                return self.format(fa, b)
            a = fa
        a, b = self.force(a), self.force(b)
        ka, kb = a.kind, b.kind
        num = ('int', 'real', 'bool')
        if ka in num and kb in num:
            return self.arith(on, a, b, node)
        if on == 'Add':
            if ka == 'str' and kb == 'str':
                return self.concat(a, b)
            if ka == 'seq':
                a = self.materialize(a)
                ka = 'list'
            if kb == 'seq':
                b = self.materialize(b)
                kb = 'list'
            if ka == 'list' and kb == 'list':
                return self.list_concat(a, b)
            if ka == 'tuple' and kb == 'tuple':
                return VTuple(a.items + b.items)
            if ka == 'date' and kb == 'delta':
                return VDate(a.t + b.t)
            if ka == 'delta' and kb == 'date':
                return VDate(a.t + b.t)
            if ka == 'delta' and kb == 'delta':
                return VDelta(a.t + b.t)
        if on == 'Sub':
            if ka == 'date' and kb == 'date':
                return VDelta(a.t - b.t)
            if ka == 'date' and kb == 'delta':
                return VDate(a.t - b.t)
            if ka == 'delta' and kb == 'delta':
                return VDelta(a.t - b.t)
            if ka == 'set' and kb == 'set':
                return self.set_op(a, b, 'diff')
        if on in ('BitOr', 'BitAnd') and ka == 'set' and kb == 'set':
            return self.set_op(a, b, 'union' if on == 'BitOr' else 'inter')
        if on == 'Mult':
            if ka == 'int' and kb in ('list', 'str', 'tuple', 'delta'):
                a, b, ka, kb = b, a, kb, ka
            if kb == 'int':
                n = iconst(b.t)
                if ka == 'delta':
                    return VDelta(a.t * b.t)
                if n is not None and ka == 'list':
                    c = self.load(a.loc)
                    if isinstance(c, ListC):
                        return self.new_list(list(c.items) * n)
                if n is not None and ka == 'tuple':
                    return VTuple(a.items * n)
                if ka == 'str':
                    if n is not None and a.c is not None:
                        return mkstr(a.c * n)
                    if ty.Mode.strings == 'opaque':
                        return VStr(uf('str_rep', [a.t, b.t], ty.str_sort()))
        simple = ('int', 'real', 'bool', 'none', 'str', 'list', 'tuple',
                  'dict', 'date', 'delta')
        if ka in simple and kb in simple and on in (
                'Add', 'Sub', 'Mult', 'Div', 'FloorDiv', 'Mod'):
            if not (ka in ('list', 'str', 'tuple') and kb == 'int'):
                self.py_raise('TypeError')
        if ka == 'obj':
            meth = {'Add': '__add__', 'Sub': '__sub__',
                    'Mult': '__mul__'}.get(on)
            info = self.class_of(ka and a.cls)
            if meth and info and info.find(meth)[1] is not None:
                return self.call(self.get_method(a, meth), [b], {})
        self.unsup('operator %s on %s and %s' % (on, ka, kb), node)

    def arith(self, on, a, b, node):
        if a.kind == 'bool':
            a = self.to_int(a)
        if b.kind == 'bool':
            b = self.to_int(b)
        real = 'real' in (a.kind, b.kind)
        if on in ('Add', 'Sub', 'Mult'):
            if real:
                x, y = self.to_real(a).t, self.to_real(b).t
            else:
                x, y = a.t, b.t
            r = x + y if on == 'Add' else x - y if on == 'Sub' else x * y
            return VReal(r) if real else VInt(r)
        if on in ('Div', 'FloorDiv', 'Mod'):
            if self.ctx.branch(b.t == 0):
                self.py_raise('ZeroDivisionError')
            if real:
                x, y = self.to_real(a).t, self.to_real(b).t
                if on == 'Div':
                    return VReal(x / y)
                q = z3.ToReal(z3.ToInt(x / y))
                if on == 'FloorDiv':
                    return VReal(q)
                return VReal(x - y * q)
            x, y = a.t, b.t
            k = iconst(y)
            if k is not None and k > 0:
                q, m = x / y, x % y
            else:
                # Python floor semantics from SMT-LIB Euclidean div/mod
                q = z3.If(z3.Or(y > 0, x % y == 0), x / y, x / y - 1)
                m = z3.If(z3.Or(y > 0, x % y == 0), x % y, x % y + y)
            return VInt(m) if on == 'Mod' else VInt(q)
        if on == 'Pow':
            n = iconst(b.t) if b.kind == 'int' else None
            if n is not None and 0 <= n <= 4:
                r = mkint(1)
                for _ in range(n):
                    r = self.arith('Mult', r, a, node)
                return r
            x, y = self.to_real(a), self.to_real(b)
            return VReal(uf('pow', [x.t, y.t], z3.RealSort()))
        self.unsup('arithmetic %s' % on, node)

    def concat(self, a, b):
        if a.c is not None and b.c is not None:
            return mkstr(a.c + b.c)
        if a.c == '':
            return b
        if b.c == '':
            return a
        if ty.Mode.strings == 'seq':
            return VStr(z3.Concat(a.t, b.t))
        t = uf('str_cat', [a.t, b.t], ty.str_sort())
        e = lit_term('')
        self.ctx.assume((t == e) == z3.And(a.t == e, b.t == e))
        return VStr(t)

    def list_concat(self, a, b):
        ca, cb = self.load(a.loc), self.load(b.loc)
        if isinstance(ca, ListC) and isinstance(cb, ListC):
            return self.new_list(ca.items + cb.items)
        if isinstance(cb, ListC):
            r = VList(self.new_cell(ca))
            for x in cb.items:
                self.call_method(r, 'append', [x], {})
            return r
        T = ty.join(self.content_type(ca), self.content_type(cb))
        ta, tb = self.content_terms(T, ca), self.content_terms(T, cb)
        i = z3.Const('cat!i', z3.IntSort())
        arrs = [z3.Lambda([i], z3.If(i < ta[0], z3.Select(x, i),
                                     z3.Select(y, i - ta[0])))
                for x, y in zip(ta[1:], tb[1:])]
        return VList(self.new_cell(ListS(T[1], ta[0] + tb[0], arrs)))

    def set_op(self, a, b, op):
        ca, cb = self.load(a.loc), self.load(b.loc)
        T = ty.join(self.content_type(ca), self.content_type(cb))
        if T[1][0] == 'never':
            return VSet(self.new_cell(SetC([])))
        pa = self.content_terms(T, ca)[0]
        pb = self.content_terms(T, cb)[0]
        k = z3.Const('so!k', ty.key_sort(T[1]))
        x, y = z3.Select(pa, k), z3.Select(pb, k)
        t = {'union': z3.Or(x, y), 'inter': z3.And(x, y),
             'diff': z3.And(x, z3.Not(y)), 'symdiff': x != y}[op]
        p = z3.Lambda([k], t)
        size = uf('card_' + ty.show(T), [p], z3.IntSort())
        self.ctx.assume(size >= 0)
        return VSet(self.new_cell(SetS(T[1], p, size)))

    def ev_Compare(self, node, fr):
        left = self.ev(node.left, fr)
        res = None
        for op, c in zip(node.ops, node.comparators):
            if res is not None:
                if not self.test(res):
                    return res
            right = self.ev(c, fr)
            res = self.compare(op, left, right, node)
            left = right
        return res

    def ev_IfExp(self, node, fr):
        v = self.ev(node.test, fr)
        if self.simple(node.body, fr) and self.simple(node.orelse, fr):
            t = self.undecided(v)
            if t is not None:
                return self.ite(t, self.ev(node.body, fr),
                                self.ev(node.orelse, fr))
        if self.test(v):
            return self.ev(node.body, fr)
        return self.ev(node.orelse, fr)

    def ev_Subscript(self, node, fr):
        v = self.ev(node.value, fr)
        sl = node.slice
        if isinstance(sl, ast.Slice):
            lo = self.ev(sl.lower, fr) if sl.lower is not None else None
            hi = self.ev(sl.upper, fr) if sl.upper is not None else None
            st = self.ev(sl.step, fr) if sl.step is not None else None
            return self.getslice(self.force(v), lo, hi, st, node)
        return self.getitem(v, self.ev(sl, fr), node)

    def norm_index(self, i, n):
        """Index term normalised; raises IndexError on the failing branch."""
        if not isinstance(i, z3.ExprRef):
            i = z3.IntVal(i)
        if not isinstance(n, z3.ExprRef):
            n = z3.IntVal(n)
        k = iconst(i)
        if k is not None:
            if k < 0:
                i = n + k
        elif self.ctx.branch(i < 0):
            i = n + i
        if not self.ctx.branch(z3.And(i >= 0, i < n)):
            self.py_raise('IndexError')
        return z3.simplify(i)

    def getitem(self, v, key, node=None):
        v = self.force(v)
        k = v.kind
        if k == 'seq':
            v = self.materialize(v)
            k = 'list'
        if k == 'tuple':
            key = self.force(key)
            if key.kind == 'bool':
                key = self.to_int(key)
            if key.kind != 'int':
                self.py_raise('TypeError')
            i = iconst(key.t)
            if i is None:
                i = self.norm_index(key.t, len(v.items))
                kk = iconst(i)
                if kk is not None:
                    return v.items[kk]
                return VUnion([(i == j, x) for j, x in enumerate(v.items)])
            if not -len(v.items) <= i < len(v.items):
                self.py_raise('IndexError')
            return v.items[i]
        if k == 'list':
            key = self.force(key)
            if key.kind == 'bool':
                key = self.to_int(key)
            if key.kind != 'int':
                self.py_raise('TypeError')
            c = self.load(v.loc)
            n = len(c.items) if isinstance(c, ListC) else c.n
            i = self.norm_index(key.t, n)
            if isinstance(c, ListS):
                return self.unpack(c.T, [z3.Select(a, i) for a in c.arrs],
                                   ElemLoc(v.loc, i, c.T))
            return self.elem(c, i)
        if k == 'dict':
            c = self.load(v.loc)
            if isinstance(c, DictC):
                for kk, x in c.pairs:
                    if self.ctx.branch(self.eq_py(key, kk)):
                        return x
                self.py_raise('KeyError', key)
            if not self.ctx.branch(self.key_test(c, key)):
                self.py_raise('KeyError', key)
            kt = self.key_term(c, key)
            return self.unpack(c.T, [z3.Select(a, kt) for a in c.arrs],
                               ElemLoc(v.loc, kt, c.T))
        if k == 'str':
            key = self.force(key)
            i = iconst(key.t)
            if v.c is not None and i is not None:
                if not -len(v.c) <= i < len(v.c):
                    self.py_raise('IndexError')
                return mkstr(v.c[i])
            n = self.length(v)
            i = self.norm_index(key.t, n)
            if ty.Mode.strings == 'seq':
                return VStr(z3.SubString(v.t, i, 1))
            return VStr(uf('str_at', [v.t, i], ty.str_sort()))
        if k == 'objdict':
            r = self.objdict_get(v, key)
            if r is None:
                self.py_raise('KeyError', key)
            return r
        if k == 'obj':
            info = self.class_of(v.cls)
            if info is not None and info.find('__getitem__')[1] is not None:
                return self.call(self.get_method(v, '__getitem__'), [key], {})
        if k == 'none':
            self.py_raise('TypeError')
        self.unsup('subscript of %r' % (v,), node)

    def force_key(self, c, key):
        if isinstance(key, VUnion) or self.fits(key, c.K):
            return key
        if key.kind == 'bool':
            return self.to_int(key)
        if key.kind == 'tuple':
            return VTuple([self.deep_force(i) for i in key.items])
        return key

    def deep_force(self, v):
        v = self.force(v)
        if v.kind == 'tuple':
            return VTuple([self.deep_force(i) for i in v.items])
        return v

    def key_term(self, c, key):
        key = self.force_key(c, key)
        if isinstance(key, VUnion):
            alts = [(g, a) for g, a in key.alts if self.fits(a, c.K)]
            key = VUnion(alts) if len(alts) > 1 else alts[0][1]
        return ty.mk_key(c.K, self.pack(c.K, key))

    def getslice(self, v, lo, hi, st, node=None):
        def num(x):
            if x is None:
                return None
            x = self.force(x)
            if x.kind == 'none':
                return None
            if x.kind == 'bool':
                x = self.to_int(x)
            if x.kind != 'int':
                self.py_raise('TypeError')
            return x.t
        lo, hi = num(lo), num(hi)
        step = None
        if st is not None:
            s = self.force(st)
            step = iconst(s.t)
            if step is None:
                self.unsup('symbolic slice step', node)
        if v.kind == 'str':
            a = iconst(lo) if lo is not None else None
            b = iconst(hi) if hi is not None else None
            if v.c is not None and (lo is None or a is not None) and (
                    hi is None or b is not None):
                return mkstr(v.c[a:b:step])
            if step not in (None, 1):
                self.unsup('string slice step', node)
            n = self.length(v)
            n = z3.IntVal(n) if isinstance(n, int) else n
            A = self.clip(lo, n, z3.IntVal(0))
            B = self.clip(hi, n, n)
            if ty.Mode.strings == 'seq':
                return VStr(z3.SubString(v.t, A, z3.If(B > A, B - A,
                                                       z3.IntVal(0))))
            return VStr(uf('str_slice', [v.t, A, B], ty.str_sort()))
        if v.kind == 'tuple':
            a = iconst(lo) if lo is not None else None
            b = iconst(hi) if hi is not None else None
            return VTuple(v.items[a:b:step])
        if v.kind == 'seq':
            v = self.materialize(v)
        if v.kind != 'list':
            if v.kind == 'none':
                self.py_raise('TypeError')
            self.unsup('slice of %r' % (v,), node)
        c = self.load(v.loc)
        if isinstance(c, ListC):
            a = iconst(lo) if lo is not None else None
            b = iconst(hi) if hi is not None else None
            if (lo is None or a is not None) and (hi is None or b is not None):
                return self.new_list(c.items[a:b:step])
            T = self.content_type(c)
            ts = self.content_terms(T, c)
            c = ListS(T[1], ts[0], ts[1:])
        n = c.n
        if step == -1:
            # L[a::-1]: elements a, a-1, ..., 0 (hi must be omitted)
            if hi is not None:
                self.unsup('reverse slice with upper bound', node)
            if lo is None:
                A = n - 1
            else:
                k = iconst(lo)
                if (k is not None and k < 0) or (
                        k is None and self.ctx.branch(lo < 0)):
                    lo = lo + n
                A = z3.If(lo >= n, n - 1, lo)
            m = z3.simplify(z3.If(A + 1 > 0, A + 1, z3.IntVal(0)))
            i = z3.Const('sl!i', z3.IntSort())
            return VList(self.new_cell(ListS(c.T, m, [
                z3.Lambda([i], z3.Select(a, A - i)) for a in c.arrs])))
        if step not in (None, 1):
            self.unsup('slice step', node)
        A = self.clip(lo, n, z3.IntVal(0))
        B = self.clip(hi, n, n)
        m = z3.simplify(z3.If(B > A, B - A, z3.IntVal(0)))
        ka = iconst(A)
        if ka == 0:
            return VList(self.new_cell(ListS(c.T, m, c.arrs)))
        i = z3.Const('sl!i', z3.IntSort())
        return VList(self.new_cell(ListS(c.T, m, [
            z3.Lambda([i], z3.Select(a, i + A)) for a in c.arrs])))

    def clip(self, x, n, dflt):
        if x is None:
            return dflt
        k = iconst(x)
        if k == 0:
            return z3.IntVal(0)
        t = x
        if k is not None:
            if k < 0:
                t = n + k
                return z3.simplify(z3.If(t < 0, z3.IntVal(0), t))
            return z3.simplify(z3.If(z3.IntVal(k) > n, n, z3.IntVal(k)))
        if self.ctx.branch(x < 0):
            t = x + n
            return z3.If(t < 0, z3.IntVal(0), t)
        return z3.If(x > n, n, x)

    def setitem(self, v, key, val, node=None):
        v = self.force(v)
        if isinstance(val, VSeq):
            val = self.materialize(val)
        if v.kind == 'list':
            key = self.force(key)
            c = self.load(v.loc)
            n = len(c.items) if isinstance(c, ListC) else c.n
            i = self.norm_index(key.t, n)
            k = iconst(i)
            if isinstance(c, ListC):
                if k is not None:
                    items = list(c.items)
                    items[k] = val
                    self.store(v.loc, ListC(items))
                    return
                items = []
                for j, x in enumerate(c.items):
                    items.append(self.ite(i == j, val, x))
                self.store(v.loc, ListC(items))
                return
            if not self.fits(val, c.T):
                val = self.refine(val)
            c = self.widen_list(v, c, val)
            ts = self.pack(c.T, val)
            self.store(v.loc, ListS(c.T, c.n, [
                z3.Store(a, i, t) for a, t in zip(c.arrs, ts)]))
            self.relocate(val, c.T, ElemLoc(v.loc, i, c.T))
            return
        if v.kind == 'dict':
            c = self.load(v.loc)
            if isinstance(c, DictC):
                for j, (kk, x) in enumerate(c.pairs):
                    if self.ctx.branch(self.eq_py(key, kk)):
                        pairs = list(c.pairs)
                        pairs[j] = (kk, val)
                        self.store(v.loc, DictC(pairs))
                        return
                self.store(v.loc, DictC(c.pairs + [(key, val)]))
                return
            if not self.fits(val, c.T):
                val = self.refine(val)
            if not self.fits(key, c.K):
                key = self.refine(key)
            c = self.widen_dict(v, c, key, val)
            kt = self.key_term(c, key)
            self.size_facts(c)
            self.store(v.loc, self.dict_store(c, kt, self.pack(c.T, val)))
            self.relocate(val, c.T, ElemLoc(v.loc, kt, c.T))
            return
        if v.kind == 'objdict':
            key = self.force(key)
            if key.c is None:
                self.unsup('__dict__ item with a symbolic name', node)
            self.setattr(v.obj, key.c, val, node)
            return
        if v.kind == 'obj':
            info = self.class_of(v.cls)
            if info is not None and info.find('__setitem__')[1] is not None:
                self.call(self.get_method(v, '__setitem__'), [key, val], {})
                return
        if v.kind in ('none', 'tuple', 'int', 'str'):
            self.py_raise('TypeError')
        self.unsup('item assignment on %r' % (v,), node)

    def ite(self, g, a, b):
        if isinstance(g, bool):
            return a if g else b
        if a is b:
            return a
        if a.kind == b.kind and a.kind in ('int', 'real', 'bool', 'date',
                                           'delta'):
            return type(a)(z3.If(g, a.t, b.t))
        if a.kind == b.kind == 'str':
            if a.c is not None and a.c == b.c:
                return a
            return VStr(z3.If(g, a.t, b.t))
        la = a.alts if a.kind == 'union' else [(z3.BoolVal(True), a)]
        lb = b.alts if b.kind == 'union' else [(z3.BoolVal(True), b)]
        alts = []
        for x, y in [(z3.And(g, x), y) for x, y in la] + \
                [(z3.And(z3.Not(g), x), y) for x, y in lb]:
            x = z3.simplify(x)
            if z3.is_false(x):
                continue
            for i, (x2, y2) in enumerate(alts):
                if y2 is y or (y.kind == y2.kind == 'none'):
                    alts[i] = (z3.simplify(z3.Or(x, x2)), y)
                    break
                if y.kind == y2.kind and y.kind in ('int', 'real', 'bool',
                                                    'str', 'date', 'delta'):
                    alts[i] = (z3.simplify(z3.Or(x, x2)),
                               self.ite(x2, y2, y))
                    break
            else:
                alts.append((x, y))
        if len(alts) == 1:
            return alts[0][1]
        return VUnion(alts)

    def widen_list(self, v, c, val):
        if self.fits(val, c.T):
            return c
        if val.kind in ('int', 'bool') and ty.REAL in ty.alts(c.T) and \
                ty.INT not in ty.alts(c.T):
            return c
        if not isinstance(v.loc, CellLoc) or isinstance(
                self.st.cells[v.loc.id], Redirect):
            self.unsup('value of type %s does not fit list of %s' % (
                ty.show(self.typeof(val)), ty.show(c.T)))
        T = ty.join(c.T, self.typeof(val))
        if T == c.T:
            return c
        ts = self.content_terms(('list', T), c)
        return ListS(T, ts[0], ts[1:])

    def widen_dict(self, v, c, key, val):
        K, T = c.K, c.T
        fk = self.fits(key, K) or (key.kind == 'bool' and K == ty.INT)
        if fk and self.fits(val, T):
            return c
        if not isinstance(v.loc, CellLoc) or isinstance(
                self.st.cells[v.loc.id], Redirect):
            self.unsup('entry (%r, %r) does not fit dict %s' % (
                key, val, ty.show(('dict', K, T))))
        K2 = K if fk else ty.join(K, self.typeof(key))
        T2 = T if self.fits(val, T) else ty.join(T, self.typeof(val))
        ts = self.content_terms(('dict', K2, T2), c)
        return DictS(K2, T2, ts[0], ts[1], ts[2:])

    def ev_Lambda(self, node, fr):
        return VFunc(node, fr.mod, fr.cls, fr, fr.qual + '.<lambda>',
                     self.eval_defaults(node.args, fr))

    def eval_defaults(self, args, fr):
        return [self.ev(d, fr) for d in args.defaults]

    def ev_ListComp(self, node, fr):
        return self.comprehension(node, fr, 'list')

    def ev_GeneratorExp(self, node, fr):
        return self.comprehension(node, fr, 'list')

    def ev_SetComp(self, node, fr):
        return self.comprehension(node, fr, 'set')

    def ev_DictComp(self, node, fr):
        return self.comprehension(node, fr, 'dict')

    def comprehension(self, node, fr, kind):
        if kind == 'list':
            res = self.new_list()
        elif kind == 'set':
            res = VSet(self.new_cell(SetC([])))
        else:
            res = VDict(self.new_cell(DictC([])))
        f2 = Frame(fr.mod, fr.cls, fr.qual, fr, fr.depth)
        self.frames = self.frames + (f2,)

        def gen(i):
            if i == len(node.generators):
                if kind == 'list':
                    self.call_method(res, 'append', [self.ev(node.elt, f2)],
                                     {})
                elif kind == 'set':
                    self.call_method(res, 'add', [self.ev(node.elt, f2)], {})
                else:
                    k = self.ev(node.key, f2)
                    self.setitem(res, k, self.ev(node.value, f2))
                return
            g = node.generators[i]
            it = self.ev(g.iter, f2 if i else fr)

            def body():
                for c in g.ifs:
                    if not self.test(self.ev(c, f2)):
                        return
                gen(i + 1)
            self.for_loop(g, g.target, it, body, f2)
        try:
            gen(0)
        finally:
            self.frames = self.frames[:-1]
        return res

    def ev_JoinedStr(self, node, fr):
        parts = []
        for p in node.values:
            if isinstance(p, ast.FormattedValue):
                parts.append(self.str_conv(self.force(self.ev(p.value, fr))))
            else:
                parts.append(self.ev(p, fr))
        r = mkstr('')
        for p in parts:
            r = self.concat(r, p)
        return r

    def ev_Yield(self, node, fr):
        v = self.ev(node.value, fr) if node.value is not None else NONE
        if fr.sink is not None:
            loop, ofr = fr.sink
            self.assign(loop.target, v, ofr)
            try:
                self.ex_block(loop.body, ofr)
            except ContinueEx:
                pass
            except (BreakEx, ReturnEx):
                self.unsup('leaving a loop over a generator', node)
            return NONE
        if fr.yields is None:
            self.unsup('yield', node)
        self.call_method(fr.yields, 'append', [v], {})
        return NONE

    # -------------------------------------------------- formatting
    def format(self, f, args):
        """f % args as a string value; exact for constant operands."""
        items = args.items if isinstance(args, VTuple) else [args]
        if f.c is not None and not (len(items) == 1 and
                                    items[0].kind in ('dict', 'obj')):
            import re
            convs = [c for k, w, c in re.findall(
                r'%(\(\w*\))?[-#0 +]*(\*|\d+)?(?:\.\d+)?[hlL]?'
                r'([diouxXeEfFgGcrs%])', f.c) if c != '%']
            if '*' not in f.c and '%(' not in f.c:
                if len(convs) != len(items):
                    self.py_raise('TypeError')
                for c, x in zip(convs, items):
                    if c in 'diouxXeEfFgG' and self.force(x).kind in (
                            'none', 'str', 'tuple', 'list', 'dict', 'date'):
                        self.py_raise('TypeError')
        if f.c is None:
            ts = [f.t]
            name = 'fmt?'
        else:
            ts = []
            name = 'fmt:' + f.c
        if ty.Mode.strings == 'seq' and f.c is not None:
            r = self.format_seq(f.c, items)
            if r is not None:
                return r
        conc = []
        ok = f.c is not None
        for x in items:
            if x.kind == 'union':
                x = self.force(x)
            if x.kind == 'str' and x.c is not None:
                conc.append(x.c)
            elif x.kind == 'int' and iconst(x.t) is not None:
                conc.append(iconst(x.t))
            else:
                ok = False
            name += '|' + x.kind
            try:
                ts.extend(self.scalar_terms(x))
            except Unsupported:
                # repr of a compound object inside a message
                ts.append(self.ctx.fresh('msg', ty.str_sort()))
        if ok:
            try:
                return mkstr(f.c % tuple(conc))
            except (TypeError, ValueError):
                pass
        if f.c == '%s' and len(items) == 1:
            return self.str_conv(self.force(items[0]))
        t = uf(name, ts, ty.str_sort())
        return VStr(t)

    def scalar_terms(self, x):
        T = self.typeof(x)
        return self.pack(T, x)

    def format_seq(self, f, items):
        import re
        toks = re.split(r'(%0?\d*[sd])', f)
        out = mkstr('')
        n = 0
        for tk in toks:
            if not tk:
                continue
            if tk[0] != '%':
                if '%' in tk:
                    return None
                out = self.concat(out, mkstr(tk))
                continue
            x = self.force(items[n])
            n += 1
            if tk == '%s':
                if x.kind == 'str':
                    out = self.concat(out, x)
                    continue
                if x.kind != 'int':
                    return None
            if x.kind == 'bool':
                x = self.to_int(x)
            if x.kind != 'int':
                if x.kind in ('none', 'str'):
                    self.py_raise('TypeError')
                return None
            m = re.match(r'%(0?)(\d*)[sd]$', tk)
            width = int(m.group(2) or 0)
            s = self.int_str_seq(x.t)
            if width:
                pad = '0' if m.group(1) else ' '
                if width != 2 or pad != '0':
                    return None
                # exact for 0 <= x; negative numbers are outside %02d use
                if self.ctx.branch(x.t < 0):
                    return None
                if self.ctx.branch(x.t < 10):
                    s = z3.Concat(z3.StringVal('0'), s)
            out = self.concat(out, VStr(s))
        if n != len(items):
            self.py_raise('TypeError')
        return out

    def int_str_seq(self, t):
        k = iconst(t)
        if k is not None:
            return z3.StringVal(str(k))
        if self.ctx.branch(t >= 0):
            return z3.IntToStr(t)
        return z3.Concat(z3.StringVal('-'), z3.IntToStr(-t))

    def str_conv(self, v):
        """str(v) / unicode(v)."""
        if v.kind == 'str':
            return v
        if v.kind == 'int':
            k = iconst(v.t)
            if k is not None:
                return mkstr(str(k))
            if ty.Mode.strings == 'seq':
                return VStr(self.int_str_seq(v.t))
            t = uf('str_of_int', [v.t], ty.str_sort())
            self.ctx.assume(z3.And(
                uf('int_of_str', [t], z3.IntSort()) == v.t,
                uf('is_int_str', [t], z3.BoolSort()), t != lit_term('')))
            return VStr(t)
        if v.kind == 'none':
            return mkstr('None')
        if v.kind == 'bool':
            return self.ite(v.t, mkstr('True'), mkstr('False'))
        if v.kind == 'real':
            t = uf('str_of_real', [v.t], ty.str_sort())
            self.ctx.assume(t != lit_term(''))
            return VStr(t)
        if v.kind == 'obj':
            info = self.class_of(v.cls)
            for m in ('__str__', '__repr__'):
                if info is not None and info.find(m)[1] is not None:
                    return self.force(self.call(self.get_method(v, m), [], {}))
        try:
            return VStr(uf('str_of_' + v.kind, self.scalar_terms(v),
                           ty.str_sort()))
        except Unsupported:
            return VStr(self.ctx.fresh('msg', ty.str_sort()))

    # ================================================== calls
    def ev_Call(self, node, fr):
        # super(C, self) / locals-like forms
        fn = self.ev(node.func, fr)
        if self.quantify and isinstance(fn, VLib) and fn.name in (
                'all', 'any') and len(node.args) == 1 and isinstance(
                node.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.quantified(fn.name, node.args[0], fr)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                sv = self.force(self.ev(a.value, fr))
                if sv.kind == 'tuple':
                    args.extend(sv.items)
                else:
                    s = self.as_seq(sv)
                    n = iconst(s.n)
                    if n is None:
                        if isinstance(fn, VLib) and len(node.args) == 1 and \
                                fn.name == 'itertools.chain':
                            return self.prelude('_flatten', [sv])
                        self.unsup('star argument of unknown length', node)
                    args.extend(s.get(z3.IntVal(i)) for i in range(n))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in node.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value, fr))
                c = self.load(d.loc)
                if not isinstance(c, DictC):
                    self.unsup('** with a symbolic dict', node)
                for kk, vv in c.pairs:
                    kw[kk.c] = vv
            else:
                kw[k.arg] = self.ev(k.value, fr)
        if self.gen_for is not None and self.gen_for[0] is node:
            self.gen_for, loop = None, self.gen_for[1:]
            if fn.kind == 'bound':
                self.pending = loop
            elif fn.kind == 'bmeth' and not args:
                recv = self.force(fn.recv)
                if recv.kind == 'objdict':
                    return self.guarded_items(recv.obj)
        return self.call(fn, args, kw, node, fr)

    quantify = False

    def quantified(self, which, g, fr):
        f2 = Frame(fr.mod, fr.cls, fr.qual, fr, fr.depth)
        ctx = self.ctx
        bound, guards = [], []

        def boolean(node):
            def run():
                try:
                    t = self.truth(self.ev(node, f2))
                except PyRaise:
                    t = False
                return z3.BoolVal(t) if isinstance(t, bool) else t
            cs = ctx.cases(run, ('q', id(node)))
            if len(cs) == 1:
                return cs[0][1]
            return z3.And([z3.Implies(c, t) for c, t in cs])
        for gen in g.generators:
            s = self.as_seq(self.ev(gen.iter, f2))
            if iconst(s.n) == 0:
                return mkbool(which == 'all')
            if s.bykey is not None:
                c, val = s.bykey
                i = ctx.fresh('q', ty.key_sort(c.K))
                guards.append(z3.Select(c.present, i))
                bound.append(i)
                self.assign(gen.target, val(i), f2)
            else:
                i = ctx.fresh('q', z3.IntSort())
                bound.append(i)
                guards.append(z3.And(i >= 0, i < s.n))
                self.assign(gen.target, s.get(i), f2)
            for c in gen.ifs:
                guards.append(boolean(c))
        t = boolean(g.elt)
        vs = [z3.Const('qv!%d' % j, b.sort()) for j, b in enumerate(bound)]
        if which == 'all':
            body = z3.Implies(z3.And(guards), t)
            body = z3.substitute(body, *zip(bound, vs))
            return VBool(z3.ForAll(vs, body))
        body = z3.substitute(z3.And(guards + [t]), *zip(bound, vs))
        return VBool(z3.Exists(vs, body))

    def call(self, fn, args, kw, node=None, fr=None):
        fn = self.force(fn)
        k = fn.kind
        if k == 'func':
            return self.call_func(fn, args, kw, node)
        if k == 'bound':
            return self.call_func(fn.fn, [fn.recv] + args, kw, node)
        if k == 'bmeth':
            return self.call_method(fn.recv, fn.name, args, kw, node)
        if k == 'lib':
            return self.call_lib(fn.name, args, kw, node, fr)
        if k == 'class':
            return self.instantiate(fn.info, args, kw, node)
        if k == 'none':
            self.py_raise('TypeError')
        self.unsup('call of %r' % (fn,), node)

    def bind(self, a, args, kw, defaults, what):
        """Bind call arguments to an ast.arguments; returns dict."""
        names = [x.arg for x in a.args]
        env = {}
        if len(args) > len(names):
            if a.vararg is None:
                self.py_raise('TypeError')
            env[a.vararg.arg] = VTuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = VTuple([])
        for n, v in zip(names, args):
            env[n] = v
        extra = []
        for n, v in kw.items():
            if n in names:
                if n in env:
                    self.py_raise('TypeError')
                env[n] = v
            elif a.kwarg is not None:
                extra.append((mkstr(n), v))
            else:
                self.py_raise('TypeError')
        if a.kwarg is not None:
            env[a.kwarg.arg] = VDict(self.new_cell(DictC(extra)))
        nd = len(defaults)
        for n, d in zip(names[len(names) - nd:], defaults):
            if n not in env:
                env[n] = d() if callable(d) else d
        for n in names:
            if n not in env:
                self.py_raise('TypeError')
        return env

    def call_func(self, fn, args, kw, node=None):
        sink, self.pending = self.pending, None
        con = self.contracts.get(fn.qual)
        if con is None and self.spec_mode and fn.mod.name.startswith('spec'):
            con = self.contracts.get('=' + fn.qual)
            if con is not None and con.mode == 'spec':
                con = None
        if con is not None and con.modular and args and \
                args[0].kind == 'obj' and \
                con.argtypes.get('self', ('',))[0] == 'obj' and \
                args[0].cls != con.argtypes['self'][1]:
            # proved of another class: use the body
            con = None if fn.mod.name.startswith('spec') else \
                self.contracts.get('%s@%s' % (con.qual, args[0].cls))
        if con is not None and con.modular and not (
                self.side == 'T' and fn.qual == self.top_qual and
                len(self.frames) == 0):
            return self.call_contract(con, fn, args, kw, node)
        if getattr(fn.node, 'name', '') == 'GetGtfsFactory' and \
                fn.qual.endswith('GtfsFactoryUser.GetGtfsFactory') and \
                len(self.frames):
            return VFactory()   # the standard factory (see C24)
        if fn.qual == 'transitfeed.util.EncodeUnicode' and len(self.frames):
            return args[0]      # text is not told from its UTF-8 form
        return self.run_func(fn, args, kw, node, sink)

    def run_func(self, fn, args, kw, node=None, sink=None):
        if len(self.frames) > MAXDEPTH:
            self.unsup('call depth (recursion without a contract): %s' %
                       fn.qual, node)
        n = fn.node
        if self.side == 'T' and not fn.mod.name.startswith('spec'):
            self.inlined.add(fn.qual)
        args = [self.materialize(a) if isinstance(a, VSeq) else a
                for a in args]
        if fn.defaults is not None:
            dfl = fn.defaults
        else:
            dfl = [self.default_thunk(d, fn) for d in n.args.defaults]
        env = self.bind(n.args, args, kw, dfl, fn.qual)
        fr = Frame(fn.mod, fn.cls, fn.qual, fn.closure, len(self.frames))
        fr.env = env
        # Names assigned anywhere are local
        if isinstance(n, ast.FunctionDef):
            for nm in local_names(n):
                if nm not in env:
                    fr.env[nm] = UNBOUND
        self.frames = self.frames + (fr,)
        try:
            if isinstance(n, ast.Lambda):
                return self.ev(n.body, fr)
            gen = is_generator(n)
            if gen and sink is not None:
                fr.sink = sink
            elif gen:
                fr.yields = self.new_list()
            try:
                self.ex_block(n.body, fr)
                r = NONE
            except ReturnEx as e:
                r = e.v
            if gen:
                return CONSUMED if sink is not None else fr.yields
            return r
        finally:
            self.frames = self.frames[:-1]

    def default_thunk(self, d, fn):
        def thunk():
            # defaults are evaluated at definition time in module/class scope
            return self.world.static_eval(d, fn.mod, fn.cls)
        return thunk

    product = True

    def logic(self, con):
        """A machine that evaluates formulas on the current state."""
        q = type(self)(self.ctx, self.world, self.decls, self.contracts,
                       self.st.copy(), 'Q')
        q.spec_mode = True
        q.quantify = True

        def no(kind, rec):
            raise Unsupported('loop in a formula of %s' % con.qual)
        q.sync = no
        return q

    def logic_env(self, con, q, names, env):
        fr = Frame(con.spec_func.mod, None, 'spec.formula', None, 0)
        snames = [a.arg for a in con.spec_func.node.args.args]
        for a, b in zip(snames, names):
            fr.env[a] = env[b]
        return fr

    def ctx_prove(self, t, name):
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        self.prover.prove(t, name)

    def call_contract(self, con, fn, args, kw, node):
        """Use the callee's contract instead of its body."""
        self.used.add(con.qual)
        n = fn.node
        dfl = [self.default_thunk(d, fn) for d in n.args.defaults]
        env = self.bind(n.args, args, kw, dfl, fn.qual)
        names = [x.arg for x in n.args.args]
        if con.requires and self.side != 'Q' and not (
                self.spec_mode and self.side == 'S' and self.product):
            q = self.logic(con)
            e2 = self.logic_env(con, q, names, env)
            for r, src in zip(con.requires, con.requires_src):
                try:
                    t = q.truth(q.ev(r, e2))
                except PyRaise as e:
                    t = False
                self.ctx_prove(t, 'requires of %s: %s' % (con.qual, src))
        if con.mode == 'uf':
            vals = [self.force(env[x]) if isinstance(env[x], VUnion) and False
                    else env[x] for x in names]
            ts = []
            sig = []
            for nm, v in zip(names, vals):
                if v.kind in ('rep', 'factory'):
                    continue
                T = con.argtypes.get(nm)
                if T is None or not self.fits(v, T):
                    if T is not None and T == ty.REAL and v.kind in (
                            'int', 'bool'):
                        pass
                    elif T is not None and isinstance(v, VUnion):
                        v = self.force(v)
                        if not self.fits(v, T) and not (
                                T == ty.REAL and v.kind in ('int', 'bool')):
                            self.unsup('argument %s of %s: %r' % (
                                nm, con.qual, v), node)
                    else:
                        self.unsup('argument %s of %s: %r' % (
                            nm, con.qual, v), node)
                ts.extend(self.pack(T, v))
            return self.summary(con, env, names, ts, node)
        if con.mode == 'event':
            vals = [(x, env[x]) for x in names if env[x].kind != 'rep']
            ts = []
            if con.writes or con.ret is not None or con.raises:
                for nm in names:
                    v = env[nm]
                    T = con.argtypes.get(nm)
                    if v.kind in ('rep', 'factory') or T[0] == 'new':
                        continue
                    if not self.fits(v, T) and isinstance(v, VUnion):
                        v = self.force(v)
                    if v.kind in ('rep', 'factory'):
                        continue
                    if v.kind == 'none' and ty.REP in ty.alts(T):
                        continue
                    if not self.fits(v, T) and not (
                            T == ty.REAL and v.kind in ('int', 'bool')):
                        self.unsup('argument %s of %s: %r' % (
                            nm, con.qual, v), node)
                    ts.extend(self.pack(T, v))
            for lab, arrs in self.frame_terms(con, env, con.reads +
                                              con.writes):
                vals.append(('reads ' + lab, VArrays(arrs)))
            who = ''.join(env[x].who for x in names if env[x].kind == 'rep')
            self.st.log.append(Event('call ' + con.qual + who, vals))
            return self.summary(con, env, names, ts, node)
        # executable contract: run the specification instead of the body
        sf = con.spec_func
        return self.run_func(sf, [env[x] for x in names], {}, node)

    def frame_item(self, con, env, f):
        """(object or None for all, field key, type) of a frame entry."""
        c, fld = f.split('.')
        if c in con.argtypes:
            o = env[c]
            if isinstance(o, VUnion):
                o = self.force(o)
            if o.kind != 'obj':
                self.unsup('frame entry %s of %s' % (f, con.qual))
            fkey, T = self.find_field(o.cls, fld)
            return o, fkey, T
        fkey, T = self.find_field(c, fld)
        return None, fkey, T

    def frame_terms(self, con, env, fs):
        out = []
        for f in fs:
            o, fkey, T = self.frame_item(con, env, f)
            if o is None:
                if self.frame_reads is not None:
                    self.frame_reads.setdefault(fkey, []).append(None)
                out.append((f, list(self.field_arrays(fkey, T))))
            else:
                out.append((f, self.get_terms(FieldLoc(o.ref, fkey, T))))
        return out

    def literal_result(self, con, env, names, res):
        """On literal arguments the contract itself gives the value."""
        if con.mode != 'uf' or con.reads or con.writes or con.bounded:
            return
        for nm in names:
            v = env[nm]
            if not (v.kind == 'str' and v.c is not None) and not (
                    v.kind == 'int' and iconst(v.t) is not None):
                return
        q = self.logic(con)
        try:
            r = q.run_func(con.spec_func, [env[x] for x in names], {})
        except (Unsupported, PyRaise):
            return
        self.ctx.assume(self.eq(res, r))

    def summary(self, con, env, names, ts, node):
        """Result and new values of the written fields as functions of the
        arguments and of everything the callee may read."""
        ts = list(ts)
        for lab, arrs in self.frame_terms(con, env, con.reads + con.writes):
            ts.extend(arrs)
        for f in con.writes:
            o, fkey, T = self.frame_item(con, env, f)
            if o is None:
                old = self.field_arrays(fkey, T)
                new = [uf('%s!%s_%d' % (con.qual, f, i), ts, a.sort())
                       for i, a in enumerate(old)]
                self.st.heap[fkey] = (T, new)
                if self.frame_writes is not None:
                    self.frame_writes.setdefault(fkey, []).append(None)
            else:
                new = [uf('%s!%s_%d' % (con.qual, f, i), ts, s)
                       for i, s in enumerate(ty.sorts(T))]
                self.canon_facts(T, new)
                self.set_terms(FieldLoc(o.ref, fkey, T), new)
        if con.raises:
            t = uf('%s!raises' % con.qual, ts, z3.BoolSort())
            if self.ctx.branch(t):
                self.py_raise(con.raises)
        res = NONE
        if con.ret is not None:
            rts = [uf('%s_%d' % (con.qual, i), ts, s) if ts else
                   z3.Const('%s_%d' % (con.qual, i), s)
                   for i, s in enumerate(ty.sorts(con.ret))]
            res = self.value_from(con.ret, rts)
            self.literal_result(con, env, names, res)
        if con.ensures and self.side != 'Q':
            q = self.logic(con)
            e2 = self.logic_env(con, q, names, env)
            e2.env['result'] = res
            for r in con.ensures:
                self.ctx.assume(q.truth(q.ev(r, e2)))
        return res

    # -------------------------------------------------- instantiation
    def exc_class_name(self, info):
        return info.name

    def is_exception_class(self, info):
        return any(b in EXC_BASES for b in info.lib_bases())

    def instantiate(self, info, args, kw, node=None):
        if self.is_exception_class(info) and info.name not in self.decls:
            return VExc(info.name, args)
        if 'Enum' in info.lib_bases():
            self.unsup('enum', node)
        name = None
        for d in self.decls.values():
            if d.real == info.qual or (d.real and self.class_of(d.name).node
                                       is info.node):
                name = d.name
                break
        if name is None:
            self.unsup('class %s has no declared fields' % info.qual, node)
        obj = self.allocate(name)
        c, n = info.find('__init__')
        if n is not None:
            f = VFunc(n, c.mod, c, None, c.qual + '.__init__')
            self.call_func(f, [obj] + args, kw, node)
        return obj

    def allocate(self, name):
        ref = self.st.top
        self.st.top = z3.simplify(self.st.top + 1)
        obj = VObj(name, ref)
        # every declared field starts absent where its type allows that
        cls = name
        while cls is not None:
            d = self.decls[cls]
            for f, T in d.fields.items():
                al = ty.alts(T)
                init = None
                if ty.ABSENT in al:
                    init = ABSENT
                elif ty.NONE in al:
                    init = NONE
                if init is not None:
                    self.set_terms(FieldLoc(ref, (cls, f), T),
                                   self.pack(T, init))
            cls = d.base
        return obj

    # ================================================== statements
    def ex_block(self, stmts, fr):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If) and not s.orelse and \
                    i + 1 < len(stmts) and len(s.body) == 1 and \
                    isinstance(s.body[0], ast.Return) and \
                    isinstance(stmts[i + 1], ast.Return) and \
                    s.body[0].value is not None and \
                    stmts[i + 1].value is not None and \
                    self.simple(s.body[0].value, fr) and \
                    self.simple(stmts[i + 1].value, fr):
                v = self.ev(s.test, fr)
                t = self.undecided(v)
                if t is not None:
                    raise ReturnEx(self.ite(t, self.ev(s.body[0].value, fr),
                                            self.ev(stmts[i + 1].value, fr)))
                if self.test(v):
                    raise ReturnEx(self.ev(s.body[0].value, fr))
                continue
            self.ex(s, fr)

    def ex(self, s, fr):
        m = getattr(self, 'ex_' + type(s).__name__, None)
        if m is None:
            self.unsup('statement %s' % type(s).__name__, s)
        m(s, fr)

    def ex_Expr(self, s, fr):
        self.ev(s.value, fr)

    def ex_Pass(self, s, fr):
        pass

    def ex_Global(self, s, fr):
        self.unsup('global statement', s)

    def ex_Import(self, s, fr):
        for a in s.names:
            m = self.world.module(a.name)
            nm = a.asname or a.name.split('.')[0]
            fr.env[nm] = VMod(m) if m is not None else VLib(
                a.name if a.asname else nm)

    def ex_ImportFrom(self, s, fr):
        src = fr.mod.resolve_rel(s)
        m = self.world.module(src)
        for a in s.names:
            v = self.world.lookup(m, a.name) if m is not None else VLib(
                src + '.' + a.name)
            fr.env[a.asname or a.name] = v

    def ex_Return(self, s, fr):
        raise ReturnEx(self.ev(s.value, fr) if s.value is not None else NONE)

    def ex_Break(self, s, fr):
        raise BreakEx()

    def ex_Continue(self, s, fr):
        raise ContinueEx()

    def ex_If(self, s, fr):
        v = self.merged_if(s, fr)
        if v is True:
            return
        if v is None:
            v = self.ev(s.test, fr)
        if self.test(v):
            self.ex_block(s.body, fr)
        else:
            self.ex_block(s.orelse, fr)

    def ex_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def assign(self, t, v, fr):
        if isinstance(v, VSeq):
            v = self.materialize(v)
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            if v.kind == 'tuple':
                items = v.items
            else:
                sq = self.as_seq(v)
                n = iconst(sq.n)
                if n is None:
                    if not self.ctx.branch(sq.n == len(t.elts)):
                        self.py_raise('ValueError')
                    n = len(t.elts)
                items = [sq.get(z3.IntVal(i)) for i in range(n)]
            if len(items) != len(t.elts):
                self.py_raise('ValueError')
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                self.unsup('slice assignment', t)
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            self.setitem(o, k, v, t)
        else:
            self.unsup('assignment target', t)

    def ex_AugAssign(self, s, fr):
        t = s.target
        rhs = None
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr, t)
            rhs = self.ev(s.value, fr)
            cur = self.force(cur)
            if cur.kind == 'list' and isinstance(s.op, ast.Add):
                self.call_method(cur, 'extend', [rhs], {})
                return
            fr.env[t.id] = self.binop(s.op, cur, rhs, s)
        elif isinstance(t, ast.Attribute):
            o = self.force(self.ev(t.value, fr))
            cur = self.force(self.getattr(o, t.attr, t, fr))
            rhs = self.ev(s.value, fr)
            if cur.kind == 'list' and isinstance(s.op, ast.Add):
                self.call_method(cur, 'extend', [rhs], {})
                return
            self.setattr(o, t.attr, self.binop(s.op, cur, rhs, s), t)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.ev(t.value, fr))
            k = self.ev(t.slice, fr)
            cur = self.getitem(o, k, t)
            rhs = self.ev(s.value, fr)
            cur = self.force(cur)
            if cur.kind == 'list' and isinstance(s.op, ast.Add):
                self.call_method(cur, 'extend', [rhs], {})
                return
            self.setitem(o, k, self.binop(s.op, cur, rhs, s), t)
        else:
            self.unsup('augmented assignment', s)

    def ex_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.force(self.ev(t.value, fr))
                if isinstance(t.slice, ast.Slice):
                    self.unsup('del slice', s)
                k = self.ev(t.slice, fr)
                self.call_method(o, '__delitem__', [k], {})
            elif isinstance(t, ast.Attribute):
                o = self.force(self.ev(t.value, fr))
                f = self.find_field(o.cls, t.attr) if o.kind == 'obj' else None
                if f is None:
                    self.unsup('del attribute', s)
                if ty.ABSENT in ty.alts(f[1]):
                    self.setattr(o, t.attr, ABSENT, t)
                elif ty.NONE in ty.alts(f[1]):
                    # __getattr__ answers None for a deleted known field
                    self.setattr(o, t.attr, NONE, t)
                else:
                    self.unsup('del of a mandatory field', s)
            elif isinstance(t, ast.Name):
                fr.env[t.id] = UNBOUND
            else:
                self.unsup('del', s)

    def ex_Assert(self, s, fr):
        v = self.ev(s.test, fr)
        if self.spec_mode and fr.mod.name.startswith('spec'):
            self.ctx.prove(self.truth(v), 'assert@%s:%d' % (
                fr.qual, s.lineno))
            self.ctx.assume(self.truth(v))
            return
        if not self.test(v):
            self.py_raise('AssertionError')

    def ex_Raise(self, s, fr):
        if s.exc is None:
            if fr.curexc is not None:
                raise PyRaise(fr.curexc)
            self.unsup('bare raise', s)
        v = self.force(self.ev(s.exc, fr))
        if v.kind == 'class':
            v = VExc(v.info.name, [])
        elif v.kind == 'lib':
            v = VExc(v.name, [])
        elif v.kind == 'obj':
            v = VExc(v.cls, [v])
        if v.kind != 'exc':
            self.unsup('raise of %r' % (v,), s)
        raise PyRaise(v)

    def exc_matches(self, name, v):
        """Does exception class `name` match handler class value v?"""
        if v.kind == 'tuple':
            return any(self.exc_matches(name, x) for x in v.items)
        if v.kind == 'lib':
            h = v.name.split('.')[-1]
            chain = self.exc_chain(name)
            return h in chain
        if v.kind == 'class':
            return v.info.name in self.exc_chain(name)
        self.unsup('exception handler %r' % (v,))

    def exc_chain(self, name):
        out = []
        n = name
        if n not in EXC_BASES:
            for m in ('transitfeed.problems', 'transitfeed.errors'):
                mod = self.world.module(m)
                c = self.world.lookup(mod, n) if mod is not None else None
                if c is not None and c.kind == 'class':
                    out.extend(x.name for x in c.info.mro())
                    for b in c.info.lib_bases():
                        out.extend(self.exc_chain(b))
                    return out
            return [n, 'Exception', 'BaseException']
        while n is not None:
            out.append(n)
            n = EXC_BASES.get(n)
        return out

    def ex_Try(self, s, fr):
        def run_fin(f):
            if not s.finalbody:
                return f()
            try:
                f()
            except (PyRaise, ReturnEx, BreakEx, ContinueEx):
                self.ex_block(s.finalbody, fr)
                raise
            self.ex_block(s.finalbody, fr)

        def main():
            try:
                self.ex_block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(
                            e.exc.cls, self.force(self.ev(h.type, fr))):
                        if h.name:
                            fr.env[h.name] = e.exc
                        old = fr.curexc
                        fr.curexc = e.exc
                        try:
                            self.ex_block(h.body, fr)
                        finally:
                            fr.curexc = old
                        return
                raise
            self.ex_block(s.orelse, fr)
        run_fin(main)

    ex_TryExcept = ex_Try

    def ex_With(self, s, fr):
        self.unsup('with statement', s)

    def ex_FunctionDef(self, s, fr):
        fr.env[s.name] = VFunc(s, fr.mod, fr.cls, fr, fr.qual + '.' + s.name,
                               self.eval_defaults(s.args, fr))

    # -------------------------------------------------- loops
    pending = None
    gen_for = None

    def ex_For(self, s, fr):
        if isinstance(s.iter, ast.Call) and isinstance(
                s.iter.func, ast.Attribute) and s.iter.func.attr == \
                'iteritems':
            # a generator over the attributes of an object is consumed as it
            # runs, so that absent attributes do not fork the execution
            self.gen_for = (s.iter, s, fr)
        it = self.ev(s.iter, fr)
        if it is CONSUMED:
            self.ex_block(s.orelse, fr)
            return

        def body():
            self.ex_block(s.body, fr)
        self.for_loop(s, s.target, it, body, fr, s.orelse)

    def for_loop(self, node, target, it, body, fr, orelse=()):
        seq = self.as_seq(it, node, True)
        n = iconst(seq.n)
        if isinstance(seq, VGSeq):
            for i, g in enumerate(seq.guards):
                def one():
                    self.assign(target, seq.get(z3.IntVal(i)), fr)
                    try:
                        body()
                    except ContinueEx:
                        pass
                try:
                    self.guarded(g, one, fr)
                except BreakEx:
                    return
            self.ex_block(orelse, fr)
            return
        if n is not None and n <= UNROLL:
            for i in range(n):
                self.assign(target, seq.get(z3.IntVal(i)), fr)
                try:
                    body()
                except BreakEx:
                    return
                except ContinueEx:
                    pass
            self.ex_block(orelse, fr)
            return
        kname = '$k%d' % id(node)
        fr.env[kname] = mkint(0)
        rec = LoopRec(self, node, fr, seq, kname)
        self.sync('loop', rec)
        k = fr.env[kname].t
        self.ctx.assume(z3.And(k >= 0, k <= seq.n))
        if not rec.skip and self.ctx.branch(k < seq.n):
            self.assign(target, seq.get(k), fr)
            try:
                body()
            except BreakEx:
                fr.env.pop(kname, None)
                return
            except ContinueEx:
                pass
            fr.env[kname] = VInt(z3.simplify(k + 1))
            self.sync('next', rec)
            raise PathDone()
        fr.env.pop(kname, None)
        self.ex_block(orelse, fr)

    def guarded(self, g, f, fr):
        """Run f only where g holds, without forking when its effects can
        be merged."""
        if not isinstance(g, bool):
            b = bconst(g)
            g = g if b is None else b
        if g is False:
            return
        if g is True:
            return f()
        ctx = self.ctx
        if ctx.nobranch or ctx.under is not None:
            if ctx.branch(g):
                f()
            return
        st0 = self.st.copy()
        frs = [fr] + ([fr.sink[1]] if fr.sink is not None else [])
        envs = [dict(x.env) for x in frs]
        ok = False
        ctx.under, ctx.nobranch = g, True
        oldl, ctx.local = ctx.local, {'trace': [], 'pos': 0, 'conds': []}
        try:
            f()
            ok = not ctx.local['conds']
        except (Unsupported, PyRaise, ReturnEx, BreakEx):
            pass
        finally:
            ctx.under, ctx.nobranch, ctx.local = None, False, oldl
        if ok:
            ok = self.merge_state(g, st0, envs, frs)
        if not ok:
            self.st.__dict__.update(st0.__dict__)
            for x, env0 in zip(frs, envs):
                x.env.clear()
                x.env.update(env0)
            if ctx.branch(g):
                f()

    def merge_state(self, g, st0, envs, frs):
        st = self.st
        if st.top is not st0.top or len(st.log) != len(st0.log):
            return False
        cells, heap, new = {}, {}, []
        try:
            for k, c0 in st0.cells.items():
                c1 = st.cells[k]
                if c1 is c0:
                    continue
                if isinstance(c0, Redirect) or isinstance(c1, Redirect):
                    return False
                T = ty.join(self.content_type(c0), self.content_type(c1))
                cells[k] = self.wrap_content(T, [
                    merge_term(g, b, a) for a, b in zip(
                        self.content_terms(T, c0), self.content_terms(T, c1))])
            for k, (T, arrs) in st.heap.items():
                old = st0.heap.get(k)
                if old is None:
                    return False
                if any(x is not y for x, y in zip(arrs, old[1])):
                    heap[k] = (T, [merge_term(g, y, x)
                                   for x, y in zip(old[1], arrs)])
            for fr, env0 in zip(frs, envs):
                env = {}
                for k, v in fr.env.items():
                    o = env0.get(k, UNBOUND)
                    if v is not o:
                        env[k] = self.ite(g, v, o)
                new.append(env)
        except Unsupported:
            return False
        st.cells.update(cells)
        st.heap.update(heap)
        for fr, env in zip(frs, new):
            fr.env.update(env)
        return True

    def ex_While(self, s, fr):
        # a concrete condition is unrolled a few times
        for _ in range(UNROLL):
            kname = '$k%d' % id(s)
            break
        fr.env[kname] = mkint(0)
        rec = LoopRec(self, s, fr, None, kname)
        self.sync('loop', rec)
        k = fr.env[kname].t
        self.ctx.assume(k >= 0)
        if self.test(self.ev(s.test, fr)):
            try:
                self.ex_block(s.body, fr)
            except BreakEx:
                fr.env.pop(kname, None)
                return
            except ContinueEx:
                pass
            fr.env[kname] = VInt(z3.simplify(k + 1))
            self.sync('next', rec)
            raise PathDone()
        fr.env.pop(kname, None)
        self.ex_block(s.orelse, fr)


CONSUMED = VTuple([])    # a generator whose items were used up by a for loop


class LoopRec(object):
    def __init__(self, interp, node, fr, seq, kname):
        self.interp = interp
        self.node = node
        self.fr = fr
        self.seq = seq
        self.kname = kname
        self.partner = None
        self.skip = False
        self.side = interp.side

    def where(self):
        return '%s:%s' % (self.fr.qual, getattr(
            self.node, 'lineno', getattr(getattr(
                self.node, 'target', None), 'lineno', '?')))


_ln_cache = {}


def local_names(fn):
    r = _ln_cache.get(id(fn))
    if r is not None:
        return r[1]
    names = set()

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                names.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp,
                              ast.DictComp, ast.GeneratorExp)):
                walk_expr(c)
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                names.add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name:
                names.add(c.name)
            walk(c)

    def walk_expr(n):
        pass
    walk(fn)
    _ln_cache[id(fn)] = (fn, names)
    return names


_gen_cache = {}


def is_generator(fn):
    r = _gen_cache.get(id(fn))
    if r is None:
        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    return True
                if walk(c):
                    return True
            return False
        r = (fn, walk(fn))
        _gen_cache[id(fn)] = r
    return r[1]

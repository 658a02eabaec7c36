"""Builtins and library functions as seen by the verifier.

Pure library functions with no exact theory are uninterpreted functions of
their arguments (equal arguments give equal results); nothing else is assumed
about them unless stated here.
"""
import ast
import z3
from . import ty
from .values import *
from .interp import (Interp, mkstr, mkint, mkbool, mkreal, real_of_float,
                     iconst, bconst, uf, lit_term, EXC_BASES, PRELUDE,
                     local_names, LITS, UNROLL, Frame, PyRaise)
from .world import ModInfo, ClassInfo


# fields that hold a defaultdict(lambda: [])
DEFAULTDICTS = {('Schedule', '_transfers')}


class VDefDict(VDict):
    __slots__ = ('default',)

    def __init__(self, loc, default):
        self.loc = loc
        self.default = default


DROP = ('reason', 'description', 'context', 'context2', 'problem_text', 'msg')
CONTEXT_CALLS = ('SetFileContext', 'ClearContext', 'SetContext')

STR_TO_STR = '''strip lstrip rstrip lower upper title replace capitalize zfill
    encode decode ljust rjust center format translate'''.split()
STR_TO_BOOL = '''startswith endswith isdigit isalpha isspace isupper islower
    isalnum'''.split()
STR_TO_INT = 'find rfind count'.split()


def digit_group(pat, i):
    """Largest number group i of pat can spell if it matches only ASCII
    digits (at least one), else None."""
    import re._parser as sp
    import re._constants as sc

    def find(items):
        for op, av in items:
            if op is sc.SUBPATTERN:
                if av[0] == i:
                    return av[3]
                r = find(av[3])
                if r is not None:
                    return r
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                # a repeated or optional group may be unset
                continue
        return None

    def digit(op, av):
        if op is sc.LITERAL and 48 <= av <= 57:
            return av - 48
        if op is sc.IN:
            best = None
            for o, a in av:
                if o is sc.CATEGORY and a is sc.CATEGORY_DIGIT:
                    d = 9
                elif o is sc.RANGE and 48 <= a[0] and a[1] <= 57:
                    d = a[1] - 48
                elif o is sc.LITERAL and 48 <= a <= 57:
                    d = a - 48
                else:
                    return None
                best = d if best is None else max(best, d)
            return best
        return None
    g = find(sp.parse(pat)) if i else None
    if not g:
        return None
    hi = 0
    for op, av in g:
        rep = 1
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            if len(av[2]) != 1 or av[0] < 1 or av[1] > 12:
                return None
            rep = int(av[1])
            op, av = av[2][0]
        d = digit(op, av)
        if d is None:
            return None
        for _ in range(rep):
            hi = hi * 10 + d
    return hi


SQL_COLUMNS = ['trip_id', 'arrival_secs', 'departure_secs', 'stop_id',
               'stop_sequence', 'stop_headsign', 'pickup_type',
               'drop_off_type', 'shape_dist_traveled', 'timepoint']


def sql_source(text, name):
    """Python meaning of one statement on stop_times: NULL equals nothing,
    rows keep their order of insertion, ORDER BY is stable with NULL first."""
    import re

    def col(c):
        c = c.strip().lower()
        if c not in SQL_COLUMNS:
            raise KeyError(c)
        return SQL_COLUMNS.index(c)

    def where(w):
        conds = []
        for i, x in enumerate(re.split(r' and ', w, flags=re.I) if w else []):
            m = re.match(r'(\w+) ?= ?\?$', x.strip())
            c = col(m.group(1))
            conds.append('r[%d] is not None and p%d is not None and '
                         'r[%d] == p%d' % (c, i, c, i))
        return len(conds), ' and '.join('(%s)' % c for c in conds) or 'True'
    try:
        m = re.match(r'INSERT INTO stop_times ?\(([\w, ]+)\) ?VALUES ?'
                     r'\(([?, ]+)\)$', text, re.I)
        if m:
            cols = [col(c) for c in m.group(1).split(',')]
            n = m.group(2).count('?')
            if n != len(cols) or len(set(cols)) != n:
                return None
            vals = ['p%d' % cols.index(i) if i in cols else 'None'
                    for i in range(len(SQL_COLUMNS))]
            return ('def %s(%s):\n    return (%s)\n' % (
                name, ', '.join('p%d' % i for i in range(n)),
                ', '.join(vals)), name, n, 'insert')
        m = re.match(r'DELETE FROM stop_times(?: WHERE (.*))?$', text, re.I)
        if m:
            n, w = where(m.group(1))
            return ('def %s(%s):\n    return [r for r in rows if not (%s)]\n'
                    % (name, ', '.join(['rows'] + ['p%d' % i
                                                  for i in range(n)]), w),
                    name, n, 'delete')
        m = re.match(r'SELECT count ?\( ?(\w+) ?\) AS (\w+), ?(\w+) FROM '
                     r'stop_times(?: WHERE (.*?))? GROUP BY (\w+) '
                     r'HAVING (\w+) ?(>|>=|=|<|<=) ?(\d+)$', text, re.I)
        if m:
            g = m.groups()
            if g[0] != g[2] or g[2] != g[4] or g[1] != g[5]:
                return None
            n, w = where(g[3])
            c = col(g[0])
            op = '==' if g[6] == '=' else g[6]
            if not 0 < int(g[7]) or op in ('<', '<='):
                return None     # the group of NULLs counts 0
            return ('def %s(%s):\n'
                    '    sel = [r[%d] for r in rows if %s and '
                    'r[%d] is not None]\n'
                    '    out = []\n'
                    '    sel = sorted(sel)\n'
                    '    n = 0\n'
                    '    for i in range(len(sel)):\n'
                    '        n += 1\n'
                    '        if i + 1 == len(sel) or sel[i + 1] != sel[i]:\n'
                    '            if n %s %s:\n'
                    '                out.append((n, sel[i]))\n'
                    '            n = 0\n'
                    '    return out\n' % (
                        name, ', '.join(['rows'] + ['p%d' % i
                                                    for i in range(n)]),
                        c, w, c, op, g[7]), name, n, 'groups')
        m = re.match(r'SELECT (.*?) FROM stop_times(?: WHERE (.*?))?'
                     r'(?: ORDER BY (\w+)( ASC| DESC)?)?(?: LIMIT (\d+))?$',
                     text, re.I)
        if not m:
            return None
        n, w = where(m.group(2))
        src = 'def %s(%s):\n    sel = [r for r in rows if %s]\n' % (
            name, ', '.join(['rows'] + ['p%d' % i for i in range(n)]), w)
        items = [x.strip() for x in m.group(1).split(',')]
        agg = [re.match(r'(max|min|count) ?\( ?(\*|\w+) ?\)$', x, re.I)
               for x in items]
        if any(agg):
            if not all(agg) or m.group(3) or (m.group(5) == '0'):
                return None
            out = []
            more = ''
            for a in agg:
                f = a.group(1).lower()
                if f == 'count' and a.group(2) == '*':
                    out.append('len(sel)')
                elif f == 'count':
                    out.append('len([r for r in sel if r[%d] is not None])'
                               % col(a.group(2)))
                else:
                    i = len(out)
                    more += ('    b%d = None\n    for r in rows:\n'
                             '        if %s:\n'
                             '            if r[%d] is not None and (b%d is None'
                             ' or r[%d] %s b%d):\n'
                             '                b%d = r[%d]\n') % (
                                 i, w, col(a.group(2)), i, col(a.group(2)),
                                 '>' if f == 'max' else '<', i, i,
                                 col(a.group(2)))
                    out.append('b%d' % i)
            if not any('sel' in x for x in out):
                src = src[:src.index('\n') + 1]
            src += more + '    return [(%s,)]\n' % ', '.join(out)
        else:
            if m.group(3):
                src += '    sel = sorted(sel, key=lambda r: r[%d]%s)\n' % (
                    col(m.group(3)), ', reverse=True' if (
                        m.group(4) or '').strip().upper() == 'DESC' else '')
            if m.group(5):
                src += '    sel = sel[:%s]\n' % m.group(5)
            if items == ['*']:
                items = SQL_COLUMNS
            src += '    return sel\n'
            return src, name, n, [col(x) for x in items]
        return src, name, n, 'select'
    except (KeyError, AttributeError):
        return None


class Lib(object):
    # ------------------------------------------------ prelude
    def prelude_module(self):
        w = self.world
        if getattr(w, 'prelude_mod', None) is None:
            m = ModInfo('prelude', 'prelude.py', ast.parse(PRELUDE), w)
            w.prelude_mod = m
        return w.prelude_mod

    def prelude(self, name, args):
        m = self.prelude_module()
        fn = VFunc(m.defs[name], m, None, None, 'prelude.' + name)
        return self.run_func(fn, args, {})

    # ------------------------------------------------ database
    def m_db_cursor(self, v, args, kw, node):
        return VCur(self.new_cell(ListC([v.owner, NONE, mkint(0),
                                         mkint(-1)])))

    def m_db_commit(self, v, args, kw, node):
        return NONE

    def m_cur_close(self, v, args, kw, node):
        return NONE

    def m_cur_execute(self, v, args, kw, node):
        sql = self.force(args[0])
        if sql.kind != 'str' or sql.c is None:
            self.unsup('SQL text not constant', node)
        ps = []
        if len(args) > 1:
            sq = self.as_seq(args[1])
            n = iconst(sq.n)
            if n is None:
                self.unsup('SQL parameters of unknown number', node)
            ps = [sq.get(z3.IntVal(i)) for i in range(n)]
        name, np, kind = self.sql_function(sql.c, node)
        if np != len(ps):
            self.unsup('SQL parameter count', node)
        owner = self.load(v.loc).items[0]
        rows = self.obj_getattr(owner, '_db_rows')
        if kind == 'insert':
            self.m_list_append(rows, [self.prelude(name, ps)], {}, node)
            self.store(v.loc, ListC([owner, NONE, mkint(0), mkint(1)]))
        elif kind == 'delete':
            rest = self.prelude(name, [rows] + ps)
            n0, n1 = self.length(rows), self.length(rest)
            self.setattr(owner, '_db_rows', rest)
            self.store(v.loc, ListC([owner, NONE, mkint(0),
                                     VInt(z3.simplify(n0 - n1))]))
        else:
            r = self.prelude(name, [rows] + ps)
            if isinstance(kind, list):
                sq = self.as_seq(r)

                def get(i):
                    row = self.force(sq.get(i))
                    return VTuple([row.items[c] for c in kind])
                r = VSeq(sq.n, get, 'rows')
            self.store(v.loc, ListC([owner, r, mkint(0), mkint(-1)]))
        return v

    def m_cur_fetchone(self, v, args, kw, node):
        owner, rows, pos, rc = self.load(v.loc).items
        s = self.as_seq(rows)
        n = s.n if not isinstance(s.n, int) else z3.IntVal(s.n)
        if not self.ctx.branch(pos.t < n):
            return NONE
        self.store(v.loc, ListC([owner, rows, VInt(z3.simplify(pos.t + 1)),
                                 rc]))
        return s.get(z3.simplify(pos.t))

    def m_cur_fetchall(self, v, args, kw, node):
        owner, rows, pos, rc = self.load(v.loc).items
        if iconst(pos.t) != 0:
            self.unsup('fetchall of a cursor already read', node)
        s = self.as_seq(rows)
        self.store(v.loc, ListC([owner, rows, VInt(
            s.n if not isinstance(s.n, int) else z3.IntVal(s.n)), rc]))
        return s

    def sql_function(self, sql, node):
        """(prelude function, number of parameters, kind) of a statement on
        the table stop_times."""
        text = ' '.join(sql.split()).rstrip('; ')
        w = self.world
        if getattr(w, 'sql_memo', None) is None:
            w.sql_memo = {}
        if text in w.sql_memo:
            return w.sql_memo[text]
        r = sql_source(text, '_sql%d' % len(w.sql_memo))
        if r is None:
            self.unsup('SQL statement %r' % text, node)
        src, name, np, kind = r
        self.prelude_module()
        for d in ast.parse(src).body:
            w.prelude_mod.defs[d.name] = d
        w.sql_memo[text] = (name, np, kind)
        return w.sql_memo[text]

    # ------------------------------------------------ methods
    def call_method(self, v, name, args, kw, node=None):
        v = self.force(v)
        k = v.kind
        if k == 'rep':
            return self.rep_call(name, args, kw, node, v.who)
        m = getattr(self, 'm_%s_%s' % (k, name.strip('_')), None)
        if m is not None:
            if kw:
                return m(*args, v=v, node=node, **kw) if False else \
                    m(v, args, kw, node)
            return m(v, args, kw, node)
        if k == 'seq':
            return self.call_method(self.materialize(v), name, args, kw, node)
        if k == 'str':
            return self.str_method(v, name, args, kw, node)
        if k == 'none':
            self.py_raise('AttributeError', mkstr(name))
        if k == 'real' and name == 'is_integer':
            return mkbool(z3.IsInt(v.t))
        self.unsup('method %s of %s' % (name, k), node)

    # --- reporter
    def rep_call(self, name, args, kw, node, who=''):
        if name in CONTEXT_CALLS:
            return NONE
        if name == 'GetFileContext':
            return VOpq('Ctx', z3.Const('filectx', ty.opq_sort('Ctx')))
        f = self.world.get('transitfeed.problems.ProblemReporter.' + name)
        if f is None:
            self.py_raise('AttributeError', mkstr(name))
        dfl = [self.default_thunk(d, f) for d in f.node.args.defaults]
        env = self.bind(f.node.args, [NONE] + args, kw, dfl, name)
        vals = []
        for a in f.node.args.args[1:]:
            if a.arg in DROP:
                continue
            x = env[a.arg]
            if isinstance(x, VSeq):
                x = self.materialize(x)
            # the value at the time of the report
            if isinstance(x, (VList, VDict, VSet)):
                x = type(x)(self.new_cell(self.load(x.loc))) if not \
                    isinstance(x, VDefDict) else VDict(
                        self.new_cell(self.load(x.loc)))
            vals.append((a.arg, x))
        self.st.log.append(Event(name + who, vals))
        return NONE

    # --- list
    def m_list_append(self, v, args, kw, node):
        x = args[0]
        if isinstance(x, VSeq):
            x = self.materialize(x)
        c = self.load(v.loc)
        if isinstance(c, ListC):
            self.store(v.loc, ListC(c.items + [x]))
            return NONE
        if not self.fits(x, c.T):
            x = self.refine(x)
        c = self.widen_list(v, c, x)
        ts = self.pack(c.T, x)
        i = c.n
        self.store(v.loc, ListS(c.T, z3.simplify(c.n + 1), [
            z3.Store(a, i, t) for a, t in zip(c.arrs, ts)]))
        self.relocate(x, c.T, ElemLoc(v.loc, i, c.T))
        return NONE

    def m_list_extend(self, v, args, kw, node):
        s = self.as_seq(args[0])
        n = iconst(s.n)
        if n is not None and n <= UNROLL:
            for i in range(n):
                self.m_list_append(v, [s.get(z3.IntVal(i))], {}, node)
            return NONE
        other = self.materialize(s)
        r = self.list_concat(v, other)
        self.store(v.loc, self.load(r.loc))
        return NONE

    def sym_list(self, c):
        if isinstance(c, ListS):
            return c
        T = self.content_type(c)
        ts = self.content_terms(T, c)
        return ListS(T[1], ts[0], ts[1:])

    def m_list_insert(self, v, args, kw, node):
        i = self.force(args[0])
        x = args[1]
        c = self.load(v.loc)
        k = iconst(i.t)
        if isinstance(c, ListC) and k is not None:
            items = list(c.items)
            items.insert(k, x)
            self.store(v.loc, ListC(items))
            return NONE
        c = self.sym_list(c)
        if not self.fits(x, c.T):
            x = self.refine(x)
        c = self.widen_list(v, c, x)
        ts = self.pack(c.T, x)
        I = self.clip(i.t, c.n, z3.IntVal(0))
        j = z3.Const('ins!i', z3.IntSort())
        self.store(v.loc, ListS(c.T, z3.simplify(c.n + 1), [
            z3.Lambda([j], z3.If(j < I, z3.Select(a, j), z3.If(
                j == I, t, z3.Select(a, j - 1))))
            for a, t in zip(c.arrs, ts)]))
        return NONE

    def m_list_pop(self, v, args, kw, node):
        c = self.load(v.loc)
        n = len(c.items) if isinstance(c, ListC) else c.n
        i = self.force(args[0]).t if args else z3.IntVal(-1)
        i = self.norm_index(i, n)
        k = iconst(i)
        if isinstance(c, ListC):
            if k is None:
                self.unsup('pop at a symbolic index', node)
            items = list(c.items)
            r = items.pop(k)
            self.store(v.loc, ListC(items))
            return r
        r = self.elem(c, i)
        self.list_del(v, c, i)
        return r

    def list_del(self, v, c, i):
        if z3.simplify(i == c.n - 1).eq(z3.BoolVal(True)):
            arrs = c.arrs
        else:
            j = z3.Const('del!i', z3.IntSort())
            arrs = [z3.Lambda([j], z3.If(j < i, z3.Select(a, j),
                                         z3.Select(a, j + 1)))
                    for a in c.arrs]
        self.store(v.loc, ListS(c.T, z3.simplify(c.n - 1), arrs))

    def m_list_delitem(self, v, args, kw, node):
        self.m_list_pop(v, args, kw, node)
        return NONE

    def m_list_remove(self, v, args, kw, node):
        i = self.prelude('_index', [v, args[0]])
        self.m_list_pop(v, [i], {}, node)
        return NONE

    def m_list_index(self, v, args, kw, node):
        return self.prelude('_index', [v, args[0]])

    def m_list_count(self, v, args, kw, node):
        return self.prelude('_count', [v, args[0]])

    m_tuple_index = m_list_index
    m_tuple_count = m_list_count

    def m_list_reverse(self, v, args, kw, node):
        c = self.load(v.loc)
        self.store(v.loc, self.reversed_content(c))
        return NONE

    def reversed_content(self, c):
        if isinstance(c, ListC):
            return ListC(list(reversed(c.items)))
        j = z3.Const('rev!i', z3.IntSort())
        return ListS(c.T, c.n, [z3.Lambda([j], z3.Select(a, c.n - 1 - j))
                                for a in c.arrs])

    def m_list_sort(self, v, args, kw, node):
        c = self.load(v.loc)
        self.store(v.loc, self.sort_content(c, args, kw, node))
        return NONE

    def sort_content(self, c, args, kw, node=None):
        cmpf = args[0] if args else kw.get('cmp', NONE)
        key = args[1] if len(args) > 1 else kw.get('key', NONE)
        rev = args[2] if len(args) > 2 else kw.get('reverse', NONE)
        revt = self.test(rev)
        if isinstance(c, ListC):
            if len(c.items) <= 1:
                return c
            if cmpf.kind == 'none':
                return self.insertion_sort(c, key, revt)
        c = self.sym_list(c)
        desc = 'rev' if revt else ''
        deps = [c.n]
        if cmpf.kind != 'none':
            f = self.force(cmpf)
            if f.kind == 'func':
                import re
                body = f.node.body
                d = ast.dump(body) if isinstance(body, ast.AST) else \
                    ''.join(ast.dump(x) for x in body)
                for j, a in enumerate(f.node.args.args):
                    d = d.replace("'%s'" % a.arg, "'$%d'" % j)
                desc += 'cmp' + d
            else:
                desc += 'cmp%r' % (f,)
            deps += c.arrs
        else:
            cs = None
            if key.kind != 'none':
                bad = []
                with self.ctx.bound('key!i', z3.IntSort()) as j:
                    def one():
                        try:
                            return self.call(key, [self.elem(c, j)], {})
                        except PyRaise as e:
                            return e
                    cs = self.ctx.cases(one)
                    bad = [(g, e) for g, e in cs if isinstance(e, PyRaise)]
                    cs = [(g, v) for g, v in cs if not isinstance(v, PyRaise)]
                    q = z3.Const('sr!q', z3.IntSort())
                    t = z3.substitute(z3.Or([g for g, _ in bad]), (j, q))
                if bad:
                    if len(set(str(e.exc.cls) for _, e in bad)) > 1:
                        self.unsup('sort key with several exceptions', node)
                    if self.ctx.branch(z3.Exists([q], z3.And(
                            q >= 0, q < c.n, t))):
                        raise bad[0][1]
                    if not cs:
                        return c        # nothing to sort
            with self.ctx.bound('key!i', z3.IntSort()) as j:
                x = self.elem(c, j)
                if cs is not None:
                    x = cs[0][1] if len(cs) == 1 else VUnion(cs)
                T = self.typeof(x)
                desc += ty.show(T)
                for t in self.pack(T, x):
                    deps.append(self.eta(z3.Lambda([j], t)))
            # an object order goes through __cmp__/__lt__ of the heap
        perm = uf('sortperm_' + desc, deps,
                  z3.ArraySort(z3.IntSort(), z3.IntSort()))
        inv = uf('sortinv_' + desc, deps,
                 z3.ArraySort(z3.IntSort(), z3.IntSort()))
        ai = z3.ArraySort(z3.IntSort(), z3.IntSort())
        p2, i2 = self.ctx.fresh('perm', ai), self.ctx.fresh('inv', ai)
        self.ctx.assume(z3.And(p2 == perm, i2 == inv))
        perm, inv = p2, i2
        # equal keys are sorted alike, whatever lies beyond the length
        seen = self.ctx.sorts
        j = z3.Const('sk!j', z3.IntSort())
        for d0, deps0, perm0, inv0 in seen:
            if d0 != desc or len(deps0) != len(deps):
                continue
            body = z3.And([z3.Select(a, j) == z3.Select(b, j)
                           for a, b in zip(deps0[1:], deps[1:])] or [True])
            self.ctx.assume(z3.Implies(
                z3.And(deps0[0] == deps[0], z3.ForAll([j], z3.Implies(
                    z3.And(j >= 0, j < deps[0]), body))),
                z3.And(perm0 == perm, inv0 == inv)))
        self.ctx.sorts = seen + [(desc, deps, perm, inv)]
        q = z3.Const('sp!q', z3.IntSort())
        self.ctx.assume(z3.ForAll([q], z3.Implies(
            z3.And(q >= 0, q < c.n),
            z3.And(z3.Select(perm, q) >= 0, z3.Select(perm, q) < c.n,
                   z3.Select(inv, z3.Select(perm, q)) == q)),
            patterns=[z3.Select(perm, q)]))
        return ListS(c.T, c.n, [
            z3.Lambda([j2], z3.Select(a, z3.Select(perm, j2)))
            for j2 in [z3.Const('so!i', z3.IntSort())] for a in c.arrs])

    def eta(self, lam):
        """lambda i. a[i]  ->  a"""
        if z3.is_quantifier(lam) and lam.is_lambda():
            b = lam.body()
            if z3.is_select(b) and z3.is_var(b.arg(1)) and \
                    z3.get_var_index(b.arg(1)) == 0:
                a = b.arg(0)
                if not self.has_var(a):
                    return a
        return lam

    def has_var(self, t):
        if z3.is_var(t):
            return True
        if z3.is_quantifier(t):
            return True
        return any(self.has_var(c) for c in t.children())

    def insertion_sort(self, c, key, rev):
        out = []
        for x in c.items:
            kx = self.call(key, [x], {}) if key.kind != 'none' else x
            pos = len(out)
            for j, (ky, y) in enumerate(out):
                a, b = self.force(kx), self.force(ky)
                less = self.lt(b, a) if rev else self.lt(a, b)
                if self.ctx.branch(less):
                    pos = j
                    break
            out.insert(pos, (kx, x))
        return ListC([x for _, x in out])

    # --- dict
    def m_dict_get(self, v, args, kw, node):
        key = args[0]
        d = args[1] if len(args) > 1 else NONE
        c = self.load(v.loc)
        if isinstance(c, DictC):
            for kk, x in c.pairs:
                if self.ctx.branch(self.eq_py(key, kk)):
                    return x
            return d
        if self.ctx.branch(self.key_test(c, key)):
            kt = self.key_term(c, key)
            return self.unpack(c.T, [z3.Select(a, kt) for a in c.arrs],
                               ElemLoc(v.loc, kt, c.T))
        return d

    def m_objdict_update(self, v, args, kw, node):
        for o in args:
            self.objdict_update(v, o)
        for n, x in kw.items():
            self.setitem(v, mkstr(n), x)
        return NONE

    def m_objdict_get(self, v, args, kw, node):
        r = self.objdict_get(v, args[0])
        if r is None:
            return args[1] if len(args) > 1 else NONE
        return r

    def m_objdict_has_key(self, v, args, kw, node):
        return mkbool(self.contains(v, args[0]))

    def m_objdict_keys(self, v, args, kw, node):
        return self.as_seq(v)

    def m_objdict_items(self, v, args, kw, node):
        s = self.as_seq(v)
        n = iconst(s.n)
        ks = [s.get(z3.IntVal(i)) for i in range(n)]
        return self.conc_seq([VTuple([k, self.objdict_get(v, k)])
                              for k in ks])

    m_objdict_iteritems = m_objdict_items
    m_objdict_iterkeys = m_objdict_keys

    def f_id(self, args, kw, node, fr):
        v = self.force(args[0])
        if v.kind == 'obj':
            return VInt(v.ref)
        if v.kind == 'none':
            return mkint(-1)
        self.unsup('id of %s' % v.kind, node)

    def f_weakref_proxy(self, args, kw, node, fr):
        return args[0]      # a proxy stands for the object

    def f_warnings_warn(self, args, kw, node, fr):
        return NONE         # not part of the observable behaviour

    def f_vars(self, args, kw, node, fr):
        return VObjDict(self.force(args[0]))

    def m_dict_has_key(self, v, args, kw, node):
        return mkbool(self.contains(v, args[0]))

    m_dict_contains = m_dict_has_key

    def m_dict_keys(self, v, args, kw, node):
        return self.dict_seq(v, 'keys')

    def m_dict_values(self, v, args, kw, node):
        return self.dict_seq(v, 'values')

    def m_dict_items(self, v, args, kw, node):
        return self.dict_seq(v, 'items')

    m_dict_iterkeys = m_dict_keys
    m_dict_itervalues = m_dict_values
    m_dict_iteritems = m_dict_items

    def m_dict_setdefault(self, v, args, kw, node):
        key = args[0]
        d = args[1] if len(args) > 1 else NONE
        if self.ctx.branch(self.contains(v, key)):
            return self.getitem(v, key)
        self.setitem(v, key, d)
        return self.getitem(v, key)

    def m_dict_update(self, v, args, kw, node):
        for o in args:
            o = self.force(o)
            if o.kind == 'dict':
                c = self.load(o.loc)
                if isinstance(c, DictC):
                    for a, b in c.pairs:
                        self.setitem(v, a, b)
                    continue
                self.prelude('_dictupdate', [v, o])
                continue
            self.unsup('dict.update argument', node)
        for n, x in kw.items():
            self.setitem(v, mkstr(n), x)
        return NONE

    def m_dict_delitem(self, v, args, kw, node):
        key = args[0]
        c = self.load(v.loc)
        if isinstance(c, DictC):
            for j, (kk, x) in enumerate(c.pairs):
                if self.ctx.branch(self.eq_py(key, kk)):
                    self.store(v.loc, DictC(c.pairs[:j] + c.pairs[j + 1:]))
                    return NONE
            self.py_raise('KeyError', key)
        if not self.ctx.branch(self.key_test(c, key)):
            self.py_raise('KeyError', key)
        kt = self.key_term(c, key)
        self.store(v.loc, DictS(
            c.K, c.T, z3.Store(c.present, kt, z3.BoolVal(False)),
            z3.simplify(c.size - 1), c.arrs))
        return NONE

    def m_dict_pop(self, v, args, kw, node):
        if self.ctx.branch(self.contains(v, args[0])):
            r = self.getitem(v, args[0])
            self.m_dict_delitem(v, [args[0]], {}, node)
            return r
        if len(args) > 1:
            return args[1]
        self.py_raise('KeyError', args[0])

    def m_dict_copy(self, v, args, kw, node):
        return VDict(self.new_cell(self.load(v.loc)))

    def m_dict_clear(self, v, args, kw, node):
        self.store(v.loc, DictC([]))
        return NONE

    # --- set
    def m_set_add(self, v, args, kw, node):
        x = self.force(args[0])
        c = self.load(v.loc)
        if isinstance(c, SetC):
            for y in c.items:
                if self.ctx.branch(self.eq_py(x, y)):
                    return NONE
            self.store(v.loc, SetC(c.items + [x]))
            return NONE
        if c.K[0] == 'never' or not self.fits(x, c.K):
            x = self.refine(x)
        if c.K[0] == 'never' or not self.fits(x, c.K):
            if not isinstance(v.loc, CellLoc) or isinstance(
                    self.st.cells[v.loc.id], Redirect):
                self.unsup('set element type', node)
            K = ty.join(c.K, self.typeof(x))
            ts = self.content_terms(('set', K), c)
            c = SetS(K, ts[0], ts[1])
        self.size_facts(c)
        self.store(v.loc, self.set_add(c, ty.mk_key(c.K, self.pack(c.K, x))))
        return NONE

    def m_set_discard(self, v, args, kw, node):
        x = self.force(args[0])
        c = self.load(v.loc)
        if isinstance(c, SetC):
            for j, y in enumerate(c.items):
                if self.ctx.branch(self.eq_py(x, y)):
                    self.store(v.loc, SetC(c.items[:j] + c.items[j + 1:]))
                    return mkbool(True)
            return mkbool(False)
        if self.ctx.branch(self.key_test(c, x)):
            kt = ty.mk_key(c.K, self.pack(c.K, x))
            self.store(v.loc, SetS(
                c.K, z3.Store(c.present, kt, z3.BoolVal(False)),
                z3.simplify(c.size - 1)))
            return mkbool(True)
        return mkbool(False)

    def m_set_remove(self, v, args, kw, node):
        r = self.m_set_discard(v, args, kw, node)
        if bconst(r.t) is not True:
            self.py_raise('KeyError', args[0])
        return NONE

    def m_set_update(self, v, args, kw, node):
        for a in args:
            a = self.force(a)
            if a.kind == 'set' and not (
                    isinstance(self.load(a.loc), SetC)):
                r = self.set_op(v, a, 'union')
                self.store(v.loc, self.load(r.loc))
                continue
            self.prelude('_setupdate', [v, a])
        return NONE

    def m_set_copy(self, v, args, kw, node):
        return VSet(self.new_cell(self.load(v.loc)))

    def m_set_clear(self, v, args, kw, node):
        self.store(v.loc, SetC([]))
        return NONE

    def to_set(self, x):
        x = self.force(x)
        if x.kind == 'set':
            return x
        return self.prelude('_set', [x])

    def m_set_union(self, v, args, kw, node):
        r = v
        for a in args:
            r = self.set_op(r, self.to_set(a), 'union')
        return r

    def m_set_difference(self, v, args, kw, node):
        return self.set_op(v, self.to_set(args[0]), 'diff')

    def m_set_intersection(self, v, args, kw, node):
        return self.set_op(v, self.to_set(args[0]), 'inter')

    def m_set_symmetric_difference(self, v, args, kw, node):
        return self.set_op(v, self.to_set(args[0]), 'symdiff')

    # --- date / delta
    def m_date_strftime(self, v, args, kw, node):
        f = self.force(args[0])
        if f.c == '%Y%m%d':
            return self.datestr(v)
        return VStr(uf('strftime:%s' % f.c, [v.t], ty.str_sort()))

    def datestr(self, v):
        s = uf('datestr', [v.t], ty.str_sort())
        ctx = self.ctx
        # trusted: parsing the text of a date gives the date back
        q = 'transitfeed.util.DateStringToDateObject_%d'
        ctx.assume(z3.And(uf(q % 0, [s], z3.IntSort()) == 1,
                          uf(q % 1, [s], z3.IntSort()) == v.t,
                          uf('is_blank', [s], z3.BoolSort()) == False,
                          s != lit_term('')))
        for (d2, s2) in ctx.dates:
            if d2.eq(v.t):
                continue
            ctx.assume(z3.And((d2 < v.t) == (s2 < s), (d2 == v.t) == (s2 == s)))
        if not any(d2.eq(v.t) for d2, _ in ctx.dates):
            ctx.dates.append((v.t, s))
        return VStr(s)

    def m_date_isoformat(self, v, args, kw, node):
        return VStr(uf('isoformat', [v.t], ty.str_sort()))

    def m_date_weekday(self, v, args, kw, node):
        # proleptic ordinal 1 (0001-01-01) is a Monday
        return VInt((v.t + 6) % 7)

    def m_date_isoweekday(self, v, args, kw, node):
        return VInt((v.t + 6) % 7 + 1)

    def m_date_date(self, v, args, kw, node):
        return v

    def m_date_toordinal(self, v, args, kw, node):
        return VInt(v.t)

    def m_date_timetuple(self, v, args, kw, node):
        return v

    # --- regex
    def m_regex_match(self, v, args, kw, node):
        return self.re_match('match', v.pat, v.flags, args[0])

    def m_regex_search(self, v, args, kw, node):
        return self.re_match('search', v.pat, v.flags, args[0])

    def re_match(self, how, pat, flags, s):
        s = self.force(s)
        if s.kind != 'str':
            self.py_raise('TypeError')
        if s.c is not None:
            import re
            m = getattr(re, how)(pat, s.c)
            if m is None:
                return NONE
            gs = [m.group(0)] + list(m.groups())
            return VMatch(pat, s, [NONE if g is None else mkstr(g)
                                   for g in gs])
        if ty.Mode.strings == 'seq':
            from . import rex
            return rex.match(self, how, pat, s)
        import re
        ng = re.compile(pat).groups
        ok = uf('re.%s:%s' % (how, pat), [s.t], z3.BoolSort())
        if not self.ctx.branch(ok):
            return NONE
        gs = []
        for i in range(ng + 1):
            t = uf('re.group%d:%s:%s' % (i, how, pat), [s.t], ty.str_sort())
            gs.append(VStr(t))
            hi = digit_group(pat, i)
            if hi is not None:
                # the group matches ASCII digits only
                n = uf('int_of_str', [t], z3.IntSort())
                self.ctx.assume(z3.And(uf('is_int_str', [t], z3.BoolSort()),
                                       n >= 0, n <= hi))
        return VMatch(pat, s, gs)

    def m_match_group(self, v, args, kw, node):
        if not args:
            return v.groups[0]
        i = iconst(self.force(args[0]).t)
        if len(args) > 1:
            return VTuple([v.groups[iconst(self.force(a).t)] for a in args])
        return v.groups[i]

    def m_match_groups(self, v, args, kw, node):
        return VTuple(v.groups[1:])

    def m_match_start(self, v, args, kw, node):
        return VInt(uf('re.start:' + v.pat, [v.s.t], z3.IntSort()))

    def m_match_end(self, v, args, kw, node):
        return VInt(uf('re.end:' + v.pat, [v.s.t], z3.IntSort()))

    # --- str
    def str_method(self, v, name, args, kw, node):
        args = [self.force(a) for a in args]
        if name in ('encode', 'decode'):
            return v        # str / unicode are identified
        conc = v.c is not None and not kw and all(
            (a.kind == 'str' and a.c is not None) or
            (a.kind == 'int' and iconst(a.t) is not None) or
            (a.kind == 'tuple' and all(x.kind == 'str' and x.c is not None
                                       for x in a.items))
            for a in args)
        if conc and name != 'format' and name != 'join':
            pa = [a.c if a.kind == 'str' else iconst(a.t)
                  if a.kind == 'int' else tuple(x.c for x in a.items)
                  for a in args]
            try:
                r = getattr(v.c, name)(*pa)
            except ValueError:
                self.py_raise('ValueError')
            if isinstance(r, str):
                return mkstr(r)
            if isinstance(r, bool):
                return mkbool(r)
            if isinstance(r, int):
                return mkint(r)
            if isinstance(r, list):
                return self.new_list([mkstr(x) for x in r])
            if isinstance(r, tuple):
                return VTuple([mkstr(x) for x in r])
        if name == 'join':
            s = self.as_seq(args[0])
            n = iconst(s.n)
            if n is not None and n <= UNROLL:
                r = mkstr('')
                for i in range(n):
                    x = self.force(s.get(z3.IntVal(i)))
                    if x.kind != 'str':
                        self.py_raise('TypeError')
                    if i:
                        r = self.concat(r, v)
                    r = self.concat(r, x)
                return r
            l = self.materialize(s)
            T = self.typeof(l)
            if T[0] == 'list' and T[1] != ty.STR:
                c = self.load(l.loc)
                # a witness, one for each content, of an element that is
                # no string
                w = uf('join_bad', self.content_terms(T, c), z3.IntSort())
                if self.ctx.branch(z3.And(w >= 0, w < c.n)):
                    x = s.get(w)
                    bad = z3.Or([g for g, a in x.alts if a.kind != 'str']) \
                        if isinstance(x, VUnion) else \
                        z3.BoolVal(x.kind != 'str')
                    if self.ctx.branch(bad):
                        self.py_raise('TypeError')
            return VStr(uf('str_join', [v.t] + self.content_terms(
                T, self.load(l.loc)), ty.str_sort()))
        for a in args:
            if a.kind == 'none':
                self.py_raise('TypeError')
        seq = ty.Mode.strings == 'seq'
        ts = [v.t]
        sig = name
        for a in args:
            if a.kind == 'tuple':
                for x in a.items:
                    ts.append(self.force(x).t)
                sig += 't'
                continue
            if a.kind in ('list', 'dict', 'set', 'obj', 'seq'):
                ts.append(self.ctx.fresh('msg', ty.str_sort()))
                continue
            ts.extend(self.scalar_terms(a))
        for n, a in sorted(kw.items()):
            sig += n
            ts.extend(self.scalar_terms(self.force(a)))
        if name in STR_TO_BOOL:
            if seq and name == 'startswith' and args[0].kind == 'str':
                return mkbool(z3.PrefixOf(args[0].t, v.t))
            if seq and name == 'endswith' and args[0].kind == 'str':
                return mkbool(z3.SuffixOf(args[0].t, v.t))
            if name in ('startswith', 'endswith') and args[0].kind == 'tuple':
                return mkbool(self.disj([self.str_method(
                    v, name, [x], {}, node).t for x in args[0].items]))
            r = uf('str.' + sig, ts, z3.BoolSort())
            if all(a.kind == 'str' and a.c is not None for a in args) and \
                    not kw and not seq:
                try:
                    self.ctx.assume(z3.Implies(
                        v.t == lit_term(''),
                        r == bool(getattr('', name)(*[a.c for a in args]))))
                except Exception:
                    pass
            return VBool(r)
        if name in STR_TO_STR:
            if name == 'strip' and not args:
                t = uf('str.strip', ts, ty.str_sort())
                e = lit_term('')
                self.ctx.assume(z3.And(
                    z3.Implies(v.t == e, t == e),
                    uf('is_blank', [v.t], z3.BoolSort()) == (t == e)))
                return VStr(t)
            r = uf('str.' + sig, ts, ty.str_sort())
            if all(a.kind == 'str' and a.c is not None for a in args) and \
                    not kw and not seq and name != 'decode':
                try:
                    self.ctx.assume(z3.Implies(
                        v.t == lit_term(''), r == lit_term(
                            getattr('', name)(*[a.c for a in args]))))
                except Exception:
                    pass
            return VStr(r)
        if name in STR_TO_INT:
            if seq and name == 'find' and len(args) == 1:
                return VInt(z3.IndexOf(v.t, args[0].t, z3.IntVal(0)))
            r = uf('str.' + sig, ts, z3.IntSort())
            self.ctx.assume(r >= (0 if name == 'count' else -1))
            if name in ('find',) and len(args) == 1 and not seq:
                self.ctx.assume((r >= 0) == uf('str_contains', ts,
                                               z3.BoolSort()))
            return VInt(r)
        if name in ('index', 'rindex'):
            f = 'find' if name == 'index' else 'rfind'
            r = self.str_method(v, f, args, kw, node)
            if self.ctx.branch(r.t < 0):
                self.py_raise('ValueError')
            return r
        if name in ('split', 'rsplit', 'splitlines'):
            n = uf('str.%s.n' % sig, ts, z3.IntSort())
            arr = uf('str.%s.a' % sig, ts,
                     z3.ArraySort(z3.IntSort(), ty.str_sort()))
            self.ctx.assume(n >= (1 if args else 0))
            return VList(self.new_cell(ListS(ty.STR, n, [arr])))
        self.unsup('str.%s' % name, node)

    # ------------------------------------------------ library attributes
    def lib_getattr(self, v, name):
        full = v.name + '.' + name
        if full == 'math.pi':
            return real_of_float(3.141592653589793)
        if full == 'sys.maxint':
            return VInt(z3.IntVal(2 ** 63 - 1))
        if full == 'os.linesep':
            return mkstr('\n')
        return VLib(full)

    # ------------------------------------------------ library calls
    def call_lib(self, name, args, kw, node=None, fr=None):
        if name in EXC_BASES:
            return VExc(name, args)
        m = getattr(self, 'f_' + name.replace('.', '_'), None)
        if m is None:
            if name in ('object.__init__',):
                return NONE
            if name.startswith('math.'):
                return self.math_fn(name, args, node)
            if name.startswith('speclib.'):
                m = getattr(self, 'f_' + name.split('.')[-1], None)
            if m is None:
                self.unsup('library function %s' % name, node)
        return m(args, kw, node, fr)

    def f_len(self, args, kw, node, fr):
        v = self.force(args[0])
        n = self.length(v)
        return mkint(n) if isinstance(n, int) else VInt(n)

    def f_int(self, args, kw, node, fr):
        if not args:
            return mkint(0)
        v = self.force(args[0])
        if v.kind == 'bool':
            return self.to_int(v)
        if v.kind == 'int':
            return v
        if v.kind == 'real':
            return VInt(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
        if v.kind == 'str':
            base = 10
            if len(args) > 1:
                base = iconst(self.force(args[1]).t)
            if v.c is not None:
                try:
                    return mkint(int(v.c, base))
                except ValueError:
                    self.py_raise('ValueError')
            if ty.Mode.strings == 'seq' and base == 10:
                # exact for digit strings; other accepted forms (sign, blanks)
                # are uninterpreted
                dig = z3.InRe(v.t, z3.Plus(z3.Range('0', '9')))
                if self.ctx.branch(dig):
                    return VInt(z3.StrToInt(v.t))
                ok = uf('is_int_str', [v.t], z3.BoolSort())
                if not self.ctx.branch(ok):
                    self.py_raise('ValueError')
                return VInt(uf('int_of_str', [v.t], z3.IntSort()))
            sfx = '' if base == 10 else '%d' % base
            ok = uf('is_int_str' + sfx, [v.t], z3.BoolSort())
            if not self.ctx.branch(ok):
                self.py_raise('ValueError')
            self.ctx.assume(v.t != lit_term(''))
            return VInt(uf('int_of_str' + sfx, [v.t], z3.IntSort()))
        if v.kind == 'obj' or v.kind == 'opq':
            self.unsup('int() of %s' % v.kind, node)
        self.py_raise('TypeError')

    f_long = f_int

    def f_float(self, args, kw, node, fr):
        if not args:
            return mkreal(0)
        v = self.force(args[0])
        if v.kind in ('int', 'bool', 'real'):
            return self.to_real(v)
        if v.kind == 'str':
            if v.c is not None:
                try:
                    x = float(v.c)
                except ValueError:
                    self.py_raise('ValueError')
                return real_of_float(x)
            ok = uf('is_float_str', [v.t], z3.BoolSort())
            if not self.ctx.branch(ok):
                self.py_raise('ValueError')
            self.ctx.assume(v.t != lit_term(''))
            return VReal(uf('float_of_str', [v.t], z3.RealSort()))
        self.py_raise('TypeError')

    def f_str(self, args, kw, node, fr):
        if not args:
            return mkstr('')
        return self.str_conv(self.force(args[0]))

    f_unicode = f_str

    def f_repr(self, args, kw, node, fr):
        v = self.force(args[0])
        try:
            return VStr(uf('repr_' + v.kind, self.scalar_terms(v),
                           ty.str_sort()))
        except Unsupported:
            return VStr(self.ctx.fresh('msg', ty.str_sort()))

    def f_bool(self, args, kw, node, fr):
        t = self.truth(args[0]) if args else False
        return mkbool(t)

    def f_isinstance(self, args, kw, node, fr):
        v, c = args
        return mkbool(self.isinst(v, self.force(c), node))

    def isinst(self, v, c, node=None):
        if c.kind == 'tuple':
            return self.disj([self.isinst(v, x, node) for x in c.items])
        if isinstance(v, VUnion):
            ts = []
            for g, a in v.alts:
                t = self.isinst(a, c, node)
                if t is False:
                    continue
                ts.append(g if t is True else z3.And(g, t))
            return self.disj(ts)
        k = v.kind
        if c.kind == 'lib':
            n = c.name
            if n in ('basestring', 'str', 'unicode'):
                return k == 'str'
            if n in ('int', 'long', 'numbers.Integral'):
                return k in ('int', 'bool')
            table = {'float': 'real', 'list': 'list', 'tuple': 'tuple',
                     'dict': 'dict', 'set': 'set', 'bool': 'bool',
                     'datetime.date': 'date', 'datetime.datetime': 'date',
                     'datetime.timedelta': 'delta'}
            if n in table:
                return k == table[n]
            if n == 'object':
                return True
        if c.kind == 'class':
            if k == 'obj':
                info = self.class_of(v.cls)
                return any(x.node is c.info.node for x in info.mro())
            if k == 'exc':
                return c.info.name in self.exc_chain(v.cls)
            return False
        self.unsup('isinstance(%r, %r)' % (v, c), node)

    def f_issubclass(self, args, kw, node, fr):
        a, b = self.force(args[0]), self.force(args[1])
        if a.kind == 'class' and b.kind == 'class':
            return mkbool(any(x.node is b.info.node for x in a.info.mro()))
        self.unsup('issubclass', node)

    def f_type(self, args, kw, node, fr):
        v = self.force(args[0])
        if v.kind == 'obj':
            return VClass(self.class_of(v.cls))
        n = {'int': 'int', 'real': 'float', 'bool': 'bool',
             'list': 'list', 'dict': 'dict', 'set': 'set', 'tuple': 'tuple',
             'none': 'NoneType'}.get(v.kind)
        if n is None:
            self.unsup('type() of %s' % v.kind, node)
        return VLib(n)

    def f_callable(self, args, kw, node, fr):
        v = self.force(args[0])
        return mkbool(v.kind in ('func', 'bound', 'class', 'lib', 'bmeth'))

    def f_hasattr(self, args, kw, node, fr):
        name = self.force(args[1])
        if name.c is None:
            self.unsup('hasattr with a symbolic name', node)
        try:
            self.getattr(args[0], name.c, node, fr)
            return mkbool(True)
        except PyRaise as e:
            if 'AttributeError' in self.exc_chain(e.exc.cls):
                return mkbool(False)
            raise

    def f_getattr(self, args, kw, node, fr):
        name = self.force(args[1])
        if name.kind != 'str':
            self.py_raise('TypeError')
        if name.c is None:
            self.unsup('getattr with a symbolic name', node)
        if len(args) == 2:
            return self.getattr(args[0], name.c, node, fr)
        try:
            return self.getattr(args[0], name.c, node, fr)
        except PyRaise as e:
            if 'AttributeError' in self.exc_chain(e.exc.cls):
                return args[2]
            raise

    def f_setattr(self, args, kw, node, fr):
        name = self.force(args[1])
        if name.c is None:
            self.unsup('setattr with a symbolic name', node)
        self.setattr(args[0], name.c, args[2], node)
        return NONE

    def f_delattr(self, args, kw, node, fr):
        self.unsup('delattr', node)

    def f_super(self, args, kw, node, fr):
        c = self.force(args[0])
        return VSuper(c.info, self.force(args[1]))

    def _extremum(self, args, kw, which):
        if len(args) == 1:
            key = kw.get('key')
            if key is not None:
                return self.prelude('_%skey' % which, [args[0], key])
            v = self.force(args[0])
            if v.kind != 'list':
                v = self.materialize(self.as_seq(v))
            return self.prelude('_' + which, [v])
        if kw:
            return self._extremum([VTuple(args)], kw, which)
        m = args[0]
        for x in args[1:]:
            a, b = self.force(m), self.force(x)
            c = self.lt(a, b) if which == 'max' else self.lt(b, a)
            if a.kind == b.kind and a.kind in ('int', 'real', 'date', 'delta',
                                               'str'):
                m = self.ite(c, b, a)
            elif self.ctx.branch(c):
                m = b
            else:
                m = a
        return m

    def f_max(self, args, kw, node, fr):
        return self._extremum(args, kw, 'max')

    def f_min(self, args, kw, node, fr):
        return self._extremum(args, kw, 'min')

    def f_sum(self, args, kw, node, fr):
        return self.prelude('_sum', [args[0], args[1] if len(args) > 1
                                     else mkint(0)])

    def f_any(self, args, kw, node, fr):
        return self.prelude('_any', [args[0]])

    def f_all(self, args, kw, node, fr):
        return self.prelude('_all', [args[0]])

    def f_map(self, args, kw, node, fr):
        if len(args) != 2:
            self.unsup('map with several sequences', node)
        return self.prelude('_map', args)

    def f_filter(self, args, kw, node, fr):
        f = self.force(args[0])
        if f.kind == 'none':
            return self.prelude('_filternone', [args[1]])
        return self.prelude('_filter', args)

    def f_reduce(self, args, kw, node, fr):
        if len(args) != 3:
            self.unsup('reduce without an initial value', node)
        return self.prelude('_reduce', args)

    def f_abs(self, args, kw, node, fr):
        v = self.force(args[0])
        if v.kind == 'bool':
            v = self.to_int(v)
        if v.kind in ('int', 'real', 'delta'):
            return type(v)(z3.If(v.t >= 0, v.t, -v.t))
        self.py_raise('TypeError')

    def f_round(self, args, kw, node, fr):
        v = self.force(args[0])
        if v.kind not in ('int', 'real', 'bool'):
            self.py_raise('TypeError')
        x = self.to_real(v).t
        nd = 0
        if len(args) > 1:
            nd = iconst(self.force(args[1]).t)
            if nd is None:
                self.unsup('round with symbolic digits', node)
        p = z3.RealVal(10 ** nd) if nd >= 0 else 1 / z3.RealVal(10 ** -nd)
        y = x * p
        half = z3.RealVal('1/2')
        r = z3.If(y >= 0, z3.ToReal(z3.ToInt(y + half)),
                  -z3.ToReal(z3.ToInt(half - y)))
        return VReal(r / p)

    def f_range(self, args, kw, node, fr):
        a = [self.to_int(self.force(x)) for x in args]
        for x in a:
            if x.kind != 'int':
                self.py_raise('TypeError')
        lo, step = z3.IntVal(0), 1
        if len(a) == 1:
            hi = a[0].t
        else:
            lo, hi = a[0].t, a[1].t
            if len(a) == 3:
                step = iconst(a[2].t)
                if step is None:
                    self.unsup('range with symbolic step', node)
        if step == 1:
            d = hi - lo
        elif step > 1:
            d = (hi - lo + (step - 1)) / step
        else:
            d = (lo - hi + (-step - 1)) / (-step)
        n = z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))
        return VSeq(n, lambda i: VInt(z3.simplify(lo + i * step)), 'range')

    f_xrange = f_range

    def f_enumerate(self, args, kw, node, fr):
        s = self.as_seq(args[0])
        start = self.force(args[1]).t if len(args) > 1 else z3.IntVal(0)
        return VSeq(s.n, lambda i: VTuple([VInt(z3.simplify(i + start)),
                                           s.get(i)]), 'enumerate')

    def f_zip(self, args, kw, node, fr):
        ss = [self.as_seq(a) for a in args]
        n = ss[0].n
        for s in ss[1:]:
            n = z3.simplify(z3.If(n < s.n, n, s.n))
        return VSeq(n, lambda i: VTuple([s.get(i) for s in ss]), 'zip')

    f_itertools_izip = f_zip

    def f_reversed(self, args, kw, node, fr):
        s = self.as_seq(args[0])
        return VSeq(s.n, lambda i: s.get(z3.simplify(s.n - 1 - i)),
                    'reversed')

    def f_iter(self, args, kw, node, fr):
        return self.as_seq(args[0])

    def f_sorted(self, args, kw, node, fr):
        l = self.materialize(self.as_seq(args[0]))
        c = self.load(l.loc)
        return VList(self.new_cell(self.sort_content(c, args[1:], kw, node)))

    def f_list(self, args, kw, node, fr):
        if not args:
            return self.new_list()
        v = self.force(args[0])
        if v.kind == 'list':
            return VList(self.new_cell(self.load(v.loc)))
        s = self.as_seq(v)
        n = iconst(s.n)
        if n is not None:
            return self.new_list([s.get(z3.IntVal(i)) for i in range(n)])
        return self.materialize(s)

    def f_tuple(self, args, kw, node, fr):
        if not args:
            return VTuple([])
        v = self.force(args[0])
        if v.kind == 'tuple':
            return v
        s = self.as_seq(v)
        n = iconst(s.n)
        if n is None:
            return self.materialize(s)   # a tuple of unknown length
        return VTuple([s.get(z3.IntVal(i)) for i in range(n)])

    def f_dict(self, args, kw, node, fr):
        d = VDict(self.new_cell(DictC([])))
        if args:
            v = self.force(args[0])
            if v.kind == 'dict':
                d = VDict(self.new_cell(self.load(v.loc)))
            else:
                s = self.as_seq(v)
                n = iconst(s.n)
                if n is None:
                    d = self.prelude('_dictpairs', [v])
                else:
                    for i in range(n):
                        p = self.force(s.get(z3.IntVal(i)))
                        self.setitem(d, self.getitem(p, mkint(0)),
                                     self.getitem(p, mkint(1)))
        for n, x in kw.items():
            self.setitem(d, mkstr(n), x)
        return d

    def f_set(self, args, kw, node, fr):
        if not args:
            return VSet(self.new_cell(SetC([])))
        v = self.force(args[0])
        if v.kind == 'set':
            return VSet(self.new_cell(self.load(v.loc)))
        if v.kind == 'dict':
            c = self.load(v.loc)
            if isinstance(c, DictS):
                return VSet(self.new_cell(SetS(c.K, c.present, c.size)))
        if v.kind == 'seq' and v.what == 'keys' and v.bykey is not None:
            c = v.bykey[0]
            return VSet(self.new_cell(SetS(c.K, c.present, c.size)))
        return self.prelude('_set', [v])

    f_frozenset = f_set

    def f_cmp(self, args, kw, node, fr):
        a, b = self.force(args[0]), self.force(args[1])
        if a.kind == 'obj':
            info = self.class_of(a.cls)
            if info.find('__cmp__')[1] is not None:
                return self.call(self.get_method(a, '__cmp__'), [b], {})
        lt = self.lt(a, b)
        gt = self.lt(b, a)
        if isinstance(lt, bool):
            lt = z3.BoolVal(lt)
        if isinstance(gt, bool):
            gt = z3.BoolVal(gt)
        return VInt(z3.If(lt, z3.IntVal(-1), z3.If(gt, z3.IntVal(1),
                                                   z3.IntVal(0))))

    def f_print(self, args, kw, node, fr):
        return NONE

    def f_ord(self, args, kw, node, fr):
        v = self.force(args[0])
        if v.c is not None and len(v.c) == 1:
            return mkint(ord(v.c))
        return VInt(uf('ord', [v.t], z3.IntSort()))

    def f_chr(self, args, kw, node, fr):
        v = self.force(args[0])
        return VStr(uf('chr', [v.t], ty.str_sort()))

    def f_next(self, args, kw, node, fr):
        self.unsup('next()', node)

    # spec helpers
    def f_implies(self, args, kw, node, fr):
        a, b = self.truth(args[0]), self.truth(args[1])
        if isinstance(a, bool):
            return mkbool(b) if a else mkbool(True)
        if isinstance(b, bool):
            b = z3.BoolVal(b)
        return VBool(z3.Implies(a, b))

    # ------------------------------------------------ modules
    def f_re_compile(self, args, kw, node, fr):
        return VRegex(self.force(args[0]).c)

    def f_re_match(self, args, kw, node, fr):
        p = self.force(args[0])
        pat = p.pat if p.kind == 'regex' else p.c
        return self.re_match('match', pat, 0, args[1])

    def f_re_search(self, args, kw, node, fr):
        p = self.force(args[0])
        pat = p.pat if p.kind == 'regex' else p.c
        return self.re_match('search', pat, 0, args[1])

    def f_re_sub(self, args, kw, node, fr):
        p, r, s = [self.force(a) for a in args[:3]]
        pat = p.pat if p.kind == 'regex' else p.c
        return VStr(uf('re.sub:' + pat, [r.t, s.t], ty.str_sort()))

    def m_regex_sub(self, v, args, kw, node):
        return self.f_re_sub([v] + args, kw, node, None)

    def f_re_split(self, args, kw, node, fr):
        p, s = [self.force(a) for a in args[:2]]
        pat = p.pat if p.kind == 'regex' else p.c
        n = uf('re.split.n:' + pat, [s.t], z3.IntSort())
        self.ctx.assume(n >= 1)
        return VList(self.new_cell(ListS(ty.STR, n, [uf(
            're.split.a:' + pat, [s.t],
            z3.ArraySort(z3.IntSort(), ty.str_sort()))])))

    def math_fn(self, name, args, node):
        vs = [self.force(a) for a in args]
        for v in vs:
            if v.kind not in ('int', 'real', 'bool'):
                self.py_raise('TypeError')
        ts = [self.to_real(v).t for v in vs]
        n = name[5:]
        if n == 'fabs':
            return VReal(z3.If(ts[0] >= 0, ts[0], -ts[0]))
        if n == 'floor':
            return VReal(z3.ToReal(z3.ToInt(ts[0])))
        if n == 'ceil':
            return VReal(-z3.ToReal(z3.ToInt(-ts[0])))
        r = uf(name, ts, z3.RealSort())
        if n == 'sqrt':
            if self.ctx.branch(ts[0] < 0):
                self.py_raise('ValueError')
            self.ctx.assume(z3.And(r >= 0, (r == 0) == (ts[0] == 0)))
        elif n in ('acos', 'asin'):
            if self.ctx.branch(z3.Or(ts[0] < -1, ts[0] > 1)):
                self.py_raise('ValueError')
        elif n in ('log', 'log10'):
            if self.ctx.branch(ts[0] <= 0):
                self.py_raise('ValueError')
        elif n not in ('sin', 'cos', 'tan', 'atan2', 'atan', 'radians',
                       'degrees', 'exp', 'hypot', 'pow'):
            self.unsup('math.%s' % n, node)
        return VReal(r)

    def f_datetime_date(self, args, kw, node, fr):
        ts = [self.to_int(self.force(a)).t for a in args]
        if len(ts) != 3:
            self.unsup('datetime.date arguments', node)
        ok = uf('ymd_valid', ts, z3.BoolSort())
        if not self.ctx.branch(ok):
            self.py_raise('ValueError')
        return VDate(uf('ymd_ord', ts, z3.IntSort()))

    def f_datetime_datetime(self, args, kw, node, fr):
        return self.f_datetime_date(args[:3], kw, node, fr)

    def f_datetime_date_today(self, args, kw, node, fr):
        return VDate(z3.Int('env_today'))

    def f_datetime_timedelta(self, args, kw, node, fr):
        d = args[0] if args else kw.get('days')
        if d is None or len(kw) + len(args) != 1:
            self.unsup('timedelta arguments', node)
        d = self.force(d)
        if d.kind != 'int':
            self.unsup('timedelta of %s' % d.kind, node)
        return VDelta(d.t)

    def f_time_strptime(self, args, kw, node, fr):
        s, f = self.force(args[0]), self.force(args[1])
        if s.kind != 'str':
            self.py_raise('TypeError')
        ok = uf('strptime_ok:' + f.c, [s.t], z3.BoolSort())
        if f.c == '%Y%m%d':
            # trusted: both parsers agree on 8 digits (no trailing newline)
            q = 'transitfeed.util.DateStringToDateObject_%d'
            nl = self.truth(self.call_method(s, 'endswith', [mkstr('\n')],
                                             {}, node))
            d = VDate(uf(q % 1, [s.t], z3.IntSort()))
            self.ctx.assume(z3.Implies(
                z3.And(uf(q % 0, [s.t], z3.IntSort()) == 1, z3.Not(nl)),
                z3.And(ok, uf('strptime0:%Y%m%d', [s.t], z3.IntSort()) ==
                       self.getattr(d, 'year').t)))
        if not self.ctx.branch(ok):
            self.py_raise('ValueError')
        return VTuple([VInt(uf('strptime%d:%s' % (i, f.c), [s.t],
                               z3.IntSort())) for i in range(9)])

    def f_time_mktime(self, args, kw, node, fr):
        v = self.force(args[0])
        return VReal(uf('mktime_' + v.kind, self.scalar_terms(v),
                        z3.RealSort()))

    def f_time_localtime(self, args, kw, node, fr):
        if not args:
            return VReal(z3.Real('env_now'))
        return VReal(self.to_real(self.force(args[0])).t)

    def f_time_time(self, args, kw, node, fr):
        return VReal(z3.Real('env_now'))

    def f_time_strftime(self, args, kw, node, fr):
        f, v = self.force(args[0]), self.force(args[1])
        return VStr(uf('tstrftime', [f.t] + self.scalar_terms(v),
                       ty.str_sort()))

    def f_random_randint(self, args, kw, node, fr):
        """Some number of the range, by the position in the random stream."""
        a, b = [self.to_int(self.force(x)) for x in args]
        loc = FieldLoc(z3.IntVal(0), ('$random', 'position'), ty.INT)
        pos = self.get_terms(loc)[0]
        self.set_terms(loc, [pos + 1])
        r = uf('random_randint', [pos, a.t, b.t], z3.IntSort())
        self.ctx.assume(z3.Implies(a.t <= b.t,
                                   z3.And(r >= a.t, r <= b.t)))
        return VInt(r)

    def f_bisect_bisect(self, args, kw, node, fr):
        l, x = self.force(args[0]), self.force(args[1])
        return self.bisect(l, x, True)

    f_bisect_bisect_right = f_bisect_bisect

    def f_bisect_bisect_left(self, args, kw, node, fr):
        return self.bisect(self.force(args[0]), self.force(args[1]), False)

    def bisect(self, l, x, right):
        """Index found by bisection; only meaningful on sorted lists."""
        c = self.sym_list(self.load(l.loc))
        T = self.typeof(l)
        ts = self.content_terms(T, c)
        xt = self.pack(T[1], self.to_real(x) if T[1] == ty.REAL else x)
        r = uf('bisect_%s' % ('r' if right else 'l'), ts + xt, z3.IntSort())
        self.ctx.assume(z3.And(r >= 0, r <= c.n))
        # what bisection guarantees of the slot it returns, sorted or not
        try:
            left, here = self.elem(c, r - 1), self.elem(c, r)
            if right:
                lo, hi = z3.Not(self.lt_all(x, left)), self.lt_all(x, here)
            else:
                lo, hi = self.lt_all(left, x), z3.Not(self.lt_all(here, x))
            self.ctx.assume(z3.Or(r == 0, lo))
            self.ctx.assume(z3.Or(r == c.n, hi))
        except Unsupported:
            pass
        return VInt(r)

    def lt_all(self, a, b):
        """a < b as one formula, also for values of several types."""
        la = a.alts if a.kind == 'union' else [(z3.BoolVal(True), a)]
        lb = b.alts if b.kind == 'union' else [(z3.BoolVal(True), b)]
        ts = []
        for ga, x in la:
            for gb, y in lb:
                t = self.lt(x, y)
                t = z3.BoolVal(t) if isinstance(t, bool) else t
                ts.append(z3.And(ga, gb, t))
        return z3.Or(ts)

    def f_collections_defaultdict(self, args, kw, node, fr):
        return VDefDict(self.new_cell(DictC([])),
                        args[0] if args else NONE)

    def getitem(self, v, key, node=None):
        v = self.force(v)
        if v.kind == 'dict' and isinstance(v.loc, FieldLoc) and \
                v.loc.fkey in DEFAULTDICTS:
            v = VDefDict(v.loc, VLib('list'))
        if isinstance(v, VDefDict) and v.default.kind != 'none':
            if not self.ctx.branch(self.contains(v, key)):
                self.setitem(v, key, self.call(v.default, [], {}))
        return Interp.getitem(self, v, key, node)

    def f_codecs_getencoder(self, args, kw, node, fr):
        self.unsup('codecs', node)

    def f_operator_itemgetter(self, args, kw, node, fr):
        i = self.force(args[0])
        src = 'lambda x: x[%r]' % (i.c if i.kind == 'str' else iconst(i.t))
        n = ast.parse(src, mode='eval').body
        return VFunc(n, fr.mod, None, None, src, [])

    def f_operator_attrgetter(self, args, kw, node, fr):
        src = 'lambda x: x.%s' % self.force(args[0]).c
        n = ast.parse(src, mode='eval').body
        return VFunc(n, fr.mod, None, None, src, [])

    def f_speclib_today(self, args, kw, node, fr):
        return VDate(z3.Int('env_today'))


class Machine(Lib, Interp):
    pass


# ------------------------------------------------ static (module) values
class StaticEval(object):
    """Evaluates module- and class-level constants."""

    def __init__(self, world):
        self.world = world
        world.static = self

    def __call__(self, node, mod, cls=None):
        return self.ev(node, mod, cls)

    def ev(self, n, mod, cls):
        try:
            return self.ev1(n, mod, cls)
        except Unsupported:
            try:
                return self.pyeval(n, mod, cls)
            except Unsupported:
                pass
            raise

    def pyeval(self, n, mod, cls):
        """Evaluates a constant expression over resolved constants."""
        if not isinstance(n, (ast.Call, ast.ListComp, ast.GeneratorExp,
                              ast.SetComp, ast.DictComp, ast.Attribute,
                              ast.Subscript, ast.BinOp)):
            raise Unsupported('static')
        env = {'__builtins__': {}}
        for b in ('set', 'dict', 'list', 'tuple', 'sorted', 'frozenset',
                  'range', 'len', 'zip', 'enumerate', 'min', 'max', 'str',
                  'int', 'True', 'False', 'None'):
            env[b] = getattr(__import__('builtins'), b, None)
        local = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                local.add(x.id)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id not in env and \
                    x.id not in local:
                env[x.id] = topy(self.ev1(x, mod, cls))
        try:
            r = eval(compile(ast.Expression(n), '<static>', 'eval'), env)
        except Exception as e:
            raise Unsupported('static: %s' % e)
        return frompy(r)

    def ev1(self, n, mod, cls):
        if isinstance(n, ast.Constant):
            c = n.value
            if c is None:
                return NONE
            if isinstance(c, bool):
                return mkbool(c)
            if isinstance(c, int):
                return mkint(c)
            if isinstance(c, float):
                return real_of_float(c)
            if isinstance(c, bytes):
                c = c.decode('latin-1')
            return mkstr(c)
        if isinstance(n, ast.Name):
            if n.id == 'default_problem_reporter':
                return VRep('@default')
            if cls is not None and n.id in cls.attrs:
                a = cls.attrs[n.id]
                if isinstance(a, ast.FunctionDef):
                    return VFunc(a, mod, cls, None, cls.qual + '.' + n.id)
                if n.id not in cls.cache:
                    cls.cache[n.id] = self.class_attr(a, n.id, mod, cls)
                return cls.cache[n.id]
            v = self.world.lookup(mod, n.id)
            if v is not None:
                return v
            if n.id == 'None':
                return NONE
            if n.id in ('True', 'False'):
                return mkbool(n.id == 'True')
            return VLib(n.id)
        if isinstance(n, ast.Attribute):
            if n.attr == 'default_problem_reporter':
                return VRep('@default')
            if isinstance(n.value, ast.Name) and n.value.id == 'sys' and \
                    n.attr == 'maxint':
                return mkint(2 ** 63 - 1)
            v = self.ev(n.value, mod, cls)
            if v.kind == 'module':
                r = self.world.lookup(v.mod, n.attr)
                if r is None:
                    raise Unsupported('static %s.%s' % (v.mod.name, n.attr))
                return r
            if v.kind == 'lib':
                return VLib(v.name + '.' + n.attr)
            if v.kind == 'class':
                c, a = v.info.find(n.attr)
                if a is None:
                    raise Unsupported('static attribute %s' % n.attr)
                if isinstance(a, ast.FunctionDef):
                    return VFunc(a, c.mod, c, None, c.qual + '.' + n.attr)
                if n.attr not in c.cache:
                    c.cache[n.attr] = self.class_attr(a, n.attr, c.mod, c)
                return c.cache[n.attr]
        if isinstance(n, ast.Tuple):
            return VTuple([self.ev(e, mod, cls) for e in n.elts])
        if isinstance(n, ast.List):
            return VList(ConstLoc(ListC([self.ev(e, mod, cls)
                                         for e in n.elts])))
        if isinstance(n, ast.Set):
            return VSet(ConstLoc(SetC([self.ev(e, mod, cls)
                                       for e in n.elts])))
        if isinstance(n, ast.Dict):
            return VDict(ConstLoc(DictC([
                (self.ev(k, mod, cls), self.ev(v, mod, cls))
                for k, v in zip(n.keys, n.values)])))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            v = self.ev(n.operand, mod, cls)
            return type(v)(z3.simplify(-v.t))
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left, mod, cls), self.ev(n.right, mod, cls)
            return self.binop(n.op, a, b)
        if isinstance(n, ast.Lambda):
            return VFunc(n, mod, None, None, mod.name + '.<lambda>', None)
        if isinstance(n, ast.Call):
            return self.call(n, mod, cls)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return self.comp(n, mod, cls)
        if isinstance(n, ast.Subscript):
            v = self.ev(n.value, mod, cls)
            s = n.slice
            if isinstance(s, ast.Slice):
                lo = iconst(self.ev(s.lower, mod, cls).t) if s.lower else None
                hi = iconst(self.ev(s.upper, mod, cls).t) if s.upper else None
                if v.kind == 'tuple':
                    return VTuple(v.items[lo:hi])
                if v.kind == 'list':
                    return VList(ConstLoc(ListC(
                        v.loc.content.items[lo:hi])))
            else:
                k = self.ev(s, mod, cls)
                if v.kind == 'tuple':
                    return v.items[iconst(k.t)]
                if v.kind == 'list':
                    return v.loc.content.items[iconst(k.t)]
                if v.kind == 'dict':
                    for a, b in v.loc.content.pairs:
                        if pyval(a) == pyval(k):
                            return b
        raise Unsupported('module level expression %s (line %s)' % (
            type(n).__name__, getattr(n, 'lineno', '?')))

    def class_attr(self, a, name, mod, cls):
        v = self.ev(a.value, mod, cls)
        for t in a.targets:
            if isinstance(t, ast.Tuple):
                for i, e in enumerate(t.elts):
                    if e.id == name:
                        return v.items[i]
        return v

    def items(self, v):
        if v.kind == 'tuple':
            return v.items
        if v.kind in ('list', 'set'):
            return v.loc.content.items
        if v.kind == 'dict':
            return [k for k, _ in v.loc.content.pairs]
        raise Unsupported('static iteration')

    def comp(self, n, mod, cls):
        if len(n.generators) != 1 or not isinstance(
                n.generators[0].target, ast.Name):
            raise Unsupported('static comprehension')
        g = n.generators[0]
        out = []
        for x in self.items(self.ev(g.iter, mod, cls)):
            sub = Subst(g.target.id, x)
            ok = True
            for c in g.ifs:
                raise Unsupported('static comprehension filter')
            if isinstance(n.elt, ast.Name) and n.elt.id == g.target.id:
                out.append(x)
            elif isinstance(n.elt, ast.Subscript) and isinstance(
                    n.elt.value, ast.Name) and n.elt.value.id == g.target.id:
                out.append(x.items[iconst(self.ev(n.elt.slice, mod, cls).t)])
            else:
                raise Unsupported('static comprehension element')
        if isinstance(n, ast.SetComp):
            return VSet(ConstLoc(SetC(out)))
        return VList(ConstLoc(ListC(out)))

    def call(self, n, mod, cls):
        f = self.ev(n.func, mod, cls)
        args = [self.ev(a, mod, cls) for a in n.args]
        if f.kind == 'lib':
            nm = f.name
            if nm in ('set', 'frozenset'):
                its = self.items(args[0]) if args else []
                out = []
                seen = set()
                for x in its:
                    key = pyval(x)
                    if key not in seen:
                        seen.add(key)
                        out.append(x)
                return VSet(ConstLoc(SetC(out)))
            if nm == 'list':
                return VList(ConstLoc(ListC(
                    list(self.items(args[0])) if args else [])))
            if nm == 'tuple':
                return VTuple(list(self.items(args[0])) if args else [])
            if nm == 'dict':
                if not args and not n.keywords:
                    return VDict(ConstLoc(DictC([])))
                if args and args[0].kind in ('list', 'tuple'):
                    return VDict(ConstLoc(DictC(
                        [tuple(p.items) for p in self.items(args[0])])))
                if not args:
                    return VDict(ConstLoc(DictC([
                        (mkstr(k.arg), self.ev(k.value, mod, cls))
                        for k in n.keywords])))
            if nm == 're.compile':
                return VRegex(args[0].c)
            if nm == 'range' or nm == 'xrange':
                r = range(*[iconst(a.t) for a in args])
                return VList(ConstLoc(ListC([mkint(i) for i in r])))
            if nm == 'datetime.timedelta':
                for k in n.keywords:
                    if k.arg == 'days':
                        return VDelta(self.ev(k.value, mod, cls).t)
        raise Unsupported('module level call (line %s)' % n.lineno)

    def binop(self, op, a, b):
        o = type(op).__name__
        if o == 'Add':
            if a.kind == 'tuple' and b.kind == 'tuple':
                return VTuple(a.items + b.items)
            if a.kind == 'list' and b.kind == 'list':
                return VList(ConstLoc(ListC(self.items(a) + self.items(b))))
            if a.kind == 'str' and b.kind == 'str':
                return mkstr(a.c + b.c)
        if a.kind in ('int', 'real') and b.kind in ('int', 'real'):
            x, y = pyval(a), pyval(b)
            from fractions import Fraction
            r = {'Add': lambda: x + y, 'Sub': lambda: x - y,
                 'Mult': lambda: x * y,
                 'Div': lambda: (x // y if a.kind == b.kind == 'int'
                                 else x / y),
                 'Pow': lambda: x ** y}[o]()
            if a.kind == b.kind == 'int':
                return mkint(int(r))
            return VReal(z3.RealVal(str(Fraction(r))))
        raise Unsupported('static operator')


class Subst(object):
    def __init__(self, n, v):
        self.n, self.v = n, v


def topy(v):
    if v.kind == 'tuple':
        return tuple(topy(x) for x in v.items)
    if v.kind in ('list', 'set', 'dict') and isinstance(v.loc, ConstLoc):
        c = v.loc.content
        if v.kind == 'dict':
            return dict((topy(a), topy(b)) for a, b in c.pairs)
        out = [topy(x) for x in c.items]
        return set(out) if v.kind == 'set' else out
    if v.kind == 'real':
        return float(pyval(v))
    return pyval(v)


def frompy(o):
    if o is None:
        return NONE
    if isinstance(o, bool):
        return mkbool(o)
    if isinstance(o, int):
        return mkint(o)
    if isinstance(o, float):
        return real_of_float(o)
    if isinstance(o, str):
        return mkstr(o)
    if isinstance(o, tuple):
        return VTuple([frompy(x) for x in o])
    if isinstance(o, (set, frozenset)):
        return VSet(ConstLoc(SetC([frompy(x) for x in sorted(
            o, key=repr)])))
    if isinstance(o, dict):
        return VDict(ConstLoc(DictC([(frompy(a), frompy(b))
                                     for a, b in o.items()])))
    if hasattr(o, '__iter__'):
        return VList(ConstLoc(ListC([frompy(x) for x in o])))
    raise Unsupported('static value %r' % type(o))


def pyval(v):
    """Python value of a concrete V."""
    if v.kind == 'none':
        return None
    if v.kind == 'int':
        return iconst(v.t)
    if v.kind == 'bool':
        return bconst(v.t)
    if v.kind == 'real':
        t = z3.simplify(v.t)
        return t.as_fraction()
    if v.kind == 'str':
        return v.c
    if v.kind == 'tuple':
        return tuple(pyval(x) for x in v.items)
    raise Unsupported('not a concrete value: %r' % (v,))

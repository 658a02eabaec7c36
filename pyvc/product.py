"""Relational proof: real function  ==  executable contract, from the same
arbitrary pre-state.  Loops are cut by inferred coupling invariants (Houdini
over equalities between the two runs), every retained candidate being proved
initially and preserved."""
import ast
import os
import threading
import time
import traceback
import z3
from . import ty
from .values import *
from .ctx import Ctx, PathDone, Failure
from .interp import (PyRaise, ReturnEx, BreakEx, ContinueEx, mkint, mkbool,
                     iconst, bconst, lit_term, LITS, LoopRec, Frame)
from .lib import Machine

threading.stack_size(512 * 1024 * 1024)


DEBUG = bool(os.environ.get('PYVC_DEBUG'))


class Abort(BaseException):
    pass


class Redo(Exception):
    """The table of a loop changed: re-explore from that loop head."""
    def __init__(self, n, prefix):
        self.n = n
        self.prefix = prefix


class Coro(object):
    def __init__(self, fn, name):
        self.fn = fn
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.event = None
        self.aborting = False
        self.finished = False
        self.th = threading.Thread(target=self._run, name=name)
        self.th.daemon = True
        self.th.start()

    def _run(self):
        self.go.acquire()
        try:
            if self.aborting:
                raise Abort()
            r = self.fn()
            self.event = ('done', r)
        except Abort:
            self.event = ('aborted', None)
        except PathDone:
            self.event = ('pathdone', None)
        except BaseException as e:
            e.tb = traceback.format_exc()
            self.event = ('error', e)
        self.finished = True
        self.back.release()

    def resume(self):
        self.go.release()
        self.back.acquire()
        return self.event

    def emit(self, kind, rec):
        self.event = (kind, rec)
        self.back.release()
        self.go.acquire()
        if self.aborting:
            raise Abort()

    def kill(self):
        if not self.finished:
            self.aborting = True
            self.go.release()
            self.back.acquire()
        self.th.join()


class Tab(object):
    """What is known about one loop (pair) at one point of one path."""
    def __init__(self):
        self.mods = {}          # (side, loc) -> type
        self.dropped = set()
        self.entry = {}         # cand -> bool
        self.version = 0


class Active(object):
    def __init__(self, recs, tab, depth, prefix, tabkey):
        self.recs = recs        # {side: rec}
        self.tab = tab
        self.snap = {}
        self.cands = []
        self.depth = depth
        self.prefix = prefix
        self.tabkey = tabkey


POISON = ('poison',)


class VPoison(V):
    kind = 'poison'
    __slots__ = ()


class Product(object):
    def __init__(self, world, specworld, decls, contracts, con, seed=1,
                 budget=120):
        self.world = world
        self.specworld = specworld
        self.decls = decls
        self.contracts = contracts
        self.con = con
        self.ctx = Ctx(seed)
        self.ctx.deadline = time.time() + budget
        self.tabs = {}
        self.hints = {}
        self.done_paths = 0
        self.feasible_done = 0
        self.inputs_of_failure = None
        self.used = set()
        self.inlined = set()
        self.loops = set()
        self.restarts = 0
        self.max_restarts = 4000
        self.dones = []

    # ------------------------------------------------------------ driver
    def run(self):
        ctx = self.ctx
        ctx.trace = []
        try:
            while True:
                ctx.begin()
                try:
                    self.one_path()
                except Redo as r:
                    self.restarts += 1
                    if self.restarts > self.max_restarts:
                        raise Unsupported('loop invariant inference diverges')
                    ctx.trace = ctx.trace[:r.n]
                    self.drop_under(r.prefix)
                    ctx.end()
                    continue
                except Unsupported as e:
                    # an infeasible path cannot need the construct
                    if ctx.feasible() != z3.unsat:
                        ctx.failures.append(Failure(
                            'supported', 'unsupported', None, str(e),
                            ctx.prefix()))
                        ctx.end()
                        break
                ctx.end()
                if len([f for f in ctx.failures]) >= 4:
                    break
                if not ctx.next_trace():
                    break
        except Unsupported as e:
            ctx.failures.append(Failure('budget', 'unsupported', None, str(e),
                                        ()))
        except z3.Z3Exception as e:
            ctx.failures.append(Failure('solver', 'unsupported', None,
                                        traceback.format_exc()[-600:], ()))
        return ctx.failures

    def drop_under(self, prefix):
        n = len(prefix)
        ctx = self.ctx
        ctx.failures = [f for f in ctx.failures if f.path[:n] != prefix]
        ctx.obls = [o for o in ctx.obls if o[0][:n] != prefix]
        self.dones = [d for d in self.dones if d[0][:n] != prefix]

    # ------------------------------------------------------------ one path
    def setup(self):
        ctx = self.ctx
        ctx.top0 = z3.Int('top0')
        ctx.assume(ctx.top0 >= 0)
        st = State()
        st.top = ctx.top0
        m = Machine(ctx, self.world, self.decls, self.contracts, st, 'T')
        params = []
        for name, T in self.con.args:
            if T[0] == 'new':
                continue
            terms = [z3.Const('in_%s_%d' % (name, i), s)
                     for i, s in enumerate(ty.sorts(T))]
            params.append((name, m.value_from(T, terms)))
        news = []
        for name, T in self.con.args:
            if T[0] == 'new':
                news.append((name, m.allocate(T[1])))
        vals = dict(params + news)
        params = [(name, vals[name]) for name, _ in self.con.args]
        self.params = params
        self.st0 = st
        return m, st, params

    def one_path(self):
        ctx = self.ctx
        m, st, params = self.setup()
        self.ordinal = 0
        self.active = []
        self.sides = {}
        self.coros = {}
        con = self.con
        for side in 'TS':
            mm = Machine(ctx, self.world, self.decls, self.contracts,
                         st.copy(), side)
            mm.top_qual = con.qual
            mm.spec_mode = side == 'S'
            mm.prover = self
            mm.product = con.target is not None
            self.sides[side] = mm
        # preconditions (evaluated on a scratch copy; assumed)
        if con.requires:
            q = Machine(ctx, self.world, self.decls, self.contracts,
                        st.copy(), 'S')
            q.spec_mode = True
            q.sync = self.no_loop
            q.quantify = True
            self.assume_requires(q, con, params)
            if ctx.check([], 5000) == z3.unsat:
                self.dones.append((ctx.prefix(), False))
                return
        T = self.sides['T']
        S = self.sides['S']
        T.used = S.used = self.used
        if con.mode in ('uf', 'event'):
            for mm in (T, S):
                mm.frame_reads = {}
                mm.frame_writes = {}
        T.inlined = self.inlined
        S.inlined = set()

        def mk(mm, fn, vals, extra):
            def run():
                try:
                    a = [v for _, v in vals]
                    return ('return', mm.run_func(fn, a, {}))
                except PyRaise as e:
                    return ('raise', e.exc)
            return run
        jobs = [('S', con.spec_func)]
        if con.target is not None:
            jobs.insert(0, ('T', con.target))
        self.params_by_side = {'T': params, 'S': params}
        for side, fn in jobs:
            mm = self.sides[side]
            c = Coro(mk(mm, fn, params, None), side)
            self.coros[side] = c
            mm.sync = c.emit
        try:
            self.schedule([s for s, _ in jobs])
        finally:
            for c in self.coros.values():
                c.kill()

    def no_loop(self, kind, rec):
        raise Unsupported('loop over unknown-length data in a precondition')

    def assume_requires(self, q, con, params):
        fr = Frame(con.spec_func.mod, None, 'spec.requires', None, 0)
        fr.env = dict(params)
        for r in con.requires:
            try:
                v = q.ev(r, fr)
            except PyRaise as e:
                raise PathDone()
            self.ctx.assume(q.truth(v))

    # ------------------------------------------------------------ schedule
    def resume(self, side):
        ev = self.coros[side].resume()
        if ev[0] == 'error':
            e = ev[1]
            if isinstance(e, (Unsupported, z3.Z3Exception)):
                if isinstance(e, z3.Z3Exception):
                    raise Unsupported('solver interface: %s\n%s' % (e, e.tb[-600:]))
                raise e
            if isinstance(e, RecursionError):
                raise Unsupported('recursion limit')
            raise RuntimeError('engine error\n' + e.tb[-600:])
        return ev

    def schedule(self, names):
        evs = {}
        for s in names:
            evs[s] = self.resume(s)
        while True:
            for s in names:
                while evs[s][0] == 'loop' and evs[s][1].seq is not None \
                        and self.ctx.entails(evs[s][1].seq.n <= 0):
                    evs[s][1].skip = True
                    evs[s] = self.resume(s)
            kinds = dict((s, evs[s][0]) for s in names)
            if 'pathdone' in kinds.values():
                return
            if all(k == 'done' for k in kinds.values()):
                self.finish(evs)
                return
            if len(names) == 1:
                s = names[0]
                if kinds[s] == 'loop':
                    self.enter({s: evs[s][1]})
                    evs[s] = self.resume(s)
                    continue
                self.close({s: evs[s][1]})
                return
            kt, ks = kinds['T'], kinds['S']
            rt, rs = evs['T'][1], evs['S'][1]
            if kt == 'loop' and ks == 'loop':
                if self.pairable(rt, rs):
                    self.enter({'T': rt, 'S': rs})
                    evs['T'] = self.resume('T')
                    evs['S'] = self.resume('S')
                    continue
                self.enter({'T': rt})
                evs['T'] = self.resume('T')
                continue
            if kt == 'next' and ks == 'next':
                if rt.partner is rs:
                    self.close({'T': rt, 'S': rs})
                    return
                if rt.partner is None:
                    self.close({'T': rt})
                    return
                if rs.partner is None:
                    self.close({'S': rs})
                    return
                self.mismatch(rt, rs, kt, ks)
                return
            # one side may have a solo loop to run through
            if kt == 'next' and rt.partner is None:
                self.close({'T': rt})
                return
            if ks == 'next' and rs.partner is None:
                self.close({'S': rs})
                return
            if kt == 'loop':
                self.enter({'T': rt})
                evs['T'] = self.resume('T')
                continue
            if ks == 'loop':
                self.enter({'S': rs})
                evs['S'] = self.resume('S')
                continue
            self.mismatch(rt, rs, kt, ks)
            return

    def mismatch(self, rt, rs, kt, ks):
        def d(k, r):
            if k == 'done':
                return 'has finished (%s)' % self.outcome_str(r)
            return 'is at the end of an iteration of %s' % r.where()
        self.fail('sync', 'the code %s while the contract %s' % (
            d(kt, rt), d(ks, rs)))

    def outcome_str(self, o):
        if o[0] == 'return':
            return 'returned %r' % (o[1],)
        return 'raised %s' % o[1].cls

    def prove(self, t, name, detail=''):
        ok = self.ctx.prove(t, name, detail)
        self.note_failure()
        self.ctx.obls.append((self.ctx.prefix(), name, ok))
        return ok

    def fail(self, name, detail=''):
        ok = self.ctx.fail(name, detail)
        self.note_failure()
        self.ctx.obls.append((self.ctx.prefix(), name, ok))
        return ok

    def note_failure(self):
        fs = self.ctx.failures
        if fs and fs[-1].model is not None and not hasattr(fs[-1], 'inputs'):
            try:
                fs[-1].inputs = self.dump_inputs(fs[-1].model)
            except Exception as e:
                fs[-1].inputs = None
                fs[-1].dump_error = traceback.format_exc()

    # ------------------------------------------------------------ loops
    def pairable(self, rt, rs):
        if (rt.seq is None) != (rs.seq is None):
            return True
        if rt.seq is None:
            return True
        return self.ctx.entails(rt.seq.n == rs.seq.n)

    def loc_list(self, side, rec, act):
        """Locations changed since the snapshot."""
        m = self.sides[side]
        st = m.st
        snap = act.snap[side]
        out = {}
        env0, st0 = snap
        env = rec.fr.env
        for n in set(env) | set(env0):
            a, b = env0.get(n), env.get(n)
            if a is None:
                a = UNBOUND
            if b is None:
                b = UNBOUND
            if not self.same(a, b):
                out[('env', n)] = self.vtype(m, b)
        for cid, c in st0.cells.items():
            d = st.cells.get(cid)
            if d is c:
                continue
            if not self.same_content(c, d):
                if isinstance(c, Redirect) or isinstance(d, Redirect):
                    raise Unsupported('container changes owner in a loop')
                out[('cell', cid)] = m.content_type(d)
        for fkey, (T, arrs) in st.heap.items():
            old = st0.heap.get(fkey)
            if old is None:
                old = (T, [z3.Const('H_%s.%s_%d' % (fkey[0], fkey[1], i),
                                    z3.ArraySort(z3.IntSort(), s))
                           for i, s in enumerate(ty.sorts(T))])
            if not all(x.eq(y) for x, y in zip(old[1], arrs)):
                out[('heap', fkey)] = T
        if not st0.top.eq(st.top):
            out[('top',)] = ty.INT
        if len(st0.log) != len(st.log) or any(
                a is not b for a, b in zip(st0.log, st.log)):
            out[('log',)] = ty.NONE
        return out

    def vtype(self, m, v):
        if v.kind in ('list', 'dict', 'set'):
            if not isinstance(v.loc, CellLoc) or isinstance(
                    m.st.cells.get(v.loc.id), Redirect):
                return POISON
        try:
            return m.typeof(v)
        except Unsupported:
            return POISON

    def same(self, a, b):
        if a is b:
            return True
        if a.kind != b.kind:
            return False
        k = a.kind
        if k == 'rep':
            return a.who == b.who
        if k in ('none', 'absent', 'unbound', 'factory', 'poison'):
            return True
        if k in ('int', 'real', 'bool', 'str', 'date', 'delta', 'opq'):
            return a.t.eq(b.t)
        if k == 'obj':
            return a.cls == b.cls and a.ref.eq(b.ref)
        if k == 'tuple':
            return len(a.items) == len(b.items) and all(
                self.same(x, y) for x, y in zip(a.items, b.items))
        if k in ('list', 'dict', 'set'):
            if a.loc is b.loc:
                return True
            return isinstance(a.loc, CellLoc) and isinstance(
                b.loc, CellLoc) and a.loc.id == b.loc.id
        if k == 'union':
            return len(a.alts) == len(b.alts) and all(
                g.eq(h) and self.same(x, y)
                for (g, x), (h, y) in zip(a.alts, b.alts))
        if k == 'func':
            return a.node is b.node
        return False

    def same_content(self, c, d):
        if type(c) is not type(d):
            return False
        if isinstance(c, (ListC, SetC)):
            return len(c.items) == len(d.items) and all(
                self.same(x, y) for x, y in zip(c.items, d.items))
        if isinstance(c, DictC):
            return len(c.pairs) == len(d.pairs) and all(
                self.same(x[0], y[0]) and self.same(x[1], y[1])
                for x, y in zip(c.pairs, d.pairs))
        if isinstance(c, ListS):
            return c.T == d.T and c.n.eq(d.n) and all(
                x.eq(y) for x, y in zip(c.arrs, d.arrs))
        if isinstance(c, DictS):
            return c.T == d.T and c.K == d.K and c.present.eq(
                d.present) and c.size.eq(d.size) and all(
                x.eq(y) for x, y in zip(c.arrs, d.arrs))
        if isinstance(c, SetS):
            return c.K == d.K and c.present.eq(d.present) and c.size.eq(d.size)
        if isinstance(c, Redirect):
            return c.loc is d.loc
        return False

    def get_value(self, side, rec, loc):
        m = self.sides[side]
        if loc[0] == 'env':
            return rec.fr.env.get(loc[1], UNBOUND)
        if loc[0] == 'cell':
            c = m.st.cells[loc[1]]
            k = m.content_type(c)[0]
            return {'list': VList, 'dict': VDict, 'set': VSet}[k](
                CellLoc(loc[1]))
        if loc[0] == 'top':
            return VInt(m.st.top)
        return None

    def hint_key(self, recs):
        return tuple(sorted((s, id(r.node)) for s, r in recs.items()))

    def mod_key(self, recs):
        return self.hint_key(recs)

    def enter(self, recs):
        ctx = self.ctx
        self.ordinal += 1
        prefix = ctx.prefix()
        key = (prefix, self.ordinal)
        for s, r in recs.items():
            self.loops.add((s, r.where()))
        if len(recs) == 2:
            recs['T'].partner = recs['S']
            recs['S'].partner = recs['T']
        tab = self.tabs.get(key)
        if tab is None:
            tab = Tab()
            self.tabs[key] = tab
            for s, r in recs.items():
                tab.mods[(s, ('env', r.kname))] = ty.INT
                # syntactically assigned names, refined by execution
                h = self.hints.get((s, id(r.node)))
                if h:
                    env = r.fr.env
                    for loc, T in h.items():
                        if loc[0] == 'cell':
                            continue
                        tab.mods[(s, loc)] = T
        act = Active(recs, tab, len(self.active), prefix, key)
        act.entryvals = {}
        # ---- types at the head
        types = {}
        for (s, loc), T in sorted(tab.mods.items(), key=repr):
            m = self.sides[s]
            r = recs[s]
            if loc[0] in ('heap', 'log'):
                types[(s, loc)] = T
                continue
            v = self.get_value(s, r, loc)
            E = self.vtype(m, v) if loc[0] == 'env' else m.typeof(v)
            act.entryvals[(s, loc)] = v
            if T == POISON or E == POISON:
                types[(s, loc)] = POISON
            else:
                types[(s, loc)] = ty.join(T, E)
        for s, r in recs.items():
            types[(s, ('env', r.kname))] = ty.INT
        # a field written by one side only may still be the same on both
        act.extra = set()
        if len(recs) == 2:
            for s, o in (('T', 'S'), ('S', 'T')):
                for (x, loc), T in list(types.items()):
                    if x == s and loc[0] == 'heap' and (o, loc) not in types:
                        types[(o, loc)] = T
                        act.extra.add((o, loc))
        act.types = types
        # ---- candidates
        cands = self.candidates(recs, tab, types, act)
        keep = []
        for c in cands:
            if c in tab.dropped:
                continue
            t = self.cand_entry(c, recs, act)
            if c not in tab.entry:
                tab.entry[c] = self.ctx.entails(t) if t is not None else False
            if tab.entry[c]:
                keep.append(c)
            else:
                tab.dropped.add(c)
        # solo facts must be expressible before havoc
        act.cands = keep
        act.k0 = {}
        self.havoc(recs, types, keep, act)
        for c in keep:
            if c[0] == 'solo':
                t = self.solo_term(c, recs, act)
                if t is not None:
                    ctx.assume(t)
        for s, r in recs.items():
            k = r.fr.env[r.kname].t
            ctx.assume(k >= 0)
        for s, r in recs.items():
            act.snap[s] = (dict(r.fr.env), self.sides[s].st.copy())
        self.active.append(act)
        act.ncount = len(ctx.trace[:ctx.pos])

    def candidates(self, recs, tab, types, act):
        out = []
        if len(recs) == 2:
            ts = [(l, T) for (s, l), T in types.items() if s == 'T']
            ss = [(l, T) for (s, l), T in types.items() if s == 'S']
            ts.sort(key=repr)
            ss.sort(key=repr)
            for lt, Tt in ts:
                for ls, Ts in ss:
                    if POISON in (Tt, Ts):
                        continue
                    if Tt != Ts and '$k' in repr((lt, ls)):
                        continue
                    if lt[0] == 'heap' or ls[0] == 'heap':
                        if lt == ls:
                            out.append(('eq', lt, ls))
                        continue
                    if lt[0] in ('log', 'top') or ls[0] in ('log', 'top'):
                        if lt == ls:
                            out.append(('eq', lt, ls))
                        continue
                    if self.compatible(Tt, Ts):
                        out.append(('eq', lt, ls))
        for (s, l), T in sorted(types.items(), key=repr):
            if T == POISON or l[0] in ('heap', 'log'):
                continue
            if l == ('env', recs[s].kname):
                continue
            if T == ty.INT:
                if l[0] != 'top':
                    out.append(('solo', 'cnt', s, l))
                    if l[0] == 'env':
                        out.append(('solo', 'behind', s, l))
                out.append(('solo', 'ge', s, l))
                out.append(('solo', 'le', s, l))
            if T == ty.REAL:
                out.append(('solo', 'ge', s, l))
                out.append(('solo', 'le', s, l))
            if T[0] == 'list':
                out.append(('solo', 'len', s, l))
                out.append(('solo', 'lenle', s, l))
                out.append(('solo', 'lenge', s, l))
            if l[0] == 'env':
                if T[0] == 'union':
                    out.append(('solo', 'first', s, l))
                    for a in T[1:]:
                        if a[0] in ('none', 'unbound', 'absent'):
                            out.append(('solo', 'later', s, l, a[0]))
                if T == ty.BOOL:
                    out.append(('solo', 'isfirst', s, l))
                r = recs[s]
                if r.seq is not None:
                    out.append(('solo', 'prev', s, l))
        if 'S' in recs:
            for i, src in enumerate(self.con.invariants_src):
                out.append(('solo', 'hint', 'S', ('hint', i)))
        return out

    def hint_term(self, i, recs):
        """A declared invariant of the contract's loops, as a formula."""
        m = self.sides['S']
        fr = recs['S'].fr

        def run():
            q = m.logic(self.con)
            try:
                t = q.truth(q.ev(self.con.invariants[i], fr))
            except (PyRaise, Unsupported):
                t = False
            return z3.BoolVal(t) if isinstance(t, bool) else t
        cs = self.ctx.cases(run, ('hint', i))
        return z3.simplify(z3.And([z3.Implies(c, t) for c, t in cs]))

    def compatible(self, A, B):
        if A == B:
            return True
        a = set(t[0] for t in ty.alts(A)) - {'unbound', 'never'}
        b = set(t[0] for t in ty.alts(B)) - {'unbound', 'never'}
        if not a or not b:
            return False
        num = {'int', 'real', 'bool'}
        if len(a & num) > 0 and len(b & num) > 0 and (a & num) != (b & num):
            return False
        if 'unbound' in [t[0] for t in ty.alts(A)] and A[0] != B[0]:
            return False
        return bool(a & b)

    # --- candidate terms
    def pair_term(self, c, recs, act):
        T, S = self.sides['T'], self.sides['S']
        lt, ls = c[1], c[2]
        if lt[0] == 'heap':
            at = T.field_arrays(lt[1], act.types[('T', lt)])
            as_ = S.field_arrays(lt[1], act.types[('S', lt)])
            eqs = [x == y for x, y in zip(at, as_) if not x.eq(y)]
            if not eqs:
                return z3.BoolVal(True)
            return self.heap_eq(lt[1])
        if lt[0] == 'log':
            return None
        a = self.get_value('T', recs['T'], lt)
        b = self.get_value('S', recs['S'], ls)
        try:
            t = T.eq(a, b, goal=True, other=S)
        except Unsupported:
            return z3.BoolVal(False)
        return z3.BoolVal(t) if isinstance(t, bool) else t

    def heap_eq(self, fkey, other=None, top=None):
        """All objects agree on a field in the two runs."""
        T, S = self.sides['T'], other or self.sides['S']
        ht, hs = T.st.heap.get(fkey), S.st.heap.get(fkey)
        FT = (ht or hs)[0]
        at = T.field_arrays(fkey, FT)
        as_ = S.field_arrays(fkey, FT)
        if all(x.eq(y) for x, y in zip(at, as_)):
            return z3.BoolVal(True)
        r = self.ctx.fresh('ref', z3.IntSort())
        lt, ls = FieldLoc(r, fkey, FT), FieldLoc(r, fkey, FT)
        vt = T.unpack(FT, T.get_terms(lt), lt)
        vs = S.unpack(FT, S.get_terms(ls), ls)
        e = T.eq(vt, vs, goal=True, other=S)
        if isinstance(e, bool):
            e = z3.BoolVal(e)
        if top is None:
            top = T.st.top
        return z3.Implies(z3.And(r >= 0, r < top), e)

    def cand_entry(self, c, recs, act):
        if c[0] == 'eq':
            if c[1][0] == 'log':
                return z3.BoolVal(self.logs_same())
            return self.pair_term(c, recs, act)
        s, l = c[2], c[3]
        if c[1] == 'hint':
            return self.hint_term(l[1], recs)
        if c[1] in ('cnt', 'ge', 'le', 'first', 'len', 'lenle', 'lenge',
                    'later', 'prev', 'behind'):
            v = act.entryvals[(s, l)]
            if c[1] in ('cnt', 'ge', 'le', 'behind') and v.kind not in ('int', 'real'):
                return z3.BoolVal(False)
            return z3.BoolVal(True)
        if c[1] == 'isfirst':
            v = act.entryvals[(s, l)]
            return z3.BoolVal(v.kind == 'bool' and bconst(v.t) is not None)
        return z3.BoolVal(False)

    def logs_same(self):
        """Are the logs provably equal (as sequences of segments)?"""
        lt, ls = self.sides['T'].st.log, self.sides['S'].st.log
        return self.logs_eq(lt, ls)

    def split_log(self, log):
        segs = [[]]
        ids = []
        for e in log:
            if isinstance(e, LogSym):
                ids.append(e.id)
                segs.append([])
            else:
                segs[-1].append(e)
        return ids, segs

    def event_eq(self, a, b):
        if a.name != b.name or [n for n, _ in a.args] != [
                n for n, _ in b.args]:
            return False
        T, S = self.sides['T'], self.sides['S']
        ts = []
        for (n, x), (_, y) in zip(a.args, b.args):
            if isinstance(x, VArrays):
                ts.extend(p == q for p, q in zip(x.arrs, y.arrs)
                          if not p.eq(q))
                continue
            try:
                ts.append(T.eq(x, y, goal=True, other=S))
            except Unsupported:
                return False
        return T.conj(ts)

    def logs_eq(self, lt, ls):
        it, st = self.split_log(lt)
        i2, s2 = self.split_log(ls)
        if it != i2:
            return False
        for a, b in zip(st, s2):
            if len(a) != len(b):
                return False
            rest = list(b)
            for x in a:
                for y in rest:
                    e = self.event_eq(x, y)
                    if e is True or (e is not False and self.ctx.entails(e)):
                        rest.remove(y)
                        break
                else:
                    return False
        return True

    def solo_term(self, c, recs, act):
        """The candidate on the current state (relative to entry)."""
        kind, s, l = c[1], c[2], c[3]
        if kind == 'hint':
            return self.hint_term(l[1], recs)
        r = recs[s]
        m = self.sides[s]
        k = r.fr.env[r.kname].t
        e = act.entryvals[(s, l)]
        v = self.get_value(s, r, l)
        if kind == 'cnt':
            if v.kind != 'int':
                return z3.BoolVal(False)
            return v.t == e.t + k
        if kind == 'behind':
            if v.kind != 'int':
                return z3.BoolVal(False)
            return v.t <= e.t + z3.If(k > 0, k - 1, z3.IntVal(0))
        if kind in ('ge', 'le'):
            if v.kind not in ('int', 'real'):
                return z3.BoolVal(False)
            a = m.to_real(v).t if 'real' in (v.kind, e.kind) else v.t
            b = m.to_real(e).t if 'real' in (v.kind, e.kind) else e.t
            return a >= b if kind == 'ge' else a <= b
        if kind in ('len', 'lenle', 'lenge'):
            if v.kind != 'list' or e.kind != 'list':
                return z3.BoolVal(False)
            n = m.length(v)
            n0 = act.entrylen.get((s, l)) if hasattr(act, 'entrylen') else None
            if n0 is None:
                return z3.BoolVal(False)
            n = z3.IntVal(n) if isinstance(n, int) else n
            if kind == 'len':
                return n == n0 + k
            if kind == 'lenle':
                return n <= n0 + k
            return n >= n0
        if kind == 'first':
            m.identity = True
            try:
                t = m.eq(v, e)
            except Unsupported:
                return z3.BoolVal(False)
            finally:
                m.identity = False
            if isinstance(t, bool):
                t = z3.BoolVal(t)
            return z3.Implies(k == 0, t)
        if kind == 'later':
            if v.kind == 'union':
                gs = [g for g, a in v.alts if a.kind == c[4]]
                t = z3.Not(z3.Or(gs)) if gs else z3.BoolVal(True)
            else:
                t = z3.BoolVal(v.kind != c[4])
            return z3.Implies(k > 0, t)
        if kind == 'isfirst':
            if v.kind != 'bool':
                return z3.BoolVal(False)
            b = bconst(e.t)
            if b is None:
                return z3.BoolVal(False)
            return v.t == ((k == 0) if b else (k > 0))
        if kind == 'prev':
            try:
                p = r.seq.get(z3.simplify(k - 1))
                m.identity = True
                t = m.eq(v, p)
            except (Unsupported, PyRaise):
                return z3.BoolVal(False)
            finally:
                m.identity = False
            if isinstance(t, bool):
                t = z3.BoolVal(t)
            return z3.Implies(k > 0, t)
        return z3.BoolVal(False)

    # --- havoc
    def havoc(self, recs, types, keep, act):
        ctx = self.ctx
        act.entrylen = {}
        for (s, l), v in act.entryvals.items():
            if v.kind == 'list':
                n = self.sides[s].length(v)
                act.entrylen[(s, l)] = z3.IntVal(n) if isinstance(n, int) \
                    else n
        parent = {}

        def find(x):
            while parent.get(x, x) != x:
                x = parent[x]
            return x
        for c in keep:
            if c[0] == 'eq':
                a, b = find(('T', c[1])), find(('S', c[2]))
                if a != b:
                    parent[a] = b
        groups = {}
        for sl in sorted(types, key=repr):
            groups.setdefault(find(sl), []).append(sl)
        for g in sorted(groups, key=repr):
            mem = groups[g]
            if mem[0][1][0] == 'log':
                for grp in ([mem] if len(mem) == 2 else [[x] for x in mem]):
                    sym = LogSym(ctx.counter)
                    ctx.counter += 1
                    for s, l in grp:
                        self.sides[s].st.log = [sym]
                continue
            if mem[0][1][0] == 'heap':
                if len(mem) == 1 and mem[0] in act.extra:
                    continue
                fkey = mem[0][1][1]
                T = types[mem[0]]
                arrs = [ctx.fresh('H_%s.%s_%d' % (fkey[0], fkey[1], i),
                                  z3.ArraySort(z3.IntSort(), x))
                        for i, x in enumerate(ty.sorts(T))]
                for s, l in mem:
                    self.sides[s].st.heap[fkey] = (T, list(arrs))
                continue
            if types[mem[0]] == POISON:
                for s, l in mem:
                    recs[s].fr.env[l[1]] = VPoison()
                continue
            J = types[mem[0]]
            for x in mem[1:]:
                J = ty.join(J, types[x])
            if mem[0][1][0] == 'top':
                t = ctx.fresh('top', z3.IntSort())
                for s, l in mem:
                    ctx.assume(t >= self.sides[s].st.top)
                    self.sides[s].st.top = t
                continue
            terms = [ctx.fresh('lv_%s_%d' % (mem[0][1][1], i), x)
                     for i, x in enumerate(ty.sorts(J))]
            for s, l in mem:
                m = self.sides[s]
                m.canon_facts(J, terms)
                if l[0] == 'env':
                    old = recs[s].fr.env.get(l[1])
                    nv = m.unpack(J, terms, None)
                    from .lib import VDefDict
                    if isinstance(old, VDefDict) and nv.kind == 'dict':
                        nv = VDefDict(nv.loc, old.default)
                    recs[s].fr.env[l[1]] = nv
                else:
                    m.st.cells[l[1]] = m.wrap_content(J, terms)
                    if J[0] == 'list':
                        ctx.assume(terms[0] >= 0)
                    else:
                        ctx.assume(terms[1] >= 0)

    doubts = 0

    def holds(self, t):
        """Does a candidate invariant hold?  (No answer counts as no; the
        patience shrinks with the number of candidates left undecided.)"""
        limit = 8000 if self.doubts < 4 else 3000 if self.doubts < 12 else 1000
        if self.ctx.entails(t, limit):
            return True
        if self.ctx.last == z3.unknown:
            self.doubts += 1
        return False

    # --- end of an iteration
    def close(self, recs):
        act = None
        for a in reversed(self.active):
            if a.recs == recs:
                act = a
                break
        if act is None:
            raise Unsupported('unmatched loop end')
        changed = False
        tab = act.tab
        for s, r in recs.items():
            d = self.loc_list(s, r, act)
            h = self.hints.setdefault((s, id(r.node)), {})
            for loc, T in d.items():
                old = tab.mods.get((s, loc))
                if old is None:
                    tab.mods[(s, loc)] = T
                    changed = True
                elif old != T:
                    if POISON in (old, T):
                        J = POISON
                    else:
                        J = ty.join(old, act.types.get((s, loc), old)) \
                            if act.types.get((s, loc)) != POISON else old
                        J = ty.join(J, T)
                    if J != old and J != act.types.get((s, loc)):
                        tab.mods[(s, loc)] = J
                        changed = True
                if loc[0] != 'cell':
                    h[loc] = tab.mods[(s, loc)]
        if changed:
            # new modified locations may invalidate earlier entry checks
            raise self.redo(act)
        bad = []
        asked = {}
        for c in act.cands:
            if c[0] == 'eq':
                if c[1][0] == 'log':
                    ok = self.logs_same()
                    if not ok:
                        bad.append(c)
                    continue
                t = self.pair_term(c, recs, act)
            else:
                t = self.solo_term(c, recs, act)
            if t is not None and not isinstance(t, bool):
                k = t.get_id()
                if k not in asked:
                    asked[k] = (self.holds(t), t)
                t = True if asked[k][0] else None
            if not t:
                bad.append(c)
        if bad:
            if self.ctx.check([], 4000) == z3.unsat:
                return
            if DEBUG:
                print('DROP', act.tabkey[1:], self.ctx.prefix(), bad)
            # dropping the log coupling hides which report differs
            for c in bad:
                if c[0] == 'eq' and c[1][0] == 'log':
                    self.log_detail = self.describe_logs()
                tab.dropped.add(c)
            raise self.redo(act)
        for c in act.cands:
            self.ctx.n_obl += 1
            self.ctx.n_dis += 1
            self.ctx.obls.append((self.ctx.prefix(), 'invariant:%s' %
                                  c[0], True))

    log_detail = ''

    def describe_logs(self):
        return 'code: %r\ncontract: %r' % (self.sides['T'].st.log,
                                           self.sides['S'].st.log)

    def redo(self, act):
        n = len(act.prefix)
        # tables of loops entered after this head are stale
        for k in [k for k in self.tabs
                  if k[0][:n] == act.prefix and k[1] > act.tabkey[1]]:
            del self.tabs[k]
        return Redo(n, act.prefix)

    # ------------------------------------------------------------ the end
    def finish(self, evs):
        ctx = self.ctx
        n0 = len(ctx.failures)
        if self.con.mode in ('uf', 'event'):
            self.check_frame(evs)
        if 'T' in evs:
            self.compare(evs['T'][1], evs['S'][1])
        elif evs['S'][1][0] == 'raise':
            self.fail('outcome', 'the lemma raises %s' % evs['S'][1][1].cls)
        else:
            self.check_ensures(evs['S'][1])
        feas = True
        if len(ctx.failures) == n0:
            r = ctx.check([], 3000)
            feas = r != z3.unsat
        self.dones.append((ctx.prefix(), feas))

    def check_frame(self, evs):
        """The frame that callers assume: reads, writes, no exception."""
        con = self.con
        base = dict(self.params)
        m0 = self.sides['S']
        items = dict()
        for what, fs in (('reads', con.reads + con.writes),
                         ('writes', con.writes)):
            items[what] = [m0.frame_item(con, base, f) for f in fs]
        for s in sorted(evs):
            m = self.sides[s]
            got = {'reads': m.frame_reads, 'writes': m.frame_writes}
            m.frame_reads, m.frame_writes = None, None
            for what in ('reads', 'writes'):
                for fkey in sorted(got[what]):
                    if '%s.%s' % fkey in con.ignore:
                        continue
                    ok = [o for o, k, T in items[what] if k == fkey]
                    if any(o is None for o in ok):
                        continue
                    seen = []
                    for ref in got[what][fkey]:
                        if ref is not None and any(
                                ref.eq(x) for x in seen):
                            continue
                        if ref is None:
                            self.fail('frame', '%s %s.%s of every object' % (
                                what, fkey[0], fkey[1]))
                            break
                        seen.append(ref)
                        if any(ref.eq(o.ref) for o in ok):
                            continue
                        t = z3.Or([ref == o.ref for o in ok] +
                                  [ref >= self.ctx.top0])
                        self.prove(t, 'frame: %s only declared %s.%s' % (
                            what, fkey[0], fkey[1]))
            o = evs[s][1]
            if o[0] == 'raise' and not con.noraise and not (
                    con.raises and str(o[1].cls) == con.raises):
                self.fail('frame', 'a summarised function raises %s' %
                          o[1].cls)
            q = Machine(self.ctx, self.world, self.decls, self.contracts,
                        self.st0.copy(), 'Q')
            for name, v in self.params:
                for w in self.containers(v):
                    if self.same_content(m.load(w.loc), q.load(w.loc)):
                        continue
                    t = m.eq(w, w, goal=True, other=q)
                    self.prove(t, 'frame: argument %s unchanged' % name)

    def compare(self, ot, os_):
        T, S = self.sides['T'], self.sides['S']
        if ot[0] != os_[0]:
            self.fail('outcome', 'code %s, contract %s' % (
                self.outcome_str(ot), self.outcome_str(os_)))
            return
        if ot[0] == 'raise':
            if ot[1].cls != os_[1].cls:
                self.fail('outcome', 'code raises %s, contract raises %s' % (
                    ot[1].cls, os_[1].cls))
                return
        else:
            try:
                t = T.eq(ot[1], os_[1], goal=True, other=S)
            except Unsupported as e:
                raise Unsupported('comparing results %r and %r: %s' % (
                    ot[1], os_[1], e))
            self.prove(t, 'result', 'code returns %r, contract %r' % (
                ot[1], os_[1]))
        self.check_ensures(os_)
        if self.con.garbage and ot[0] == 'raise':
            q = Machine(self.ctx, self.world, self.decls, self.contracts,
                        self.st0.copy(), 'Q')
            for fkey in sorted(T.st.heap):
                self.prove(self.heap_eq(fkey, q, self.ctx.top0),
                           'raising leaves %s.%s alone' % fkey)
        elif self.con.heap:
            if not T.st.top.eq(S.st.top):
                self.prove(T.st.top == S.st.top, 'allocation')
            for fkey in sorted(set(T.st.heap) | set(S.st.heap)):
                if '%s.%s' % fkey in self.con.ignore:
                    continue
                t = self.heap_eq(fkey)
                if z3.is_true(t):
                    continue
                self.prove(t, 'heap:%s.%s' % fkey)
            for name, v in self.params:
                for w in self.containers(v):
                    ct, cs = T.load(w.loc), S.load(w.loc)
                    if self.same_content(ct, cs):
                        continue
                    t = T.eq(w, w, goal=True, other=S)
                    self.prove(t, 'param:%s' % name)
        self.compare_logs()

    def check_ensures(self, os_):
        S = self.sides['S']
        if self.con.ensures and os_[0] == 'return':
            q = S.logic(self.con)
            fr = Frame(self.con.spec_func.mod, None, 'spec.ensures', None, 0)
            fr.env = dict(self.params)
            fr.env['result'] = os_[1]
            for r, src in zip(self.con.ensures, self.con.ensures_src):
                t = q.truth(q.ev(r, fr))
                self.prove(z3.BoolVal(t) if isinstance(t, bool) else t,
                           'ensures: ' + src)

    def containers(self, v):
        if v.kind in ('list', 'dict', 'set'):
            return [v]
        if v.kind == 'tuple':
            return [w for x in v.items for w in self.containers(x)]
        if v.kind == 'union':
            return [w for g, x in v.alts for w in self.containers(x)]
        return []

    def compare_logs(self):
        lt, ls = self.sides['T'].st.log, self.sides['S'].st.log
        it, st = self.split_log(lt)
        i2, s2 = self.split_log(ls)
        if it != i2:
            if DEBUG:
                print('LOGS', self.describe_logs(), self.ctx.prefix(),
                      [(k, sorted(t.mods, key=repr), t.dropped)
                       for k, t in self.tabs.items()])
            self.fail('reports', 'reports made in a loop differ; %s' %
                      self.log_detail)
            return
        if not self.con.log:
            return
        for a, b in zip(st, s2):
            ra, rb = list(a), []
            for y in b:
                for x in ra:
                    e = self.event_eq(x, y)
                    if e is True or (e is not False and self.ctx.entails(e)):
                        ra.remove(x)
                        self.ctx.n_obl += 1
                        self.ctx.n_dis += 1
                        self.ctx.obls.append((self.ctx.prefix(), 'report',
                                              True))
                        break
                else:
                    rb.append(y)
            if not ra and not rb:
                continue
            # what remains has no proved partner
            if len(ra) == len(rb) == 1 and ra[0].name == rb[0].name:
                e = self.event_eq(ra[0], rb[0])
                self.prove(e, 'report:' + ra[0].name,
                           'code reports %r, contract %r' % (ra[0], rb[0]))
                continue
            self.fail('reports', 'only the code reports %r; only the contract '
                      'reports %r' % (ra, rb))
            return

    # ------------------------------------------------------------ models
    def dump_inputs(self, model):
        d = Dumper(self, model)
        return d.run()


class Dumper(object):
    MAXLEN = 6

    def __init__(self, prod, model):
        self.p = prod
        self.m = model
        self.objs = {}
        self.strs = {}
        self.mach = Machine(prod.ctx, prod.world, prod.decls, {},
                            prod.st0.copy(), 'T')

    def ev(self, t):
        return self.m.eval(t, model_completion=True)

    def run(self):
        args = []
        for name, v in self.p.params:
            T = dict(self.p.con.args)[name]
            args.append([name, self.val(v)])
        return {'args': args, 'objs': self.objs,
                'today': self.int_(z3.Int('env_today'))}

    def int_(self, t):
        e = self.ev(t)
        return e.as_long()

    def string(self, t):
        e = self.ev(t)
        if z3.is_string_value(e):
            return e.as_string()
        f = e.as_fraction()
        key = str(f)
        if key in LITS:
            return LITS[key]
        if key not in self.strs:
            # a distinct string that roughly keeps the order
            out = ''
            x = f
            if x < 0:
                x = -x
            x = x - int(x) if x >= 1 else x
            for _ in range(3):
                x = x * 257
                d = int(x)
                x = x - d
                if d <= 0:
                    break
                out += chr(min(126, max(33, d - 1)))
            self.strs[key] = out + ('z' if f >= 1 else '') or 's%d' % len(
                self.strs)
        return self.strs[key]

    def val(self, v):
        k = v.kind
        if k == 'none':
            return None
        if k == 'bool':
            return bool(z3.is_true(self.ev(v.t)))
        if k == 'int':
            return {'int': str(self.int_(v.t))} if abs(
                self.int_(v.t)) > 2 ** 53 else self.int_(v.t)
        if k == 'real':
            e = self.ev(v.t)
            if z3.is_algebraic_value(e):
                e = e.approx(20)
            f = e.as_fraction()
            return {'float': float(f)}
        if k == 'str':
            return {'str': self.string(v.t)}
        if k == 'date':
            return {'date': self.int_(v.t)}
        if k == 'delta':
            return {'delta': self.int_(v.t)}
        if k == 'rep':
            return {'rep': 1}
        if k == 'absent':
            return {'absent': 1}
        if k == 'factory':
            return {'factory': 1}
        if k == 'opq':
            return {'opq': [v.name, str(self.ev(v.t))]}
        if k == 'tuple':
            return {'tuple': [self.val(x) for x in v.items]}
        if k == 'union':
            for g, a in v.alts:
                if z3.is_true(self.ev(g)):
                    return self.val(a)
            return self.val(v.alts[-1][1])
        if k == 'obj':
            return self.obj(v)
        if k == 'list':
            c = self.mach.load(v.loc)
            n = self.int_(c.n)
            n = max(0, min(n, self.MAXLEN))
            return {'list': [self.val(self.mach.unpack(
                c.T, [z3.Select(a, z3.IntVal(i)) for a in c.arrs],
                ElemLoc(v.loc, z3.IntVal(i), c.T))) for i in range(n)]}
        if k in ('dict', 'set'):
            c = self.mach.load(v.loc)
            keys = self.keys(c)
            out = []
            for kt in keys[:self.MAXLEN]:
                kv = self.val(self.mach.unpack(
                    c.K, ty.key_parts(c.K, kt), None))
                if k == 'set':
                    out.append(kv)
                else:
                    out.append([kv, self.val(self.mach.unpack(
                        c.T, [z3.Select(a, kt) for a in c.arrs],
                        ElemLoc(v.loc, kt, c.T)))])
            return {k: out}
        raise Unsupported('dump %s' % k)

    def keys(self, c):
        """Keys explicitly mentioned as present in the model array."""
        e = self.ev(c.present)
        out = []
        seen = []
        while z3.is_store(e):
            kt, b = e.arg(1), e.arg(2)
            if not any(kt.eq(x) for x in seen):
                seen.append(kt)
                if z3.is_true(self.ev(b)):
                    out.append(kt)
            e = e.arg(0)
        return out

    def obj(self, v):
        ref = self.int_(v.ref)
        key = '%s#%d' % (v.cls, ref)
        if key in self.objs or len(self.objs) > 40:
            return {'obj': key}
        self.objs[key] = {'cls': v.cls, 'fields': {}}
        cls = v.cls
        while cls is not None:
            d = self.p.decls[cls]
            for f, T in d.fields.items():
                if (cls, f) not in self.p.st0.heap and not any(
                        (cls, f) in self.p.sides[s].st.heap for s in 'TS'):
                    continue
                loc = FieldLoc(z3.IntVal(ref), (cls, f), T)
                x = self.mach.unpack(T, self.mach.get_terms(loc), loc)
                self.objs[key]['fields'][f] = self.val(x)
            cls = d.base
        return {'obj': key}


"""Path exploration, solver interface, obligations."""
import time
from . import fastz3
import z3
from .values import *

BRANCH_TIMEOUT = 4000
PROVE_TIMEOUT = 20000


class PathDone(Exception):
    """This path needs no further exploration."""


class Restart(Exception):
    pass


class Failure(object):
    def __init__(self, name, kind, model=None, detail='', path=None):
        self.name = name
        self.kind = kind        # 'refuted' | 'unknown' | 'unsupported'
        self.model = model
        self.detail = detail
        self.path = path


class Binder(object):
    def __init__(self, ctx, base, sort):
        self.ctx, self.base, self.sort = ctx, base, sort

    def __enter__(self):
        self.ctx.depth += 1
        return z3.Const('%s%d' % (self.base, self.ctx.depth), self.sort)

    def __exit__(self, *a):
        self.ctx.depth -= 1


class Ctx(object):
    def __init__(self, seed=1):
        self.solver = z3.Solver()
        self.solver.set('random_seed', seed % 1000)
        self.trace = []
        self.n_obl = 0
        self.n_dis = 0
        self.solver_s = 0.0
        self.n_queries = 0
        self.failures = []
        self.paths = 0
        self.deadline = None
        self.nobranch = False
        self.unequal = {}
        self.both = set()
        self.obls = []
        self.obl_names = {}
        self.backends = {}

    # -------------------------------------------------- path control
    def begin(self):
        self.solver.push()
        self.pos = 0
        self.counter = 0
        self.depth = 0
        self.known = {}
        self.keep = []
        self.dates = []
        self.dictorders = []
        self.inputs = []
        self.paths += 1
        self.sortmemo = []
        self.sorts = []

    def end(self):
        self.solver.pop()

    def next_trace(self):
        t = self.trace
        while t and not t[-1][1]:
            t.pop()
        if not t:
            return False
        t[-1] = [not t[-1][0], False]
        return True

    def prefix(self):
        return tuple(d[0] for d in self.trace[:self.pos])

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time budget of this contract exhausted')

    # -------------------------------------------------- terms
    def fresh(self, name, sort):
        self.counter += 1
        return z3.Const('%s!%d' % (name, self.counter), sort)

    def _remember(self, t, val):
        self.known[t.get_id()] = val
        self.keep.append(t)

    def assume(self, t):
        if t is True:
            return
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        if self.under is not None:
            t = z3.Implies(self.under, t)
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if t.get_id() in self.known and self.known[t.get_id()] is True:
            return
        self.solver.add(t)
        self._remember(t, True)

    def check(self, extra, timeout):
        t0 = time.time()
        self.solver.set('timeout', timeout)
        self.n_queries += 1
        r = self.last = self.solver.check(*extra)
        self.solver_s += time.time() - t0
        self.check_deadline()
        return r

    depth = 0           # nesting of binders under construction

    def bound(self, base, sort):
        """Context manager: a variable to be bound by a quantifier."""
        return Binder(self, base, sort)

    slow = 0
    under = None        # condition under which the machine runs (guarded)

    def quick(self, extra):
        """Feasibility; less patient once this contract's satisfiable
        queries turn out to be out of reach (unknown counts as feasible)."""
        r = self.check(extra, BRANCH_TIMEOUT if self.slow < 3 else 500)
        if r == z3.unknown:
            self.slow += 1
        return r

    def branch(self, t):
        """Decide a condition on the current path (forks when both possible)."""
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k = self.known.get(t.get_id())
        if k is not None:
            return k
        if self.nobranch:
            return self.local_branch(t)
        if self.depth:
            raise Unsupported('case split under a binder')
        if self.pos < len(self.trace):
            val = self.trace[self.pos][0]
            self.pos += 1
        else:
            nt = z3.Not(t)
            rt = self.quick([t])
            if rt == z3.unsat:
                val, alt = False, False
            else:
                rf = self.quick([nt])
                if rf == z3.unsat:
                    val, alt = True, False
                else:
                    val, alt = True, True
            self.trace.append([val, alt])
            self.pos += 1
        c = t if val else z3.simplify(z3.Not(t))
        self.solver.add(c)
        self._remember(t, val)
        self._remember(c, True)
        return val

    last = None         # the latest answer of the solver
    local = None
    slow_local = 0
    both = frozenset()

    def local_check(self, cs):
        r = self.check(cs, 1000 if self.slow_local < 3 else
                       100 if self.slow_local < 20 else 15)
        if r == z3.unknown:
            self.slow_local += 1
        return r

    def local_branch(self, t):
        """Case split inside a quantified body."""
        l = self.local
        for c, v in l['conds']:
            if c.eq(t):
                return v
        mk = l.get('key') and (l['key'], tuple(x[0] for x in l['trace']))
        if l['pos'] < len(l['trace']):
            val = l['trace'][l['pos']][0]
        elif mk and mk in self.both:
            # both outcomes were possible before: keep both (more cases
            # than needed at worst)
            val = True
            l['trace'].append([True, True])
        else:
            cs = [c if v else z3.Not(c) for c, v in l['conds']]
            if self.local_check(cs + [t]) == z3.unsat:
                val, alt = False, False
            elif self.local_check(cs + [z3.Not(t)]) == z3.unsat:
                val, alt = True, False
            else:
                val, alt = True, True
                if mk:
                    self.both.add(mk)
            l['trace'].append([val, alt])
        l['pos'] += 1
        l['conds'].append((t, val))
        return val

    def cases(self, f, key=None):
        """Evaluates f() on every case; list of (condition, result)."""
        if key is not None:
            try:
                return self._cases(f, key)
            except Unsupported:
                pass
        return self._cases(f, None)

    def _cases(self, f, key):
        old, oldnb = self.local, self.nobranch
        self.nobranch = True
        trace = []
        out = []
        try:
            while True:
                self.local = {'trace': trace, 'pos': 0, 'conds': [],
                              'key': key}
                r = f()
                cs = [c if v else z3.Not(c) for c, v in self.local['conds']]
                out.append((z3.And(cs) if cs else z3.BoolVal(True), r))
                if len(out) > 200:
                    raise Unsupported('too many cases under a quantifier')
                while trace and not (trace[-1][0] and trace[-1][1]):
                    trace.pop()
                if not trace:
                    return out
                trace[-1] = [False, False]
        finally:
            self.local, self.nobranch = old, oldnb

    def choose(self, n):
        """A purely nondeterministic choice in range(n)."""
        for i in range(n - 1):
            b = self.fresh('choice', z3.BoolSort())
            if self.branch(b):
                return i
        return n - 1

    def feasible(self):
        return self.check([], PROVE_TIMEOUT)

    def entails(self, t, timeout=BRANCH_TIMEOUT):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        k = self.known.get(t.get_id())
        if k is True:
            return True
        if z3.is_false(t):
            return False
        if timeout == BRANCH_TIMEOUT:
            return self.quick([z3.Not(t)]) == z3.unsat
        return self.check([z3.Not(t)], timeout) == z3.unsat

    # -------------------------------------------------- obligations
    def prove(self, t, name, detail=''):
        """One proof obligation: path condition entails t."""
        self.n_obl += 1
        self.obl_names[name] = self.obl_names.get(name, 0) + 1
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        if self.under is not None:
            t = z3.Implies(self.under, t)
        t = z3.simplify(t)
        if z3.is_true(t):
            self.n_dis += 1
            self.backends['simplifier'] = self.backends.get('simplifier', 0) + 1
            return True
        neg = z3.simplify(z3.Not(t))
        r = self.check([neg], PROVE_TIMEOUT)
        if r == z3.unsat:
            self.n_dis += 1
            self.backends['z3'] = self.backends.get('z3', 0) + 1
            return True
        if r == z3.sat:
            m = self.solver.model()
            self.failures.append(Failure(name, 'refuted', m, detail,
                                         self.prefix()))
            return False
        # unknown: once more with a fresh, non-incremental solver
        r = self._retry(neg)
        if r == z3.unsat:
            self.n_dis += 1
            return True
        if r == z3.sat:
            self.failures.append(Failure(name, 'refuted', self._model, detail,
                                         self.prefix()))
            return False
        self.failures.append(Failure(name, 'unknown', None, detail,
                                     self.prefix()))
        return False

    def _retry(self, neg):
        for seed in (7, 23):
            s = z3.Solver()
            s.set('timeout', PROVE_TIMEOUT * 2)
            s.set('random_seed', seed)
            s.add(*self.solver.assertions())
            s.add(neg)
            t0 = time.time()
            r = s.check()
            self.solver_s += time.time() - t0
            self.n_queries += 1
            if r != z3.unknown:
                self.backends['z3-fresh'] = self.backends.get('z3-fresh', 0) + 1
                if r == z3.sat:
                    self._model = s.model()
                return r
            if r == z3.unknown and seed == 7:
                rc = self._cvc5(s)
                if rc == 'unsat':
                    self.backends['cvc5'] = self.backends.get('cvc5', 0) + 1
                    return z3.unsat
        return z3.unknown

    def _cvc5(self, s):
        import subprocess, tempfile, os
        try:
            txt = '(set-logic ALL)\n' + s.to_smt2()
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=20000', '-'],
                               input=txt, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, universal_newlines=True,
                               timeout=40)
            out = p.stdout.strip().split('\n')[0]
            return out
        except Exception:
            return 'error'

    def fail(self, name, detail=''):
        """An obligation that this path is infeasible."""
        self.n_obl += 1
        self.obl_names[name] = self.obl_names.get(name, 0) + 1
        r = self.feasible()
        if r == z3.unsat:
            self.n_dis += 1
            return True
        if r == z3.sat:
            self.failures.append(Failure(name, 'refuted', self.solver.model(),
                                         detail, self.prefix()))
        else:
            r = self._retry(z3.BoolVal(True))
            if r == z3.unsat:
                self.n_dis += 1
                return True
            self.failures.append(Failure(
                name, 'refuted' if r == z3.sat else 'unknown',
                getattr(self, '_model', None) if r == z3.sat else None,
                detail, self.prefix()))
        return False

"""Cheaper versions of the z3 bindings' hottest functions.

Only the bookkeeping of the Python bindings is shortened (argument coercion of
terms that already have the right sort, the error check after functions that
cannot fail); every term is built by the same libz3 call.
"""
import z3
from z3 import z3 as Z
from z3 import z3core as K



def _direct(name):
    f = getattr(K, name).__defaults__[0].f
    setattr(Z, name, f)
    setattr(K, name, f)
    return f


for _n in ('Z3_inc_ref', 'Z3_dec_ref', 'Z3_is_eq_ast', 'Z3_get_sort',
           'Z3_get_ast_kind', 'Z3_get_sort_kind', 'Z3_is_eq_sort',
           'Z3_get_ast_id', 'Z3_get_ast_hash', 'Z3_get_app_decl',
           'Z3_get_app_num_args', 'Z3_get_decl_kind', 'Z3_is_app',
           'Z3_is_finite_set_sort'):
    if getattr(getattr(K, _n, None), '__defaults__', None):
        _direct(_n)

Z.Z3_DEBUG = False
_old_to_expr = Z._to_expr_ref


def _to_expr_ref(a, ctx):
    c = ctx.ref()
    k = K.Z3_get_ast_kind(c, a)
    if k == Z.Z3_APP_AST:
        sk = K.Z3_get_sort_kind(c, K.Z3_get_sort(c, a))
        if sk == Z.Z3_BOOL_SORT:
            return z3.BoolRef(a, ctx)
        if sk == Z.Z3_INT_SORT:
            return z3.ArithRef(a, ctx)
        if sk == Z.Z3_ARRAY_SORT:
            return z3.ArrayRef(a, ctx)
    return _old_to_expr(a, ctx)


Z._to_expr_ref = _to_expr_ref


def _nary(name, old, mk):
    def f(*args):
        if len(args) == 1 and isinstance(args[0], (list, tuple)):
            args = args[0]
        if not args:
            return old(*args) if old is not z3.And else z3.BoolVal(True)
        for a in args:
            if not isinstance(a, z3.BoolRef):
                return old(list(args))
        ctx = args[0].ctx
        n = len(args)
        arr = (Z.Ast * n)()
        for i in range(n):
            arr[i] = args[i].ast
        return z3.BoolRef(mk(ctx.ref(), n, arr), ctx)
    f.__name__ = name
    return f


_And, _Or, _Not, _Implies = z3.And, z3.Or, z3.Not, z3.Implies


def Not(a, ctx=None):
    if isinstance(a, z3.BoolRef):
        return z3.BoolRef(K.Z3_mk_not(a.ctx.ref(), a.ast), a.ctx)
    return _Not(a, ctx)


def Implies(a, b, ctx=None):
    if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef):
        return z3.BoolRef(K.Z3_mk_implies(a.ctx.ref(), a.ast, b.ast), a.ctx)
    return _Implies(a, b, ctx)


_IntVal = z3.IntVal
_ints = {}


def IntVal(v, ctx=None):
    if type(v) is int and ctx is None:
        r = _ints.get(v)
        if r is None:
            r = _ints[v] = _IntVal(v)
        return r
    return _IntVal(v, ctx)


_bools = {b: z3.BoolVal(b) for b in (True, False)}
_BoolVal = z3.BoolVal


def BoolVal(v, ctx=None):
    if type(v) is bool and ctx is None:
        return _bools[v]
    return _BoolVal(v, ctx)


_Select = z3.Select


def Select(a, *args):
    if len(args) == 1 and isinstance(a, z3.ArrayRef) and \
            isinstance(args[0], z3.ExprRef):
        # a sort mismatch is an error of Z3_mk_select
        return _to_expr_ref(K.Z3_mk_select(a.ctx.ref(), a.ast, args[0].ast),
                            a.ctx)
    return _Select(a, *args)


And = _nary('And', _And, K.Z3_mk_and)
Or = _nary('Or', _Or, K.Z3_mk_or)
for _n in ('And', 'Or', 'Not', 'Implies', 'IntVal', 'BoolVal', 'Select'):
    setattr(z3, _n, globals()[_n])
    setattr(Z, _n, globals()[_n])


_eq = z3.ExprRef.__eq__


def _fast_eq(self, other):
    if isinstance(other, z3.ExprRef):
        ctx = self.ctx
        c = ctx.ref()
        a, b = self.ast, other.ast
        if K.Z3_get_sort(c, a).value == K.Z3_get_sort(c, b).value:
            return z3.BoolRef(K.Z3_mk_eq(c, a, b), ctx)
    elif type(other) is int and other in _ints and \
            K.Z3_get_sort(self.ctx.ref(), self.ast).value == \
            _int_sort.value:
        return z3.BoolRef(K.Z3_mk_eq(self.ctx.ref(), self.ast,
                                     _ints[other].ast), self.ctx)
    return _eq(self, other)


_keep_int = z3.IntSort()
_int_sort = _keep_int.ast
z3.ExprRef.__eq__ = _fast_eq
_cast = z3.ArithSortRef.cast


def _fast_cast(self, val):
    if type(val) is int and K.Z3_get_sort_kind(
            self.ctx_ref(), self.ast) == Z.Z3_INT_SORT:
        return IntVal(val)
    return _cast(self, val)


z3.ArithSortRef.cast = _fast_cast
_fcall = z3.FuncDeclRef.__call__


def _fast_call(self, *args):
    """An application to terms of exactly the declared sorts."""
    ctx = self.ctx
    c = ctx.ref()
    n = len(args)
    dom = self.__dict__.get('_dom')
    if dom is None:
        dom = self.__dict__['_dom'] = [
            K.Z3_get_domain(c, self.ast, i).value
            for i in range(self.arity())]
    if n != len(dom):
        return _fcall(self, *args)
    arr = (Z.Ast * n)()
    for i in range(n):
        x = args[i]
        if not isinstance(x, z3.ExprRef) or \
                K.Z3_get_sort(c, x.ast).value != dom[i]:
            return _fcall(self, *args)
        arr[i] = x.ast
    return _to_expr_ref(K.Z3_mk_app(c, self.ast, n, arr), ctx)


z3.FuncDeclRef.__call__ = _fast_call
_inc, _dec = K.Z3_inc_ref, K.Z3_dec_ref


def _fast_init(self, ast, ctx=None):
    if ctx is None:
        ctx = z3.main_ctx()
    self.ast = ast
    self.ctx = ctx
    _inc(ctx.ctx, ast)


def _fast_del(self):
    c = self.ctx.ctx
    if c is not None and self.ast is not None and _dec is not None:
        _dec(c, self.ast)
        self.ast = None


_mysimplify = z3.simplify


def simplify(a, *args, **kw):
    """The core function itself; no options are used."""
    if args or kw:
        return _mysimplify(a, *args, **kw)
    return _to_expr_ref(K.Z3_simplify(a.ctx.ctx, a.ast), a.ctx)


Z.AstRef.__init__ = _fast_init
Z.AstRef.__del__ = _fast_del
z3.simplify = Z.simplify = simplify

"""Loads the contracts (executable specifications) of /verif/specs."""
import ast
import os
from . import ty
from .values import *
from .world import parse_file

SPECS = os.environ.get('PYVC_SPECS', os.path.join(
    os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs'))


class ClassDecl(object):
    def __init__(self, name, real, base, fields, eq):
        self.name = name
        self.real = real
        self.base = base
        self.fields = fields
        self.eq = eq
        self.info = None


def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == '[':
            depth += 1
        elif ch == ']':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    res = []
    for a in out:
        n, t = a.split(':', 1)
        res.append((n.strip(), ty.parse(t.strip())))
    return res


class Contract(object):
    def __init__(self, kind, module, node, kw):
        self.kind = kind                # contract | lemma | scenario
        self.module = module
        self.node = node
        self.name = module + '.' + node.name
        self.qual = kw.pop('target', None)
        p = kw.pop('prop', '')
        self.props = [x.strip() for x in p.split(',') if x.strip()]
        self.argtext = kw.pop('args', '')
        self.args = split_args(self.argtext)
        self.argtypes = dict(self.args)
        r = kw.pop('requires', [])
        self.requires_src = [r] if isinstance(r, str) else list(r)
        self.requires = [ast.parse(x, mode='eval').body
                         for x in self.requires_src]
        e = kw.pop('ensures', [])
        self.ensures_src = [e] if isinstance(e, str) else list(e)
        self.ensures = [ast.parse(x, mode='eval').body
                        for x in self.ensures_src]
        i = kw.pop('invariants', [])
        self.invariants_src = [i] if isinstance(i, str) else list(i)
        self.invariants = [ast.parse(x, mode='eval').body
                           for x in self.invariants_src]
        self.heap = kw.pop('heap', True)
        self.log = kw.pop('log', True)
        # a call that raises leaves every existing object as it was; what it
        # allocated before is garbage and not compared
        self.garbage = kw.pop('garbage', False)
        self.ignore = set(kw.pop('ignore', []))
        self.modular = kw.pop('modular', None)  # spec | uf | event | assumed
        self.mode = {None: 'spec', 'spec': 'spec', 'assumed': 'spec',
                     'uf': 'uf', 'event': 'event'}[self.modular]
        self.reads = kw.pop('reads', [])
        self.writes = kw.pop('writes', [])
        self.noraise = kw.pop('noraise', '')
        self.raises = kw.pop('raises', None)
        rt = kw.pop('ret', None)
        self.ret = ty.parse(rt) if rt else None
        self.bounded = kw.pop('bounded', None)  # text of the bound, or None
        self.strings = kw.pop('strings', 'opaque')
        self.budget = kw.pop('budget', 150)
        self.cases = kw.pop('cases', 300)
        self.inline = set(kw.pop('inline', []))
        self.use = set(kw.pop('use', []))
        self.runtime = kw.pop('runtime', True)
        self.why = kw.pop('why', '') or self.noraise
        for k in ('pools', 'fieldpools', 'gen', 'post', 'maxlen', 'env'):
            kw.pop(k, None)
        if kw:
            raise ValueError('unknown contract option %r in %s' % (
                sorted(kw), self.name))
        self.target = None
        self.spec_func = None


CONSTS = {}


def _lit(n):
    if isinstance(n, ast.Name) and n.id in CONSTS:
        return CONSTS[n.id]
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = _lit(n.left), _lit(n.right)
        return a + b if isinstance(a, list) and isinstance(b, list) else None
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
            n.func.id == 'dict':
        return dict((k.arg, _lit(k.value)) for k in n.keywords)
    if isinstance(n, ast.Name):
        return ('name', n.id)
    if isinstance(n, ast.Lambda):
        return None
    if isinstance(n, ast.List):
        return [_lit(x) for x in n.elts]
    try:
        return ast.literal_eval(n)
    except ValueError:
        return None


def load_file(path, module):
    tree = parse_file(path)
    decls, cons = [], []
    CONSTS.clear()
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            v = _lit(n.value)
            if isinstance(v, (list, str)):
                CONSTS[n.targets[0].id] = v
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and \
                isinstance(n.value.func, ast.Name) and \
                n.value.func.id == 'classdecl':
            c = n.value
            a = [_lit(x) for x in c.args]
            kw = dict((k.arg, _lit(k.value)) for k in c.keywords)
            fields = dict((f, ty.parse(t)) for f, t in
                          (kw.get('fields') or {}).items())
            decls.append(ClassDecl(a[0], a[1], kw.get('base'), fields,
                                   kw.get('eq', 'id')))
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) \
                        and d.func.id in ('contract', 'lemma', 'scenario'):
                    kw = dict((k.arg, _lit(k.value)) for k in d.keywords)
                    if d.args:
                        kw['target'] = _lit(d.args[0])
                    cons.append(Contract(d.func.id, module, n, kw))
    return decls, cons


def load_all(specs=SPECS):
    decls, cons = {}, []
    for f in sorted(os.listdir(specs)):
        if f.startswith('spec_') and f.endswith('.py'):
            d, c = load_file(os.path.join(specs, f), f[:-3])
            for x in d:
                if x.name in decls:
                    raise ValueError('duplicate class decl %s' % x.name)
                decls[x.name] = x
            cons.extend(c)
    return decls, cons

"""Program source: parses the real modules of /repo on every run.

Nothing is dropped from a function's text: the AST that is verified is the one
parsed from the file on disk in this run.
"""
import ast
import os
import sys
import warnings
from .values import *

REPO = os.environ.get('PYVC_REPO', '/repo')


class ModInfo(object):
    def __init__(self, name, path, tree, world):
        self.name = name
        self.path = path
        self.tree = tree
        self.world = world
        self.defs = {}
        self.cache = {}
        self.stars = []
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self._scan(tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = n
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.defs[e.id] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.defs[(a.asname or a.name.split('.')[0])] = n
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name == '*':
                        self.stars.append(n)
                    else:
                        self.defs[a.asname or a.name] = n
            elif isinstance(n, ast.If):
                self._scan(n.orelse)
                self._scan(n.body)
            elif isinstance(n, ast.Try):
                for h in n.handlers:
                    self._scan(h.body)
                self._scan(n.body)

    def resolve_rel(self, node):
        if node.level == 0:
            return node.module
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[:-(node.level - 1)]
        if node.module:
            parts = parts + node.module.split('.')
        return '.'.join(parts)


class ClassInfo(object):
    def __init__(self, name, mod, node):
        self.name = name
        self.mod = mod
        self.node = node
        self.attrs = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                # property setters etc. are ignored
                if n.name in self.attrs and any(
                        isinstance(d, ast.Attribute) for d in n.decorator_list):
                    continue
                self.attrs[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            self.attrs[e.id] = n
        self.cache = {}
        self._mro = None

    @property
    def qual(self):
        return self.mod.name + '.' + self.name

    def bases(self):
        out = []
        for b in self.node.bases:
            v = self.mod.world.static_eval(b, self.mod)
            out.append(v)
        return out

    def mro(self):
        """Linearisation (single inheritance chains in this code base)."""
        if self._mro is None:
            r = [self]
            for b in self.bases():
                if isinstance(b, VClass):
                    for c in b.info.mro():
                        if c not in r:
                            r.append(c)
            self._mro = r
        return self._mro

    def lib_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases():
                if isinstance(b, VLib):
                    out.append(b.name)
        return out

    def find(self, name, after=None):
        seq = self.mro()
        if after is not None:
            seq = seq[seq.index(after) + 1:]
        for c in seq:
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None


def parse_file(path):
    with open(path, 'rb') as f:
        src = f.read()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return ast.parse(src, path)
    except SyntaxError as e:
        raise Unsupported('cannot parse %s: %s' % (path, e))


class World(object):
    def __init__(self, repo=REPO, extra=()):
        self.repo = repo
        self.mods = {}
        self.extra = list(extra)
        self.resolving = set()
        self.static = None      # set by the engine: (node, mod, cls) -> V

    def static_eval(self, node, mod, cls=None):
        return self.static(node, mod, cls)

    def find_path(self, name):
        rel = name.replace('.', '/')
        for base in [self.repo] + self.extra:
            for p in (os.path.join(base, rel + '.py'),
                      os.path.join(base, rel, '__init__.py')):
                if os.path.exists(p):
                    return p
        return None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.find_path(name)
        if p is None:
            self.mods[name] = None
            return None
        m = ModInfo(name, p, parse_file(p), self)
        self.mods[name] = m
        return m

    def lookup(self, mod, name):
        """Value of a module-level name, or None."""
        if name in mod.cache:
            return mod.cache[name]
        key = (mod.name, name)
        if key in self.resolving:
            return None
        self.resolving.add(key)
        try:
            v = self._lookup(mod, name)
        finally:
            self.resolving.discard(key)
        if v is not None and not self.resolving:
            mod.cache[name] = v
        elif v is not None and mod.defs.get(name) is not None:
            mod.cache[name] = v
        return v

    def _lookup(self, mod, name):
        n = mod.defs.get(name)
        if n is None:
            sub = self.module(mod.name + '.' + name) if mod.is_pkg else None
            if sub is not None:
                return VMod(sub)
            for s in mod.stars:
                tm = self.module(mod.resolve_rel(s))
                if tm is not None:
                    v = self.lookup(tm, name)
                    if v is not None:
                        return v
            return None
        if isinstance(n, ast.FunctionDef):
            return VFunc(n, mod, None, None, mod.name + '.' + name)
        if isinstance(n, ast.ClassDef):
            return VClass(ClassInfo(name, mod, n))
        if isinstance(n, ast.Import):
            for a in n.names:
                bound = a.asname or a.name.split('.')[0]
                if bound == name:
                    target = a.name if a.asname else a.name.split('.')[0]
                    m = self.module(target)
                    return VMod(m) if m is not None else VLib(target)
        if isinstance(n, ast.ImportFrom):
            src = mod.resolve_rel(n)
            for a in n.names:
                if (a.asname or a.name) == name:
                    m = self.module(src)
                    if m is not None:
                        v = self.lookup(m, a.name)
                        if v is not None:
                            return v
                    sub = self.module(src + '.' + a.name if src else a.name)
                    if sub is not None:
                        return VMod(sub)
                    if m is not None:
                        return None
                    return VLib(src + '.' + a.name)
        if isinstance(n, ast.Assign):
            v = self.static_eval(n.value, mod)
            t = n.targets[0]
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    return v
                if isinstance(t, ast.Tuple):
                    for i, e in enumerate(t.elts):
                        if e.id == name:
                            return v.items[i]
        return None

    def get(self, qual):
        """Dotted name -> V (function / class attr), e.g. a.b.Class.meth."""
        parts = qual.split('.')
        for i in range(len(parts), 0, -1):
            m = self.module('.'.join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            if not rest:
                return VMod(m)
            v = self.lookup(m, rest[0])
            if v is None:
                return None
            for r in rest[1:]:
                if not isinstance(v, VClass):
                    return None
                c, n = v.info.find(r)
                if n is None or not isinstance(n, ast.FunctionDef):
                    return None
                v = VFunc(n, c.mod, c, None, c.qual + '.' + r)
            return v
        return None

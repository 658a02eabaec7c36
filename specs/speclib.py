"""Run-time side of the contract language (Python 2 and 3)."""

REGISTRY = []
CLASSES = {}
ORDER = []


def _reg(kind, target, kw):
    def deco(f):
        f.vc = dict(kw)
        f.vc['kind'] = kind
        f.vc['target'] = target
        REGISTRY.append(f)
        return f
    return deco


def contract(target, **kw):
    """The decorated function is the contract of `target`."""
    return _reg('contract', target, kw)


def lemma(**kw):
    """Assertions over contracts and real functions, for all arguments."""
    return _reg('lemma', None, kw)


def scenario(**kw):
    """A bounded check of the real code (never counted as proved)."""
    return _reg('scenario', None, kw)


def classdecl(name, real, base=None, fields=None, eq='id', pools=None):
    CLASSES[name] = dict(name=name, real=real, base=base,
                         fields=fields or {}, eq=eq, pools=pools or {})


def implies(a, b):
    return (not a) or bool(b)

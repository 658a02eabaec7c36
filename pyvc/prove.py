"""Proves one contract against /repo's current source; prints JSON."""
import json
import sys
import time
import traceback
import ast
from . import ty
from .values import *
from .contracts import load_all, SPECS
from .world import World, REPO
from .lib import StaticEval
from . import product


def literals(nodes):
    out = {'int': set(), 'str': set(), 'float': set()}
    for nd in nodes:
        for n in [x for b in nd.body for x in ast.walk(b)]:
            if isinstance(n, ast.Constant):
                c = n.value
                if isinstance(c, bool) or c is None:
                    continue
                if isinstance(c, int):
                    out['int'].add(c)
                elif isinstance(c, float):
                    out['float'].add(c)
                elif isinstance(c, str) and len(c) <= 24:
                    out['str'].add(c)
    return dict((k, sorted(v)) for k, v in out.items())


def prove(name, budget=None, seed=1, verbose=False):
    decls, cons = load_all()
    con = [c for c in cons if c.name == name][0]
    ty.Mode.strings = con.strings
    ty._sorts_memo.clear()
    world = World(REPO, extra=[SPECS])
    StaticEval(world)
    t0 = time.time()
    res = {'name': name, 'target': con.qual, 'kind': con.kind,
           'props': con.props, 'requires': con.requires_src}
    try:
        contracts = {}
        for c in cons:
            if c.kind != 'contract' or not c.modular:
                continue
            if c.qual in con.inline:
                continue
            T = c.argtypes.get('self', ('',))
            if T[0] == 'obj' and decls[T[1]].base and \
                    not c.qual.startswith(decls[T[1]].real + '.'):
                # an inherited function, for objects of a subclass
                contracts['%s@%s' % (c.qual, T[1])] = c
            else:
                contracts[c.qual] = c
            m = world.module(c.module)
            c.spec_func = world.lookup(m, c.node.name)
            contracts['=' + c.spec_func.qual] = c
        for q in con.use:
            c = [x for x in cons if x.qual == q and x.kind == 'contract'][0]
            contracts[c.qual] = c
            c.modular = c.modular or 'spec'
            m = world.module(c.module)
            c.spec_func = world.lookup(m, c.node.name)
        m = world.module(con.module)
        con.spec_func = world.lookup(m, con.node.name)
        nodes = [con.node]
        if con.kind == 'contract':
            con.target = world.get(con.qual)
            if con.target is None or con.target.kind != 'func':
                raise Unsupported('function %s not found in the source' %
                                  con.qual)
            nodes.append(con.target.node)
        res['literals'] = literals(nodes)
        p = product.Product(world, world, decls, contracts, con, seed,
                            budget or con.budget)
        fails = p.run()
        ctx = p.ctx
        res.update(
            obligations=len(ctx.obls), discharged=sum(
                1 for o in ctx.obls if o[2]),
            paths=len(p.dones), feasible=sum(1 for d in p.dones if d[1]),
            queries=ctx.n_queries, solver_s=round(ctx.solver_s, 3),
            used=sorted(p.used), inlined=sorted(p.inlined),
            loops=sorted(set(p.loops)), restarts=p.restarts,
            backends=ctx.backends)
        names = {}
        for pf, n, ok in ctx.obls:
            k = n.split('@')[0]
            names[k] = names.get(k, 0) + 1
        res['obligation_kinds'] = names
        res['failures'] = [dict(
            obligation=f.name, kind=f.kind, detail=f.detail[:2000],
            inputs=getattr(f, 'inputs', None),
            path=''.join('1' if b else '0' for b in (f.path or ())))
            for f in fails]
        lits = set(res['literals']['str'])
        for q in p.inlined:
            v = world.get(q)
            if v is not None and v.kind == 'func':
                for k, vals in literals([v.node]).items():
                    res['literals'][k] = sorted(set(
                        res['literals'][k]) | set(vals))
        if not fails:
            if res['feasible'] == 0:
                res['failures'].append(dict(
                    obligation='vacuity', kind='unsupported',
                    detail='no feasible path reaches the end', inputs=None))
            elif res['obligations'] == 0 and con.kind == 'lemma':
                res['failures'].append(dict(
                    obligation='vacuity', kind='unsupported',
                    detail='no obligation was generated', inputs=None))
    except Unsupported as e:
        res.setdefault('literals', {'int': [], 'str': [], 'float': []})
        res['failures'] = [dict(obligation='translate', kind='unsupported',
                                detail=str(e)[:1500], inputs=None)]
    except Exception:
        res.setdefault('literals', {'int': [], 'str': [], 'float': []})
        res['failures'] = [dict(obligation='engine', kind='unsupported',
                                detail=traceback.format_exc()[-600:], inputs=None)]
    res['seconds'] = round(time.time() - t0, 2)
    res['ok'] = not res['failures']
    return res


def main():
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument('name')
    a.add_argument('--budget', type=float)
    a.add_argument('--seed', type=int, default=1)
    a.add_argument('-v', action='store_true')
    o = a.parse_args()
    sys.setrecursionlimit(20000)
    r = prove(o.name, o.budget, o.seed, o.v)
    print(json.dumps(r, indent=1 if o.v else None))


if __name__ == '__main__':
    main()

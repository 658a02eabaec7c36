#!/usr/bin/env python3
"""Decides one property: proves its contracts against /repo, then runs them
against the real code.

  python3-vt check.py C02 [--tier quick|thorough]
  python3-vt check.py --replay evidence/replays/C02-1.json

Exit 0: every obligation of every contract was accepted and no run of the
real code disagreed with its contract.  Exit 1: otherwise (VIOLATION line).
"""
import argparse
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pyvc.contracts import load_all, SPECS
from pyvc.world import REPO

JYTHON = os.environ.get('PYVC_JYTHON', '/opt/jy/bin/jython')
EVID = os.environ.get('PYVC_EVIDENCE', os.path.join(HERE, 'evidence'))
BASE_ASSUMPTIONS = [
    'Python ints and floats are mathematical integers and reals (no rounding, '
    'NaN or infinity); str and unicode are identified',
    'container-valued fields declared in a class declaration are not aliased '
    'between objects; objects have exactly the declared class',
    'termination is not proved (partial correctness)',
    'csv, sqlite3, datetime, time, re and str library functions are modelled '
    'by axioms (see DESIGN.md), not verified',
    'the verifier itself (/verif/pyvc) and z3/cvc5 are trusted; every contract '
    'is also executed against the real code under Jython on each run',
]


def run_proof(con, tier, seed, deadline):
    budget = con.budget * (2 if tier == 'thorough' else 1)
    budget = max(10, min(budget, deadline - time.time()))
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1')
    t0 = time.time()
    try:
        p = subprocess.run(
            [sys.executable, '-m', 'pyvc.prove', con.name, '--budget',
             '%.1f' % budget, '--seed', str(seed)], env=env, cwd=HERE,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            timeout=budget + 45)
        r = json.loads(p.stdout.decode().strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        r = _fail(con, 'timeout', 'no answer within %.0f s' % (budget + 45))
    except Exception as e:
        r = _fail(con, 'engine', '%s: %s' % (e, p.stderr.decode()[-1500:]))
    r['wall'] = round(time.time() - t0, 2)
    return r


def _fail(con, name, detail):
    return {'name': con.name, 'ok': False, 'obligations': 0, 'discharged': 0,
            'literals': {'int': [], 'str': [], 'float': []},
            'failures': [{'obligation': name, 'kind': 'unsupported',
                          'detail': detail, 'inputs': None}]}


def name_graph():
    """name -> names mentioned by any function/constant of that name, in the
    code under /repo and in the specs (used only to focus the search)."""
    import ast
    import warnings
    warnings.simplefilter('ignore')
    graph = {}

    def names(n):
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute):
                out.add(x.attr)
            elif isinstance(x, ast.Name):
                out.add(x.id)
            elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                out.add(x.value)
        return out

    def scan(body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                graph.setdefault(n.name, set()).update(names(n))
            elif isinstance(n, ast.ClassDef):
                scan(n.body)
                graph.setdefault(n.name, set()).add('__init__')
                for b in n.body:
                    if isinstance(b, ast.FunctionDef) and \
                            b.name == '__init__':
                        graph[n.name] |= names(b)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        graph.setdefault(t.id, set()).update(names(n.value))
            elif isinstance(n, (ast.If, ast.Try)):
                scan(n.body)
    dirs = [SPECS]
    for d, _, fs in os.walk(REPO):
        if 'test' not in d and '/.' not in d and any(
                f.endswith('.py') for f in fs):
            dirs.append(d)
    for d in dirs:
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                try:
                    with open(os.path.join(d, f), encoding='utf-8',
                              errors='replace') as h:
                        scan(ast.parse(h.read()).body)
                except SyntaxError:
                    pass
    graph.pop('__init__', None)
    graph.pop('__main__', None)
    return graph


def closure(graph, con):
    q = (con.qual or '').split('.')
    todo = [con.node.name] + (q[-2:] if q[-1] == '__init__' else q[-1:])
    for x in con.requires_src + con.ensures_src:
        todo.extend(t for t in ''.join(
            ch if ch.isalnum() or ch == '_' else ' ' for ch in x).split())
    seen = set()
    while todo:
        n = todo.pop()
        if n not in seen and n not in SKIP_NAMES:
            todo.extend(graph.get(n, ()))
        seen.add(n)
    return sorted(seen)


SKIP_NAMES = set(['Schedule', 'Loader', 'GetGtfsFactory', 'filter', 'route',
                  'stop', 'trip', 'map', 'sort', 'add', 'get', 'update',
                  'items', 'append', 'Stop', 'Trip', 'Route', 'Shape',
                  'StopTime', 'Validate'])


def run_worker(contracts, seconds, seed):
    mods = sorted(set(c['name'].rsplit('.', 1)[0] for c in contracts))
    job = {'modules': mods, 'contracts': contracts, 'seconds': seconds,
           'seed': seed}
    env = dict(os.environ, PYVC_SPECS=SPECS, PYVC_REPO=REPO,
               PYTHONDONTWRITEBYTECODE='1', TZ='UTC')
    env['JAVA_OPTS'] = env.get('JAVA_OPTS', '') + ' -Xss8m -Xmx1500m'
    try:
        p = subprocess.run(
            [JYTHON, os.path.join(HERE, 'jy', 'worker.py')],
            input=json.dumps(job).encode(), env=env, cwd='/tmp',
            stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            timeout=seconds * 1.5 + 90)
    except subprocess.TimeoutExpired:
        return {'contracts': [], 'error': 'the Jython run timed out'}
    for l in p.stdout.decode('utf-8', 'replace').splitlines():
        if l.startswith('@@RESULT'):
            return json.loads(l[8:])
    return {'contracts': [], 'error': 'no result from Jython: ' +
            p.stderr.decode('utf-8', 'replace')[-1500:]}


def cross_check(jobs, seconds, seed, nproc=6):
    """jobs: worker contract entries.  Returns name -> result, errors."""
    if not jobs:
        return {}, []
    n = min(nproc, len(jobs))
    groups = [[] for _ in range(n)]
    for j in sorted(jobs, key=lambda j: -j['cases']):
        min(groups, key=lambda g: sum(x['cases'] for x in g)).append(j)
    groups = [g for g in groups if g]
    out, errs = {}, []
    with cf.ThreadPoolExecutor(n) as ex:
        for g, r in zip(groups, ex.map(
                lambda g: run_worker(g, seconds, seed), groups)):
            if r.get('error'):
                errs.append(r['error'])
            for c in r.get('contracts', []):
                out[c['name']] = c
            for j in g:
                if j['name'] not in out:
                    out[j['name']] = {'name': j['name'], 'runs': 0,
                                      'skipped': 0, 'mismatch': None,
                                      'error': r.get('error', 'no result')}
    return out, errs


def load_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {'findings': [], 'fixed': []}


def check(prop, tier, seed):
    t0 = time.time()
    limit = 780 if tier == 'quick' else 840
    deadline = t0 + limit * 0.6
    decls, cons = load_all()
    byname = dict((c.name, c) for c in cons)
    byqual = {}
    for c in cons:
        if c.kind == 'contract' and c.modular:
            byqual[c.qual] = c
    todo = [c for c in cons if prop in c.props]
    if not todo:
        raise SystemExit('no contract for %s' % prop)
    selected = dict((c.name, c) for c in todo)
    proofs = {}

    def provable(c):
        return c.kind in ('contract', 'lemma') and not c.bounded and \
            c.modular != 'assumed'

    with cf.ThreadPoolExecutor(8) as ex:
        pend = {}

        def submit(c):
            if provable(c) and c.name not in proofs:
                proofs[c.name] = None
                pend[ex.submit(run_proof, c, tier, seed, deadline)] = c
        for c in sorted(todo, key=lambda c: -c.budget):
            submit(c)
        while pend:
            done, _ = cf.wait(list(pend), return_when=cf.FIRST_COMPLETED)
            for f in done:
                c = pend.pop(f)
                proofs[c.name] = r = f.result()
                for q in r.get('used', []):     # callee contracts
                    d = byqual.get(q)
                    if d is not None and d.name not in selected:
                        selected[d.name] = d
                        submit(d)
    t_proof = time.time() - t0
    findings = load_findings()
    known = dict((k['scenario'], k) for k in findings.get('findings', [])
                 if k['property'] == prop)

    # --- the real code against the contracts
    anyfail = any(not r['ok'] for r in proofs.values())
    jobs = []
    graph = name_graph()
    for c in selected.values():
        if not c.runtime:
            continue
        r = proofs.get(c.name)
        cases = c.cases * (10 if tier == 'thorough' else 1)
        inputs = []
        lits = {'int': [], 'str': [], 'float': []}
        if r is not None:
            lits = r.get('literals') or lits
            inputs = [f['inputs'] for f in r['failures'] if f.get('inputs')]
            if not r['ok']:
                cases = max(cases * 10, 5000)
        if anyfail and c.kind == 'scenario':
            cases = cases * 3
        jobs.append({'name': c.name, 'cases': cases, 'inputs': inputs[:8],
                     'literals': lits, 'attrs': closure(graph, c)})
    remaining = limit - (time.time() - t0)
    secs = min(remaining * 0.5, 400 if tier == 'thorough' else
               (150 if anyfail else 30))
    runs, errs = cross_check(jobs, max(secs, 20), seed)

    # --- verdict
    viol = []
    lines = []
    for name in sorted(selected):
        c = selected[name]
        r = proofs.get(name)
        x = runs.get(name)
        if name in known:
            k = known[name]
            if x and x.get('mismatch'):
                lines.append('KNOWN-FINDING: property=%s %s' % (
                    prop, k['what']))
            else:
                lines.append('NOTE: known finding %s did not reproduce' %
                             name)
            continue
        if x and x.get('mismatch'):
            viol.append((c, r, x, True))
        elif r is not None and not r['ok']:
            viol.append((c, r, x, False))
        elif x and x.get('error'):
            viol.append((c, r, x, False))
    rdir = os.path.join(EVID, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, f))
    for i, (c, r, x, concrete) in enumerate(
            sorted(viol, key=lambda v: not v[3]), 1):
        path = os.path.join(rdir, '%s-%d.json' % (prop, i))
        rec = {'property': prop, 'contract': c.name, 'target': c.qual,
               'kind': c.kind, 'requires': c.requires_src,
               'failed_obligations': [dict(
                   obligation=f['obligation'], kind=f['kind'],
                   verifier_output=f['detail'], counterexample=f['inputs'])
                   for f in (r or {}).get('failures', [])[:10]],
               'run': x}
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1, default=str)
        what = ''
        if concrete:
            what = x['mismatch']
        elif r is not None and not r['ok']:
            what = '%s: %s' % (r['failures'][0]['obligation'],
                               r['failures'][0]['detail'])
        else:
            what = x.get('error')
        print('%s [%s] %s' % (c.name, c.qual, str(what)[:700]))
        print('VIOLATION property=%s replay=%s%s' % (
            prop, path, '' if concrete else ' no-failing-input-found'))
    for l in lines:
        print(l)
    write_evidence(prop, tier, seed, selected, proofs, runs, viol, errs,
                   t_proof, time.time() - t0, lines, byqual)
    n_ok = sum(1 for r in proofs.values() if r['ok'])
    print('%s: %d/%d contracts proved, %d obligations, %d runs of the real '
          'code, %.0f s' % (prop, n_ok, len(proofs), sum(
              r.get('obligations', 0) for r in proofs.values()), sum(
              x.get('runs', 0) for x in runs.values()), time.time() - t0))
    return 1 if viol else 0


def manifest_level(prop):
    try:
        with open(os.path.join(HERE, 'MANIFEST.json')) as f:
            for c in json.load(f)['checks']:
                if c['property'] == prop:
                    return c['level']
    except Exception:
        pass
    return None


def write_evidence(prop, tier, seed, selected, proofs, runs, viol, errs,
                   t_proof, wall, lines, byqual):
    obl = sum(r.get('obligations', 0) for r in proofs.values())
    dis = sum(r.get('discharged', 0) for r in proofs.values())
    backends = {}
    for r in proofs.values():
        for k, v in (r.get('backends') or {}).items():
            backends[k] = backends.get(k, 0) + v
    inl = set()
    for r in proofs.values():
        inl.update(r.get('inlined', []))
    assumed = sorted(c.qual for c in selected.values()
                     if c.modular == 'assumed')
    bounded = [c for c in selected.values()
               if c.kind == 'scenario' or c.bounded or c.modular == 'assumed']
    level = manifest_level(prop) or ('proof' if proofs else 'exploration')
    samples = []
    for x in runs.values():
        for s in (x.get('samples') or [])[:1]:
            if len(samples) < 3:
                samples.append({'contract': x['name'], 'input': s})
    cov = {
        'obligations': obl,
        'discharged': dis,
        'checker_cmd': 'python3-vt check.py %s' % prop,
        'trusted_base': ['/verif/pyvc (verification-condition generator)',
                         'z3 (python bindings)', 'cvc5',
                         'CPython ast parser on /repo sources',
                         'library axioms in /verif/pyvc/lib.py'],
        'contracts': [dict(
            contract=n, function=selected[n].qual,
            kind=selected[n].kind,
            requires=selected[n].requires_src,
            obligations=r.get('obligations'), discharged=r.get('discharged'),
            by_kind=r.get('obligation_kinds'), backends=r.get('backends'),
            paths=r.get('paths'), feasible_paths=r.get('feasible'),
            loops=[l[1] for l in r.get('loops', [])],
            callee_contracts=r.get('used'), inlined=r.get('inlined'),
            solver_s=r.get('solver_s'), seconds=r.get('seconds'),
            accepted=r['ok'])
            for n, r in sorted(proofs.items())],
        'functions_under_contract': sorted(set(
            selected[n].qual for n in proofs if selected[n].qual)),
        'functions_verified_inside_a_caller': sorted(inl),
        'backends': backends,
        'solver_s': round(sum(r.get('solver_s', 0) or 0
                              for r in proofs.values()), 2),
        'proof_wall_s': round(t_proof, 2),
        'assumed_contracts': assumed,
        'bounded_checks': [dict(
            name=c.name, function=c.qual, bound=c.bounded or (
                'runs listed below, random inputs from seed'),
            runs=runs.get(c.name, {}).get('runs', 0))
            for c in bounded],
        'evaluations': sum(x.get('runs', 0) for x in runs.values()),
        'distinct_nontrivial': sum(x.get('distinct', 0)
                                   for x in runs.values()),
        'rule': 'type-directed random inputs (seed %d) built from the '
                'literals of the code and value pools; non-trivial: the '
                'preconditions hold; distinct by serialised input; real code '
                'and contract are both executed under Jython and compared. '
                'Not counted as proof.' % seed,
        'samples': samples or [{'note': 'no run-time cases'}],
        'runtime': dict((n, dict((k, x.get(k)) for k in (
            'runs', 'skipped', 'distinct', 'seconds', 'error',
            'skip_error')))
            for n, x in sorted(runs.items())),
        'explanation': 'Each contract is an executable specification; the '
                       'verifier proves the real function (parsed from /repo '
                       'in this run) equivalent to it for all inputs meeting '
                       'the preconditions, loops by inferred invariants.',
        'known_findings': lines,
        'worker_errors': errs,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': cov,
          'assumptions': BASE_ASSUMPTIONS + sorted(set(
              c.why for c in selected.values() if c.why)) +
          ['assumed contract: ' + q for q in assumed],
          'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    x = rec.get('run') or {}
    job = {'name': rec['contract'], 'cases': 0, 'literals': {},
           'inputs': [x['input']] if x.get('input') else []}
    if isinstance(x.get('input'), dict) and 'scenario_seed' in x['input']:
        job = {'name': rec['contract'], 'cases': 1,
               'seeds': [x['input']['scenario_seed']]}
    if not x.get('input'):
        print(json.dumps(rec['failed_obligations'], indent=1)[:6000])
        return 1
    r = run_worker([job], 60, 1)
    print(json.dumps(r, indent=1))
    return 1 if any(c.get('mismatch') for c in r['contracts']) else 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop', nargs='?')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--replay')
    o = a.parse_args()
    if o.replay:
        sys.exit(replay(o.replay))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        rc = check(o.prop, 'thorough' if o.tier == 'thorough' else 'quick',
                   seed)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
"""Proves the contracts of one spec module (or some of them): pf.py spec_x [names]"""
import sys, os, json, subprocess, concurrent.futures as cf
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from pyvc.contracts import load_all
mod, names = sys.argv[1], sys.argv[2:]
d, cons = load_all()
todo = [c for c in cons if (c.module == mod or c.module == 'spec_' + mod) and c.kind != 'scenario'
        and (not names or c.node.name in names) and not c.bounded and c.modular != 'assumed']
T = os.environ.get('T', '200')
def run(c):
    try:
        p = subprocess.run([sys.executable, '-m', 'pyvc.prove', c.name] , cwd=H, env=dict(os.environ, PYTHONPATH=H), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=float(T))
        return json.loads(p.stdout.decode().strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        return None
    except Exception as e:
        return {'ok': False, 'failures': [{'obligation': 'crash', 'kind': '', 'detail': p.stderr.decode()[-700:], 'inputs': None}]}
with cf.ThreadPoolExecutor(8) as ex:
    for c, r in zip(todo, ex.map(run, todo)):
        if r is None:
            print('TIME', c.node.name); continue
        if r['ok'] and os.environ.get('Q') and (r.get('seconds') or 0) < 5: continue
        print('ok  ' if r['ok'] else 'FAIL', c.node.name, r.get('seconds'), r.get('obligations'), 'paths', r.get('feasible'))
        for f in r['failures'][:3]:
            print('     ', f['obligation'], f['kind'], f['detail'][-500:], json.dumps(f['inputs'])[:600])

#!/usr/bin/env python3
"""Runs the run-time cross-check of the contracts of a module."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
from pyvc.contracts import load_all
d, cons = load_all()
g = check.name_graph()
names = sys.argv[2:]
jobs = []
for c in cons:
    if (c.module == 'spec_' + sys.argv[1] or sys.argv[1] in c.props) and c.runtime and (
            not names or c.node.name in names):
        jobs.append({'name': c.name, 'cases': int(os.environ.get('N', 400)),
                     'inputs': [], 'literals': {'int': [], 'str': [],
                                                'float': []},
                     'attrs': check.closure(g, c)})
runs, errs = check.cross_check(jobs, float(os.environ.get('T', 60)), 1)
for n, r in sorted(runs.items()):
    print(n.split('.')[1], 'runs', r.get('runs'), 'skipped',
          r.get('skipped'), 'distinct', r.get('distinct'), 's',
          r.get('seconds'))
    for k in ('skip_error', 'mismatch', 'error'):
        if r.get(k):
            print('   ', k, str(r[k])[-1500:])
    if r.get('mismatch') and os.environ.get('V'):
        print('    input', str(r.get('input'))[:3000])
print(str(errs)[:2000])

#!/usr/bin/env python3
"""mkseed.py SEEDS.py [ids]: builds and confirms planted bugs in a scratch copy.

SEEDS.py defines SEEDS = [dict(id, prop, file, old, new, demo, needs, breaks)].
(edits: `file/old/new` or `edits=[(file, old, new), ...]`.)
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''# -*- coding: utf-8 -*-
import os, sys
sys.path.insert(0, os.getcwd())
import transitfeed


class Acc(transitfeed.ProblemAccumulatorInterface):
    """Keeps every problem."""
    def __init__(self):
        self.problems = []

    def _Report(self, e):
        self.problems.append(e)

    def names(self):
        return [(e.__class__.__name__, getattr(e, 'column_name', None))
                for e in self.problems]


def reporter():
    acc = Acc()
    return acc, transitfeed.ProblemReporter(acc)


'''
DEMO = '''#!/bin/bash
export TZ=UTC
exec /opt/jy/bin/jython "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = set(sys.argv[2:])
    runtests = os.environ.get('NOTEST') is None
    for s in ns['SEEDS']:
        if ids and s['id'] not in ids:
            continue
        W = '/tmp/seedw.%d' % os.getpid()
        shutil.rmtree(W, ignore_errors=True)
        shutil.copytree('/repo', W, symlinks=True)
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.py', 'w') as f:
            f.write(PRE + s['demo'].lstrip('\n'))
        with open(d + '/demo.sh', 'w') as f:
            f.write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        msg = []
        rc, out = sh('bash %s/demo.sh' % d, cwd=W)
        if rc != 0:
            msg.append('DEMO FAILS ON CLEAN: ' + out[-600:])
        for fn, old, new in s.get('edits') or [(s['file'], s['old'],
                                                s['new'])]:
            p = os.path.join(W, fn)
            t = open(p, encoding='utf-8').read()
            if t.count(old) != 1:
                msg.append('OLD TEXT %d times in %s' % (t.count(old), fn))
                continue
            open(p, 'w', encoding='utf-8').write(t.replace(old, new))
        rc, out = sh('git diff', cwd=W)
        open(d + '/patch.diff', 'w').write(out)
        rc, out = sh('bash %s/demo.sh' % d, cwd=W)
        if rc == 0:
            msg.append('DEMO PASSES WITH PATCH')
        env = dict(os.environ, PYVC_REPO=W, PYVC_EVIDENCE='/tmp/seedev')
        rc, out = sh('python3-vt check.py %s' % s['prop'], cwd=HERE, env=env)
        v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        caught = rc == 1 and v
        conc = [l for l in v if not l.endswith('no-failing-input-found')]
        msg.append('check: ' + ('CAUGHT concrete' if conc else
                                'CAUGHT no-input' if caught else
                                '**MISSED** rc=%d %s' % (rc, out[-300:])))
        if runtests:
            t = open('/opt/vp/test.sh').read().replace('/repo', W)
            open(W + '.test.sh', 'w').write(t)
            o = W + '.json'
            sh('bash %s.test.sh %s' % (W, o))
            b = json.load(open('/opt/vp/BASELINE.json'))['stable']
            pa = set(json.load(open(o))['passed'])
            bad = [x for x in b if x not in pa]
            msg.append('tests: %s' % ('ok' if not bad else 'BROKEN %d %s' % (
                len(bad), bad[:3])))
            for x in (W + '.test.sh', o):
                os.unlink(x)
        print(s['id'], s['prop'], '|', ' | '.join(msg), flush=True)
        shutil.rmtree(W, ignore_errors=True)


main()

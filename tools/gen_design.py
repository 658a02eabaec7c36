"""Writes the per-property part of DESIGN.md from the specifications."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc.contracts import load_all

_, cons = load_all()
man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
level = dict((c['property_id'] if 'property_id' in c else c['property'],
              c['level']) for c in man['checks'])
NOTES = {}
exec(open(os.path.join(HERE, 'tools', 'design_notes.py')).read())
out = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    cs = [c for c in cons if i in c.props]
    if not cs:
        continue
    def names(xs):
        seen = []
        for c in xs:
            n = (c.qual or c.node.name).replace('transitfeed.', '')
            if n not in seen:
                seen.append(n)
        return ', '.join('`%s`' % n for n in sorted(seen))
    proved = [c for c in cs if c.kind == 'contract' and not c.bounded and
              c.modular != 'assumed']
    lemmas = [c for c in cs if c.kind == 'lemma']
    bounded = [c for c in cs if c.kind == 'contract' and c.bounded]
    scen = [c for c in cs if c.kind == 'scenario']
    out.append('### %s %s (%s)\n' % (i, p['title'], level[i]))
    if i in NOTES:
        out.append(NOTES[i].strip() + '\n')
    if proved:
        out.append('* Proved: %s.' % names(proved))
    if lemmas:
        out.append('* Lemmas: %s.' % names(lemmas))
    if bounded:
        out.append('* Bounded, contract run against the code on random '
                   'inputs: %s.' % '; '.join(
                       '`%s` (%s)' % (c.qual.replace('transitfeed.', ''),
                                      c.bounded) for c in bounded))
    if scen:
        out.append('* Bounded scenarios: %s.' % '; '.join(
            '`%s` (%d runs quick: %s)' % (
                c.node.name, c.cases,
                ' '.join((__import__('ast').get_docstring(c.node) or '')
                         .split()).rstrip('.')) for c in scen))
    out.append('')
text = open(os.path.join(HERE, 'DESIGN.md')).read()
a, b = '<!-- generated -->\n', '<!-- end generated -->\n'
if '@@PROPS@@' in text:
    text = text.replace('@@PROPS@@', a + b)
i, j = text.index(a) + len(a), text.index(b)
text = text[:i] + '\n'.join(out) + '\n' + text[j:]
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(text)

#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md, a section per property from properties.jsonl, props.py and ORACLE, tools/design_tail.md, seeds."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, 'tools'))
import props
from design_oracles import ORACLE, CAUGHT
out = [open(os.path.join(V, 'tools/design_head.md')).read()]
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l); i = d['id']; p = props.PROPS.get(i)
    out.append('### %s %s\n\n' % (i, d['title']))
    if not p:
        out.append('Not applicable: %s.\n\n' % props.NOT_APPLICABLE.get(i, 'not built')); continue
    out.append('Oracle: %s\n\n' % ORACLE.get(i, 'the statement in properties.jsonl, asserted by the harness.'))
    out.append('Why beyond tests: %s Code: %s.\n\n' % (d['why_tests_cant'], ', '.join(d['anchors']['files'])))
    for e in p['entries']:
        out.append('* `%s` (harness/%s): %s\n' % (e['fn'], {**{}, **props.MODULES}[e['mod']]['harness'][0], e['bounds']))
    try:
        ev = json.load(open(os.path.join(V, 'evidence/%s.json' % i)))
        out.append('\nCost of the quick tier: about %.0f s on 8 cores.\n' % ev['wall_s'])
    except Exception: pass
    out.append('\n')
out.append(open(os.path.join(V, 'tools/design_tail.md')).read())
out.append('\n| planted bug | property | needs |\n|---|---|---|\n')
for f in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    m = json.load(open(f)); sid = f.split('/')[-2]
    out.append('| %s | %s (%s) | %s |\n' % (sid, m['property'], CAUGHT.get(sid, 'caught'), m['needs'].replace('|', '/')))
open(os.path.join(V, 'DESIGN.md'), 'w').write(''.join(out))

#!/usr/bin/env python3
"""Writes DESIGN.md from the head, properties.jsonl, specs.py, known_findings.json, the planted bugs and the tail."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import specs
head = open(V + '/tools/design_head.md').read().split('@PROPERTIES@')[0]
o = [head.rstrip(), '', '## Properties', 'All are decided with the same method: the entries below are executed symbolically, every branch and assertion is decided by the',
 'solver for all values within the bounds. For each: what is asserted (the oracle is in the harness), the bounds of the quick tier (and of the',
 'thorough tier after the arrow), what is assumed and what lies outside.', '']
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); s = specs.PROPS.get(p['id']); o += ['### %s %s' % (p['id'], p['title']), p['statement'], '', 'Beyond tests: ' + p['why_tests_cant'], '']
    if not s: o += ['Not applicable: ' + specs.NA.get(p['id'], '?'), '']; continue
    for j in s['jobs']:
        q, t = j['bounds']['quick'], j['bounds']['thorough']
        o.append('- `%s` (%s): %s%s' % (j['entry'], j['file'], q, '' if t == q or not t else ' → ' + t))
    if s.get('assumptions'): o.append('- assumes: ' + '; '.join(s['assumptions']))
    o += ['- outside: ' + s.get('outside', 'longer inputs'), '']
o += ['## Planted bugs', 'Confirmed with `tools/seed.sh` (builds, passes the tests, the demonstration fails only with the patch) and run with `tools/seedcheck.sh`.', '', '| bug | file | what it breaks | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/')):
    n = os.path.basename(d[:-1]); m = json.load(open(d + 'meta.json')); fs = [l[6:].replace('src/main/c/', '') for l in open(d + 'patch.diff').read().splitlines() if l.startswith('+++ b/')]
    o.append('| %s | %s | %s | %s |' % (n, ', '.join(fs), m['what_it_breaks'].replace('|', '\\|'), caught.get(n, m['property'])))
o += ['', open(V + '/tools/design_tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(o))

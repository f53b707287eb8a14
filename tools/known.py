#!/usr/bin/env python3
"""Regenerates known_findings.json: repaired defects from the fix: commits of /repo (listed here by title) and the known ones."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict((l.split(' ', 1)[1], l.split(' ', 1)[0]) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines())
exec(open(V + '/tools/findings.py').read())
out = []
for prop, title, what in FIXED:
    assert title in log, title
    out.append(dict(status='fixed', property=prop, commit=log[title], what='fixed: property=%s %s %s' % (prop, log[title], what)))
for l in log:
    if l.startswith('fix:') and l not in [t for _, t, _ in FIXED]: print('not listed:', l)
for k in KNOWN: out.append(dict(k, status='known'))
json.dump(out, open(V + '/known_findings.json', 'w'), indent=1)

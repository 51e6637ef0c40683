#!/usr/bin/env python3
"""design.py: rewrites the sections of DESIGN.md that repeat other files:
the repaired and recorded defects, and the table of planted bugs."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = here + '/DESIGN.md'
t = open(path).read()
t = t[:t.index('## Defects found')] if '## Defects found' in t else t
out = ['## Defects found\n',
       'Genuine defects, shown by the checks (or by reading, then by a case made to show them) against the real',
       'code. Each repair is a `fix:` commit of its own in /repo; known_findings.txt lists property and commit.\n']
fixed = {}
for l in open(here + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m:
        fixed.setdefault((m[2], m[3]), []).append(m[1])
    elif l.startswith('finding:'):
        m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', l)
        out.append(f'Recorded, not repaired ({m[1]}, `{m[2]}`): {m[3]}. The repair would need that test edited.\n')
out += ['| commit | repair | properties |', '|---|---|---|']
for (c, what), props in fixed.items():
    out.append(f"| {c} | {what} | {', '.join(props)} |")
out += ['', '## Planted bugs\n',
        'Each is in seeded/<id> with a demonstration; every one compiles, passes the tests, and fails its demonstration. "Caught by" is',
        'the quick check that was run against it and gave this verdict with seed 1 (its own property\'s first).\n',
        '| bug | property | needs | caught by |', '|---|---|---|---|']
caught = {}
p = here + '/tools/caught.tab'
if os.path.exists(p):
    for l in open(p):
        b, c, v = l.split()
        if v == 'caught':
            caught.setdefault(b, []).append(c)
for b in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{b}/meta.json'))
    cs = caught.get(b, [])
    cs.sort(key=lambda c: (c != m['property'], c))
    out.append(f"| {b} | {m['property']} | {m['needs']} | {', '.join(cs) or '-'} |")
open(path, 'w').write(t.rstrip() + '\n\n' + '\n'.join(out) + '\n')

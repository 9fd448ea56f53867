#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, seeded/*/meta.json and tools/design/caught.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(H, 'tools', 'design')
rd = lambda f: open(os.path.join(D, f)).read()
caught = json.loads(rd('caught.json'))
S = os.path.join(H, 'seeded')
rows = ['| change | needs | breaks | found as |', '|---|---|---|---|']
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, 'meta.json')))
    c = caught.get(i, {})
    rows.append('| %s%s (%s) | %s | %s | %s |' % (i, '*' if c.get('missed') else '', m['property'], m['needs'], m['what_it_breaks'], c.get('class', '?')))
open(os.path.join(H, 'DESIGN.md'), 'w').write(rd('head.md') + rd('middle.md') + '\n'.join(rows) + '\n' + rd('end.md'))

#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {'C05-near-conflict': 'masses close to a total conflict added', 'C07-thin-rect': 'thin rectangles added',
          'C15-weights-of-raw': 'margins and repeated points added', 'C16-gm-nearest': 'window contents with two occupied cells added',
          'C17-stale-cache': 'growing ranges added', 'C28-empty-scan': 'messages without usable readings added'}
missed.update(json.load(open(V + '/tools/first_missed.json')) if os.path.exists(V + '/tools/first_missed.json') else {})
rows = ['| Change | Needs | Breaks | Caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    p = f'{V}/seeded/{d}/meta.json'
    if not os.path.exists(p): continue
    m = json.load(open(p))
    c = m['property'] + (f' (first missed: {missed[d]})' if d in missed else '')
    esc = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    rows.append(f"| {d} | {esc(m['needs'])} | {esc(m['what_it_breaks'])} | {c} |")
s = open(V + '/DESIGN.md').read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if '@SEEDS@' in s: s = s.replace('@SEEDS@', t)
else: s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: t, s, flags=re.S)
n = sum(l.startswith('fixed:') for l in open(V + '/known_findings.txt'))
s = s.replace('@FIXED@', str(n))
open(V + '/DESIGN.md', 'w').write(s)

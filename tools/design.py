#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from known-findings.jsonl and the seeded bugs."""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/tools/DESIGN.in.md').read()
kf = [json.loads(l) for l in open(V + '/known-findings.jsonl') if l.strip()]
fixed = '\n'.join('| %s | %s | %s |' % (k['property'], k['what'].split(k['commit'] + ' ', 1)[1], k['commit']) for k in kf if k['status'] == 'fixed')
opn = '\n'.join('* **%s** `%s`: %s' % (k['property'], k['signature'], k['what']) for k in kf if k['status'] == 'open')
rows = []
d = V + '/seeded'
late = set(open(V + '/tools/first-missed.txt').read().split())
for i in sorted(os.listdir(d)):
    m = json.load(open('%s/%s/meta.json' % (d, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'], m['needs'], m['property'] + (' (missed at first)' if i in late else '')))
seeds = '| bug | what it breaks | what it needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows)
open(V + '/DESIGN.md', 'w').write(t.replace('@FIXED@', fixed).replace('@OPEN@', opn).replace('@SEEDS@', seeds))

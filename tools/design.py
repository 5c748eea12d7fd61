#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the property table, the rules the
analyzer registers, known_findings.txt, seeded/*/meta.json and tools/catches.txt.
usage: python3 tools/design.py   (in /verif, after ./run.sh setup)"""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
sys.dont_write_bytecode = True
from props import PROPS, NA, TECH
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules = {}
for l in subprocess.run([here + '/bin/vp', '-list'], capture_output=True, text=True).stdout.splitlines():
    i, t, r = l.split('\t', 2)
    rules[i] = r
cost = {}
for l in open(here + '/tools/cost.txt'):
    i, s = l.split()
    cost[i] = s
catches = {}
for l in open(here + '/tools/catches.txt'):
    k = l.split()
    if k:
        catches[k[0]] = k[1:]
out = open(here + '/tools/design_head.md').read() + '\n## 3 Properties\n\n'
for p in PROPS:
    if p['id'] in dict(NA):
        continue
    i = p['id']
    out += '### %s %s\n\n' % (i, p['title'])
    out += '*Technique:* %s.\n\n' % p.get('tech', TECH['ai'])
    out += '*What is decided:* %s\n\n' % rules[i]
    out += '*Bounds:* %s. ' % p['q'].rstrip('.')
    out += '*Cost:* about %s s (quick, 8 cores). ' % cost.get(i, '?')
    out += '*Beyond tests:* %s ' % p['why']
    out += '*Note:* %s\n\n' % p['note'].strip()
out += '## 4 Not decided (not_applicable)\n\n'
for i, r in NA:
    t = [p['title'] for p in PROPS if p['id'] == i][0]
    out += '* **%s %s**: %s\n' % (i, t, r)
out += open(here + '/tools/design_tail.md').read()
out += '\n## 8 Planted changes (seeded/)\n\n| change | property | what it breaks | caught by |\n|---|---|---|---|\n'
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(here + '/seeded/%s/meta.json' % d))
    out += '| %s | %s | %s | %s |\n' % (d, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' '), ' '.join(catches.get(d, ['not run'])))
open(here + '/DESIGN.md', 'w').write(out)

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below.
usage: python3 tools/gen.py   (in /verif)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NA, TECH
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = []
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        o = {'id': p['id'], 'title': p['title'], 'statement': p['st'],
             'quantifier': {'over': p['over'], 'text': p['q']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                         'observe_at': p['obs'], 'hook_needed': None}}
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(o, ensure_ascii=False) + '\n')
        if p['id'] not in dict(NA):
            claimed.append(p)
m = {'version': 1, 'setup_cmd': './run.sh setup',
     'checks': [{'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'], 'thorough_cmd': './run.sh %s thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p.get('tech', TECH['ai']), 'level': p.get('level', 'other'),
                 'level_note': p['note']} for p in claimed],
     'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
     'notes': 'All checks are static: the analyzer in analyzer/ loads the current source of /repo (go/packages, go/ssa), never compiles or runs it. See DESIGN.md.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write('\n')
print(len(PROPS), 'properties,', len(claimed), 'claimed')

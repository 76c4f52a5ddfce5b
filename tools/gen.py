#!/usr/bin/env python3
"""Regenerates properties.jsonl, MANIFEST.json and DESIGN.md from props.py,
design_head.md and design_tail.md."""
import json, os, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
sys.path.insert(0, T)
from props import P
NA = {}
try:
    from props import NOT_APPLICABLE as NA
except ImportError: pass
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
DEF = 'explicit-state bounded exhaustive exploration of the real implementation against an executable reference model'
m = {'version': 1, 'setup_cmd': 'python3 run.py build', 'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}
for p in P:
    if p['id'] in NA: continue
    assert os.path.exists(V + '/checks/%s.cpp' % p['id']), p['id']
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 run.py %s quick' % p['id'], 'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'] or DEF, 'level': p['level'],
        'level_note': 'Exhaustive within: ' + p['bounds'] + '. Every case is executed by the real code (built from the working tree), so each explored trace is an implementation trace.'})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
d = open(T + '/design_head.md').read()
for p in P:
    d += '\n### %s — %s\n\n%s\n\n*How it is decided.* %s\n\n*Bounds.* %s.\n' % (p['id'], p['title'], p['statement'], p['design'], p['bounds'])
    d += '\n*Why tests cannot.* %s\n' % p['why']
    if p['note']: d += '\n*Notes.* %s\n' % p['note']
d += '\n' + open(T + '/design_tail.md').read()
open(V + '/DESIGN.md', 'w').write(d)

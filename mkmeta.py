#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
from props import PROPS
H = os.path.dirname(os.path.abspath(__file__))
with open(H + '/properties.jsonl', 'w') as f:
    for p in PROPS.values():
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in p['state']],
                         'mechanism': [dict(zip(('name', 'where'), m)) for m in p['mechanism']], 'observe_at': p['observe'], 'hook_needed': p['hook']}}
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in PROPS.values():
    if 'quick' in p:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'deterministic simulation with seeded ' + p.get('tech', 'histories, crashes and faults against a reference model'),
                       'level': p.get('level', 'exploration'), 'level_note': p['note'] + ' Sampling, not proof. Assumes: ' + '; '.join(p['assumptions']) + '.'})
    else:
        na.append({'property': p['id'], 'reason': p['na']})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the seams are made outside it (the library is compiled from the working tree with instrumented memory accesses and its libc references renamed to the simulator). '
              'Known findings and repaired defects: known_findings.txt. Replay a plan: python3 check.py --replay FILE. Determinism self test: python3 check.py --selftest.'}
with open(H + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

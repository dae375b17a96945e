"""Writes properties.jsonl and MANIFEST.json from dst/about.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst import about
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for i, p in about.P.items():
        assert len(p['title']) <= 80, (i, len(p['title']))
        f.write(json.dumps({'id': i, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                                        'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Deterministic simulation with fault injection. No hooks in /repo: all seams exist in the code (SUL and Oracle interfaces, '
              'random, time, builtins.input/open, subprocess, threading) and are replaced from /verif. See DESIGN.md.'}
for i, p in about.P.items():
    if p.get('na'):
        m['not_applicable'].append({'property': i, 'reason': p['na']})
        continue
    m['checks'].append({'property': i, 'quick_cmd': f'./check {i} quick', 'thorough_cmd': f'./check {i} thorough',
                        'evidence_file': f'evidence/{i}.json', 'technique': 'deterministic simulation with fault injection: seeded search over '
                        'simulated runs', 'level': 'exploration',
                        'level_note': p['how'] + '. Assumes: ' + '; '.join(p['assume']) + '. Trusts the simulator and reference models in dst/.'})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from properties.py and checks.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from properties import P
from checks import CHECKS, NOT_APPLICABLE, HOOK_COMMITS
with open(V + '/properties.jsonl', 'w') as o:
    for k in sorted(P):
        assert len(P[k]['title']) <= 80, k
        a = P[k]['anchors']; a['files'] = [f for f in a['files'] if os.path.exists('/repo/' + f)]
        a['mechanism'] = [m for m in a['mechanism'] if os.path.exists('/repo/' + m['where'])] or [{'name': a['mechanism'][0]['name'], 'where': a['files'][0]}]
        o.write(json.dumps(P[k]) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks build the unmodified sources', 'source_commits': HOOK_COMMITS},
     'checks': [], 'not_applicable': []}
for k in sorted(CHECKS):
    c = CHECKS[k]
    m['checks'].append({'property': k, 'quick_cmd': 'python3 tools/run.py %s quick' % k, 'thorough_cmd': 'python3 tools/run.py %s thorough' % k,
                        'evidence_file': 'evidence/%s.json' % k, 'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
for k in sorted(P):
    if k not in CHECKS:
        m['not_applicable'].append({'property': k, 'reason': NOT_APPLICABLE.get(k, 'no check has been built for it yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

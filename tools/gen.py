#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, qtext, why, files, mech, over=('inputs',), observe=(), state=(), tech='', note='', claimed=True, na=''):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files, mech=mech,
                  observe=list(observe), state=list(state), tech=tech, note=note, claimed=claimed, na=na))

exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'state': [dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                        'mechanism': [dict(name=a, where=b) for a, b in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
M = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 vrun.py %s quick' % p['id'], 'thorough_cmd': 'python3 vrun.py %s thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['tech'] or 'runtime monitoring under ASan/UBSan: online reference oracle over randomized workloads',
                 'level': 'exploration', 'level_note': p['note']} for p in P if p['claimed']],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if not p['claimed']],
     'notes': 'No hooks in /repo: every monitor sits at public interfaces. Known findings and fixes: known_findings.txt. Method: DESIGN.md.'}
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

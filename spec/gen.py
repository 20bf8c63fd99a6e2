#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, re, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
from props import P
V = os.path.dirname(D)
rules = set()
for f in os.listdir(V + '/analysis/rules'):
    if f.endswith('.py'):
        rules |= set(re.findall(r"^@rule\('(\w+)'", open(f'{V}/analysis/rules/{f}').read(), re.M))
with open(V + '/properties.jsonl', 'w') as o:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        for f in p['files']:
            assert os.path.exists('/repo/' + f), (p['id'], f)
        for m in p['mech']:
            assert os.path.exists('/repo/' + m[1]), (p['id'], m)
        o.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                        'state': [{'name': a, 'meaning': b, 'where': w} for a, b, w in p['state']]}}) + '\n')
checks = []
for p in P:
    if p['na']:
        assert p['id'] not in rules
        continue
    assert p['id'] in rules, f"no rule for {p['id']}"
    checks.append({'property': p['id'], 'quick_cmd': f"./check {p['id']} quick", 'thorough_cmd': f"./check {p['id']} thorough",
                   'evidence_file': f"evidence/{p['id']}.json", 'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']})
extra = rules - {p['id'] for p in P}
assert not extra, extra
json.dump({'version': 1, 'setup_cmd': 'python3 analysis/extract.py main && python3 analysis/extract.py browser', 'checks': checks,
           'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
           'notes': 'No hooks in /repo. The fixes are listed in known-findings.txt.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(P) - len(checks), 'not applicable')

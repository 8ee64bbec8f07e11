#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (PROPS) so that they stay in step."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U, S, SO, MO = 'coniii/utils.py', 'coniii/samplers.py', 'coniii/solvers.py', 'coniii/models.py'
CPP, PYX = 'cpp/samplers.cpp', 'cpp/py.cpp'
AI = 'abstract interpretation of the source (value numbering into canonical polynomials, loops unrolled at fixed sizes or summarised)'
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique=None, level='proof', note=None, na=None, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, level=level, note=note, na=na, state=state, observe=observe or []))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
                            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks, na = [], []
for p in PROPS:
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
                   'technique': p['technique'] or AI, 'level': p['level'], 'level_note': p['note'] or ''})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis only: no check imports or runs code of the repository. python3 (stdlib) and clang (AST dump of cpp/) are all that is needed.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')

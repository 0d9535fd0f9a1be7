#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, q, why, files, mech, technique, note, level='other', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, technique=technique, note=note, level=level, na=na))
VF = 'whole-call value-flow analysis of the LLVM IR (gated SSA value numbering, intervals, constant-trip unrolling); '
exec(open(V + '/tools/table.py').read())
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
M = {'version': 1, 'setup_cmd': 'python3-vt setup.py', 'checks': [], 'not_applicable': []}
for p in P:
    if p['na']: M['not_applicable'].append({'property': p['id'], 'reason': p['na']}); continue
    M['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + p['id'],
                        'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1)

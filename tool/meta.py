#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def claim(id, title, statement, over, q, why, files, mech, technique, note, level='other', thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, na=None))


def na(id, title, statement, over, q, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, na=reason))


ALG = ('algebraic value numbering (SSA dataflow to normal forms over the reals) of the LLVM IR compiled from the current sources, '
       'one obligation per residual of each law')
ALGNOTE = ('Every law is decided for all real inputs and all branch outcomes, in exact real arithmetic: rounding, overflow, NaN and infinities '
           'are outside the claim. A residual that the normal form cannot settle and that no input assignment refutes is reported as undecided, '
           'never as an alarm. Trusts clang -O2 lowering and the analyser in lib/.')

exec(open(os.path.join(V, 'tool', 'properties.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'].split(), 'text': p['q']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'].split(), 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
M = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': [], 'not_applicable': []}
for p in P:
    if p['na']:
        M['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        M['checks'].append({'property': p['id'], 'quick_cmd': 'bin/check %s' % p['id'], 'thorough_cmd': 'bin/check %s --thorough' % p['id'],
                            'technique': p['technique'], 'level': p['level'], 'level_note': p['note'],
                            'evidence_file': 'evidence/%s.json' % p['id']})
M['notes'] = 'Static analysis only: no check executes code of /repo. See DESIGN.md.'
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print('%d properties, %d claimed' % (len(P), len(M['checks'])))

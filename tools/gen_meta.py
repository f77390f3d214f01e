#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'nimble/core/data/'
AX = [D + 'axis.py', D + 'points.py', D + 'features.py', D + 'listAxis.py',
      D + 'matrixAxis.py', D + 'dataframeAxis.py', D + 'sparseAxis.py']
STORES = [D + 'list.py', D + 'matrix.py', D + 'dataframe.py', D + 'sparse.py']

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note,
         state=None, level='model_checking'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mech=mech, technique=technique,
                  note=note, state=state or [], level=level))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'state': p['state'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'hook_needed': None}}) + '\n')

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(V, 'mc', 'checks', p['id'] + '.py')):
        checks.append({'property': p['id'],
                       'quick_cmd': './run.sh %s --tier quick' % p['id'],
                       'thorough_cmd': './run.sh %s --tier thorough' % p['id'],
                       'technique': p['technique'], 'level': p['level'],
                       'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': na + NOT_APPLICABLE,
     'notes': 'No hooks in /repo: every check drives the public API.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties', len(checks), 'checks')

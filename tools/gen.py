#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique='', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, technique=technique, note=note, na=na))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        if p['state']:
            d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        if p['observe']:
            d['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(d) + '\n')

checks, na = [], []
for p in P:
    have = os.path.exists(os.path.join(V, 'mc', 'checks', p['id'].lower() + '.py'))
    if p['na'] or not have:
        na.append({'property': p['id'], 'reason': p['na'] or 'the check for this property is still being built'})
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
                   'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
               'notes': 'Pure Python: nothing is compiled; every check imports the library from /repo as it stands, one forked process per job. '
                        './check replay FILE re-runs the job of a recorded violation. No hooks are needed in /repo.'}, f, indent=1)
    f.write('\n')
print(len(P), 'properties', len(checks), 'checks', len(na), 'not claimed')

#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               hook_needed=None),
                  _technique=technique, _note=note))


exec(open(os.path.join(HERE, 'props_table.py')).read())

NOT_APPLICABLE = globals().get('NOT_APPLICABLE', [])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    for d in NOT_APPLICABLE:
        if '_prop' in d:
            f.write(json.dumps(d['_prop']) + '\n')
checks = [dict(property=p['id'], quick_cmd='./check.py %s quick' % p['id'],
               thorough_cmd='./check.py %s thorough' % p['id'],
               technique=p['_technique'], level='model_checking', level_note=p['_note']) for p in P]
m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
         not_applicable=[dict(property=d['property'], reason=d['reason']) for d in NOT_APPLICABLE])
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties')

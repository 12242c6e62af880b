#!/usr/bin/env python3
"""Writes DESIGN.md from design_text.md, design_oracles.py, the property table, the checks' stated bounds, the seeds and their results,
known_findings.txt and design_tail.md (run by hand with /opt/venv/bin/python, PYTHONPATH=/verif/stubs:/repo)."""
import ast
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
P = {}


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, technique=technique, note=note)


exec(open(os.path.join(HERE, 'props_table.py')).read())
ORACLE = {}
exec(open(os.path.join(HERE, 'design_oracles.py')).read())
seeds = {}


def seed(id, property, needs, breaks, edits, demo):
    seeds[id] = (property, breaks, needs)


exec(open(os.path.join(HERE, 'seeds_table.py')).read())
results = json.load(open(os.path.join(HERE, 'seed_results.json')))
out = open(os.path.join(HERE, 'design_text.md')).read()
out += '## Properties\n\n'
for id, p in P.items():
    out += '### %s. %s\n\n' % (id, p['title'])
    out += '%s\n\n' % p['statement']
    bounds = json.load(open(os.path.join(HERE, 'evidence', id + '.json'))) if os.path.exists(os.path.join(HERE, 'evidence', id + '.json')) else None
    src = open(os.path.join(HERE, 'checks', id.lower() + '.py')).read()
    ass = [ast.literal_eval(n.value) for n in ast.parse(src).body if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS']
    out += '* Enumerated: %s.\n' % p['text']
    if bounds:
        out += '* Bounds (quick): %s.\n' % bounds['coverage']['bounds']
        c = bounds['coverage']
        out += '* Size and cost (quick): %d executions of the real code, %d states, %d calls, about %d s on 8 cores.\n' % (
            c['traces_validated_against_impl'], c['states'], c['transitions'], round(bounds['wall_s']))
    out += '* Oracle: %s\n' % ORACLE[id]
    if ass and ass[0]:
        out += '* Assumed: %s.\n' % '; '.join(ass[0])
    out += '* Beyond the tests: %s.\n' % p['why']
    mine = [s for s in seeds if seeds[s][0] == id]
    if mine:
        out += '* Planted changes: %s.\n' % ', '.join('%s (%s)' % (s, results.get(s, 'not run')) for s in mine)
    out += '\n'
out += '## Planted changes\n\nEach is in seeded/ID with a demonstration; the result is that of the quick check of its property.\n\n'
for s, (p, b, n) in seeds.items():
    out += '* %s (%s, %s): %s. Needs %s.\n' % (s, p, results.get(s, 'not run'), b, n)
out += '\n## Defects found and repaired\n\nOne "fix:" commit each, found by the check of the property named.\n\n'
for l in open(os.path.join(HERE, "known_findings.txt")):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        out += '* %s, %s: %s\n' % m.groups()
    elif l.startswith('known:'):
        out += '* **not repaired** ' + l
out += '\n' + open(os.path.join(HERE, 'design_tail.md')).read()
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(out)

#!/usr/bin/env python3
"""Writes known_findings.txt: one 'fixed:' line per repair in /repo (property told by the table below), then the 'known:' lines."""
import subprocess
ORDER = ['T01', 'T01', 'T02', 'T02', 'T03', 'M01', 'D01', 'D01', 'D01', 'D02', 'D02', 'D03', 'D03', 'D03', 'D03', 'D03', 'D03', 'D04', 'S01', 'S01',
         'S02', 'S02', 'S04', 'S05', 'S05', 'S05', 'S05', 'S05', 'E02', 'N01', 'E04', 'E04', 'E05', 'E05', 'E05', 'E05', 'M01', 'M01', 'M01',
         'M01', 'M02', 'M02', 'M02', 'M02', 'M02', 'M03', 'M03', 'M04', 'S04', 'S04', 'M04', 'M04', 'M04', 'M04', 'M05', 'A02', 'A03', 'A03', 'A04',
         'A04', 'A04', 'A04', 'A04', 'A04', 'L02', 'L02', 'L01', None, 'A05', 'A05']
# later repairs: abbreviated hash -> property
LATER = {k: 'C01' for k in ('the AMPds', 'the COMBED', 'the HIPE', 'the DEDDIAG', 'the GREEND', 'the UK-DALE', 'the iAWE', 'the IDEAL')}
LATER['the shortest on and off durations'] = 'E03'
LATER['a measurement with only one limit'] = 'N01'
LATER['the legacy FHMM mapped'] = LATER['legacy models could not'] = 'A06'
LATER['no activity script'] = LATER['a building without submeters'] = 'D05'
KNOWN = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixes = [l.split(' ', 1) for l in log if ' fix: ' in l and 'Revert' not in l]
with open('/verif/known_findings.txt', 'w') as f:
    for i, (h, s) in enumerate(fixes):
        p = ORDER[i] if i < len(ORDER) else next((v for k, v in LATER.items() if s[5:].startswith(k)), '?')
        if p:
            f.write('fixed: property=%s %s %s\n' % (p, h, s[5:]))
        if p == '?':
            print('unassigned', h, s)
    for k in KNOWN:
        f.write(k + '\n')

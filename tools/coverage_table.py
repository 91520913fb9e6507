#!/usr/bin/env python3
"""Prints the coverage table of DESIGN.md from evidence/ (a run of all checks), and the table of planted bugs from seeded/."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| | scenarios | exhausted | bounds completed | executions | states | transitions | wall s |\n|---|---|---|---|---|---|---|---|')
tot = [0] * 4
for f in sorted(glob.glob(V + '/evidence/C*.json')):
    e = json.load(open(f)); c = e['coverage']; s = [x for x in c['scenarios'] if x['build'] == 'checks']
    b = [x['bound_completed'] for x in s if not x['exhausted']]
    print('| %s | %d | %d | %s | %s | %s | %s | %.0f |' % (e['property'], len(s), sum(x['exhausted'] for x in s), '%d–%d' % (min(b), max(b)) if b else '–',
        *('{:,}'.format(c[k]).replace(',', ' ') for k in ('executions', 'states', 'transitions')), e['wall_s']))
    for i, k in enumerate(('executions', 'states', 'transitions')): tot[i] += c[k]
    tot[3] += e['wall_s']
print('| all | | | | %s | %s | %s | %.0f |' % (*('{:,}'.format(x).replace(',', ' ') for x in tot[:3]), tot[3]))
print()
by = {}
for f in glob.glob(V + '/seeded/*/meta.json'):
    by.setdefault(json.load(open(f))['property'], []).append(os.path.basename(os.path.dirname(f)))
for p in sorted(by): print('| %s | %s |' % (p, ', '.join(sorted(by[p]))))

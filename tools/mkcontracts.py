#!/usr/bin/env python3
"""Write CONTRACTS.md: functions under contract per property, assumed functions."""
import os, re, collections, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import vgen, verus_stage
g = vgen.Gen(os.environ.get('VERIF_REPO', '/repo'), os.path.join(ROOT, 'verus'))
g.build(verus_stage.order(os.path.join(ROOT, 'verus')), {})
per, where = collections.defaultdict(set), {}
for a, b, q, m, _ in g.ranges:
    where[q] = m
    for p in g.props_at(a):
        per[p].add(q)
o = ['# Contracts (written by tools/mkcontracts.py)', '', '%d functions and tables of /repo/src are extracted and under contract.' % len(where), '']
for p in sorted(per):
    o += ['**%s** (%d): %s' % (p, len(per[p]), ', '.join('`%s`' % q for q in sorted(per[p]))), '']
o += ['## Assumed (body not verified)', '']
L = g.lines
for i, l in enumerate(L):
    if 'external_body' in l or 'assume_specification' in l or re.search(r'\badmit\(\)|\bassume\(', l):
        j = i
        while j < len(L) and not re.search(r'\bfn\b|assume_specification|\bstruct\b|static', L[j]):
            j += 1
        o.append('* `%s`' % re.sub(r'\s+', ' ', L[j]).strip()[:160])
open(os.path.join(ROOT, 'CONTRACTS.md'), 'w').write('\n'.join(o) + '\n')

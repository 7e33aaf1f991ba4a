#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from levels import LEVELS
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    level, tech, note = LEVELS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=tech, level=level, level_note=note))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[],
         hooks=dict(guard='none (no instrumentation in /repo; all commits there are fix: commits)', enable='nothing to enable', source_commits=[]),
         notes='Each check regenerates its verified text from /repo on every run; see DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

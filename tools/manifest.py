#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks in harness/cmd and the notes below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
notes = json.load(open(os.path.join(here, 'checks.json')))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    n = notes.get(i)
    if n and os.path.exists(os.path.join(root, 'harness/cmd', i, 'main.go')):
        checks.append(dict(property=i, quick_cmd='./check ' + i,
            thorough_cmd='VERIF_TIER=thorough ./check ' + i,
            technique=n['technique'], level=n['level'], level_note=n['note']))
    else:
        na.append(dict(property=i, reason='its check is not built yet'))
m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
    notes='No hooks are committed in /repo: the checks that need a controlled scheduler, clock or network instrument a scratch copy of the current tree (harness/cmd/instr).')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'open')

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTES = json.load(open(V + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTES['checks']:
        n = NOTES['checks'][i]
        checks.append(dict(property=i, quick_cmd='./run.sh ' + i, thorough_cmd='VERIF_TIER=thorough ./run.sh ' + i,
            technique='deterministic simulation with fault injection: ' + n['technique'], level='exploration', level_note=n['note']))
    else:
        na.append(dict(property=i, reason=NOTES['not_applicable'].get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='sim/build.sh plain race cmds', hooks=NOTES['hooks'], checks=checks, not_applicable=na, notes=NOTES['notes'])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(V + '/MANIFEST.json', 'a').write('\n')

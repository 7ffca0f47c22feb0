#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the SPECs of the checks."""
import importlib, json, sys
sys.path.insert(0, '/verif/analyzer')
import run
NA = json.load(open('/verif/tools/not_applicable.json'))
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in run.CHECKS:
        s = importlib.import_module(run.CHECKS[i][0]).SPEC
        if 'per' in s:
            s = dict(s, **s['per'][i])
        checks.append(dict(property=i, quick_cmd='python3 analyzer/run.py ' + i,
                           thorough_cmd='python3 analyzer/run.py %s --thorough' % i,
                           technique=s['technique'], level=s['level'], level_note=s['note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built for this property')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

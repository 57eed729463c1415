#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present in props/ and pyprops/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib.util
spec = importlib.util.spec_from_file_location('levels', V + '/tools/levels.py'); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); i = d['id']
    c = os.path.exists(V + '/props/%s.cc' % i); py = os.path.exists(V + '/pyprops/%s.py' % i)
    if not (c or py):
        na.append(dict(property=i, reason='no check is registered (yet) for this property; it is not claimed')); continue
    t, note = m.NOTES[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=t, level='exploration', level_note=note))
out = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
           notes='No hooks are needed in /repo. known_findings.txt lists repaired and remaining defects.')
json.dump(out, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'checks', len(na), 'not claimed')

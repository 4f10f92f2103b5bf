#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/catalog.py."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props'))
import catalog
os.chdir(os.path.dirname(os.path.abspath(__file__)))
with open('properties.jsonl', 'w') as f:
    for d, _, _, _ in catalog.CAT:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
na = dict(catalog.NA)
m = dict(version=1, setup_cmd='python3 -m py_compile check.py irv/*.py props/*.py', checks=[], not_applicable=[])
for d, lvl, note, tech in catalog.CAT:
    i = d['id']
    if i in na:
        m['not_applicable'].append(dict(property=i, reason=na[i]))
        continue
    m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                            technique=tech, level=lvl, level_note=note))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)

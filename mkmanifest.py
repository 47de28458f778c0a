#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks/registry.py."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from checks.registry import CHECKS
P = [json.loads(l) for l in open('properties.jsonl')]
NA = {}
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[],
         hooks=dict(guard='none', enable='no hooks are needed: the checks compile /repo as it is and intercept at link level', source_commits=[]))
for p in P:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd=f'python3 run.py {i} quick', thorough_cmd=f'python3 run.py {i} thorough',
                                technique=c['technique'], level=c['level'], level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check under construction')))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)

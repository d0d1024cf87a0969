#!/usr/bin/env python3
"""Writes MANIFEST.json: python3 sim/manifest.py"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl')) if l.strip()]
NA = json.load(open(os.path.join(root, 'sim', 'not_applicable.json')))
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'./check.sh check {i} quick',
        'thorough_cmd': f'./check.sh check {i} thorough',
        'technique': 'deterministic simulation with fault injection: seeded search over schedules and fault sequences against an executable reference model',
        'level': 'exploration',
        'level_note': 'No violation in the simulated runs explored (counts in the evidence file). Trusts the scheduler and the instrumentation of the copy, '
                      + ('the bot and player scripts.' if i in ('C21', 'C22') else 'the model of the table service, and the stated workload assumptions (DESIGN.md).'),
    })
json.dump({'version': 1, 'setup_cmd': './check.sh build', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())]},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)

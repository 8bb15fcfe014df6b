#!/usr/bin/env python3
"""Regenerates MANIFEST.json from sim/props.json and properties.jsonl."""
import json
P = json.load(open('sim/props.json'))
props = [json.loads(l) for l in open('properties.jsonl')]
NA = json.load(open('sim/not_applicable.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in P:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': 'deterministic simulation with fault injection: seeded search over schedules, faults and histories',
            'level': 'exploration',
            'level_note': P[i]['note']})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --build build', 'checks': checks,
           'hooks': {'guard': 'none: no hooks were added to /repo', 'enable': 'the checks compile /repo/src with clang -fsanitize=thread instrumentation and link it to the simulator runtime in sim/, which provides the __tsan_* entry points and interposes libc/pthread calls', 'source_commits': []},
           'not_applicable': na,
           'notes': 'Unguarded "fix:" commits in /repo repair genuine defects; they are listed in known-findings.txt.'}, open('MANIFEST.json', 'w'), indent=1)

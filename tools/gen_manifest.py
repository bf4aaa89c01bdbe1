#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from props import PROPS
NA = {
 'C20': 'Pure functions of their arguments: serial matrix and vector algebra has no schedule, clock, I/O, fault or second party to simulate; only input generation would be left.',
 'C21': 'A pure function of data and query (apart from a cached index inside one object): nothing to schedule or to inject.',
 'C22': 'A pure function of argc/argv: parsed once at start, before any communication, time or I/O.',
 'C23': 'Pure arithmetic on constructor arguments: no nondeterminism or fault reaches it.',
}
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks = []
for p in props:
    if p['id'] in PROPS:
        c = PROPS[p['id']]
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py --property %s --tier quick' % p['id'], thorough_cmd='python3 check.py --property %s --tier thorough' % p['id'], technique=c.get('technique', 'deterministic simulation with fault injection: seeded search over schedules, message timing and faults'), level='exploration', level_note=c['note']))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'Check not built yet.')) for p in props if p['id'] not in PROPS]
json.dump(dict(version=1, setup_cmd='python3 build.py', checks=checks, not_applicable=na, notes='No hooks in /repo: every seam is an interposed symbol (MPI, clock, stdio, allocator, thread primitives). See DESIGN.md.'), open(H + '/MANIFEST.json', 'w'), indent=1)

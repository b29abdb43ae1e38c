#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the rules present in rules/."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
 'N01': 'quantifies over rounding of powi and products in floating point; no structural clause decides it (C32 decides the formula and the accepted parameters)',
 'N02': 'floating-point summation error depends on run-time values and schedules; nothing in the shape of the code decides an error bound',
 'N03': 'round-trip equality of float printing is a property of the ryu dependency over 2^64 inputs, not of the shape of this code (C31 decides that the stored value reaches it)',
 'N04': 'progress of a compare-and-swap loop is a liveness property over schedules and hardware fairness',
 'N05': 'the design has no cut across metrics; whether two samples coincide in time is a run-time history',
 'N06': 'latency and shard balance are run-time quantities (hash distribution, contention)',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'rules', i.lower() + '.py')):
        m = importlib.import_module('rules.' + i.lower())
        checks.append({'property': i, 'quick_cmd': 'python3 check.py --property %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py --property %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': getattr(m, 'TECHNIQUE', 'static analysis: path-partitioned value-flow dataflow over type-resolved MIR (custom rustc driver)'),
                       'level': 'other',
                       'level_note': getattr(m, 'NOTE', 'Sound static argument over every path of every listed entry point, for arbitrary arguments; trusts the MIR dump, the transfer functions of engine/, and the models of std and dependencies in engine/prims.py.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 engine/build.py',
     'checks': checks, 'not_applicable': na,
     'notes': 'All checks share one MIR dump of /repo, rebuilt whenever any source file changes (see DESIGN.md). No hooks in /repo are needed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import subprocess
print(len(checks), 'claimed', len(na), 'not applicable')

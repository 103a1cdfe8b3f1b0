#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
BUILT = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15']
NOTE = {}
exec(open(os.path.join(here, 'tools', 'notes.py')).read())
NA = {
 'C20': 'pure function of one stored value and one getter: no scheduling, time, I/O or other party for a simulator to control',
 'C21': 'pure function of one byte string or map (the decoders are third-party): nothing to schedule and no fault point inside; the write-back round trip through storage with faults and restarts is C08',
 'C22': 'pure function of one pattern set and one path: no scheduling, time, I/O or other party',
 'C23': 'pure function of one stored subtree and one struct type: no scheduling, time, I/O or other party',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in BUILT:
        checks.append({
            'property': i,
            'quick_cmd': 'bash /verif/check.sh %s quick' % i,
            'thorough_cmd': 'bash /verif/check.sh %s thorough' % i,
            'technique': 'deterministic simulation with fault injection: ' + NOTE[i][0],
            'level': 'exploration',
            'level_note': NOTE[i][1],
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
m = {
    'version': 1,
    'setup_cmd': 'bash /verif/setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks in /repo: the seams are made by a source-to-source instrumenter (sim/instr) through go build -overlay. '
             'known findings and repairs: known-findings.txt. Replay: bash /verif/replay.sh FILE.',
}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

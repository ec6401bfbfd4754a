#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/props.txt and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vlib import assemble as A
P = [json.loads(l) for l in open(H + '/properties.jsonl')]
props = A.parse_props()
checks = []
for p in P:
    i = p['id']
    q = props.get(i)
    if q and q.fns and not q.bounded:
        level, tech = 'proof', 'contract-based deductive verification (Verus) of the functions extracted from /repo/src on every run'
        note = 'Every listed contract is discharged for all inputs. ' + q.note.strip()
    elif q and q.fns:
        level, tech = 'exploration', 'contract-based deductive verification (Verus) of part of the functions, bounded check of the rest'
        note = 'Proved for all inputs: the contracts listed in the evidence. ' + q.note.strip() + ' Bounded, not proved: ' + '; '.join(q.bounded) + '.'
    else:
        level, tech = 'exploration', 'bounded check of the real code (no contract discharged yet)'
        note = 'Bounded only.'
    note += ' Assumes: contracts/theory/prelude.rs (std containers, iterators, coordinate model); see evidence trusted_base. A bounded run of the real crate accompanies the proof and supplies failing inputs; when changed source no longer fits the contracts (lost anchor, resource limit) that bounded run decides and the evidence says so.'
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'technique': tech, 'level': level, 'level_note': ' '.join(note.split())})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [], 'notes': 'No hooks in /repo: the contracts are applied to function bodies extracted mechanically from /repo/src on every run (extract/); the replay driver uses the public API.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print({l: len([c for c in checks if c['level'] == l]) for l in ('proof', 'exploration')})

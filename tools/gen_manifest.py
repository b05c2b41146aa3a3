#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
PENDING = set(a for a in sys.argv[1:])
NA = {
 'C20': 'pure functions over byte sequences without threads, clock, I/O or other parties: a simulator has no schedule or fault to vary, so this technique does not apply',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    if i in PENDING: na.append({'property': i, 'reason': 'check under construction'}); continue
    checks.append({
        'property': i,
        'quick_cmd': f'bin/check {i}',
        'thorough_cmd': f'VERIF_TIER=thorough bin/check {i}',
        'evidence_file': f'evidence/{i}.json',
        'technique': 'deterministic simulation with fault injection: seeded search over schedules, faults and inputs against a reference model',
        'level': 'exploration',
        'level_note': 'the real library code runs on a simulated scheduler, clock, file system, storage engine, key-value cluster and network; runs are sampled by seed, not enumerated',
    })
m = {
 'version': 1,
 'setup_cmd': 'bin/build',
 'hooks': {
  'guard': '--cfg vsim (never set by cargo; without it the crate is unchanged)',
  'enable': 'RUSTFLAGS="--cfg vsim" on the workspace /verif/sim, whose package "monolith" has /repo/src/lib.rs as its library source',
  'source_commits': ['a0d6867'],
 },
 'checks': checks,
 'not_applicable': na,
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1); open(root + '/MANIFEST.json', 'a').write('\n')

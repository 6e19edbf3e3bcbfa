#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property whose harness has a CLAIM file."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)
    c = os.path.join(here, 'h/cmd', p['id'].lower(), 'CLAIM')
    if not os.path.exists(c):
        na.append({'property': p['id'], 'reason': 'no check yet: its harness is still being built'})
        continue
    kv = dict(l.split(': ', 1) for l in open(c).read().strip().split('\n'))
    checks.append({
        'property': p['id'],
        'quick_cmd': './check.sh %s quick' % p['id'],
        'thorough_cmd': './check.sh %s thorough' % p['id'],
        'technique': kv['technique'], 'level': kv['level'], 'level_note': kv['note']})
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'hooks': {'guard': 'verif',
              'enable': 'no source hooks: check.sh instruments a scratch copy of /repo/src (h/cmd/inst) on every run, replacing sync, sync/atomic, time, net, os, log, fmt and channel/go/select operations by the shims in /verif/shim',
              'source_commits': []},
    'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from simconf.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import simconf as s
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 run_check.py --build-all',
 'checks': [{'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 run_check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 run_check.py %s' % i,
   'evidence_file': 'evidence/%s.json' % i,
   'technique': 'deterministic simulation with fault injection (seeded search over schedules, faults and histories, reference model as oracle)',
   'level': s.LEVEL.get(i, 'exploration'), 'level_note': s.NOTE[i]} for i in ids if i in s.CLAIMED],
 'not_applicable': [{'property': i, 'reason': s.NA.get(i, 'executor not built yet')} for i in ids if i not in s.CLAIMED],
 'notes': 'No hooks in /repo: all seams are public interfaces, interposed runtime functions or compiler instrumentation. See DESIGN.md.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')

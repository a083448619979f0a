#!/usr/bin/env python3
'''Writes MANIFEST.json from the registered checks and properties.jsonl.'''
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'harness'))
import checks
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[], notes=(
    'No hooks in /repo: the code is observed through its public interfaces, its command line and the file system, '
    'with a preloaded shared library (harness/shim.c) for faults, schedules and the clock.'))
for p in props:
    c = checks.CHECKS.get(p)
    if c is None:
        m['not_applicable'].append(dict(property=p, reason='check under construction'))
    else:
        m['checks'].append(dict(
            property=p, quick_cmd=f'python3 run.py {p}', thorough_cmd=f'VERIF_TIER=thorough python3 run.py {p}',
            evidence_file=f'evidence/{p}.json', technique=c.technique, level=c.level, level_note=c.note or checks.NOTE))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')

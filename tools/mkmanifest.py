#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py and checks.py."""
import json, os
import spec
from checks import CHECKS
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec.main()
NOTE = ('Exploration: holds on every execution observed in the run (seeded, counted in the evidence file); '
        'inputs not generated are not covered. Trusts the oracle in the harness, the sanitizer runtime and the host maths library.')
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for p in spec.P:
    c = CHECKS.get(p['id'])
    if not c:
        m['not_applicable'].append(dict(property=p['id'], reason='check not built yet'))
        continue
    m['checks'].append(dict(property=p['id'], quick_cmd='bin/check %s quick' % p['id'],
                            thorough_cmd='bin/check %s thorough' % p['id'],
                            technique=c['technique'], level='exploration',
                            level_note=(c['note'] + ' ' if c['note'] else '') + NOTE))
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)

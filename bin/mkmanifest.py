#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
TRACE = 'recorded histories of the real code checked with TLC against the TLA+ specification (%s)'
TECH = {i: TRACE % 'Machine.tla via Trace.tla' for i in ids}
TECH['C06'] = TRACE % 'Machine.tla and Text.tla via Trace.tla, TextTrace.tla'
for i in ('C10', 'C11'):
    TECH[i] = TRACE % 'Text.tla via TextTrace.tla'
for i in ('C12', 'C13'):
    TECH[i] = TRACE % 'Roots.tla via RootsTrace.tla'
TECH['C14'] = ('behaviours TLC generates from the TLA+ specification (Gen.tla) replayed into the real code, and '
               + TRACE % 'Machine.tla via Trace.tla')
TECH['C16'] = TRACE % 'Machine.tla and Roots.tla via Trace.tla, RootsTrace.tla'
NOTE = ('TLC decides every recorded call against the specification; model stages are exhaustive within the bounds in '
        'DESIGN.md, histories are systematic small scopes plus seeded random ones.  Trusted: TLC, the driver (reads '
        'stored coefficients), the JSON encoding and the Java override of Big.tla (checked against its TLA+ definition).')
checks = [dict(property=i, quick_cmd='python3 bin/check.py %s quick' % i, thorough_cmd='python3 bin/check.py %s thorough' % i,
               evidence_file='evidence/%s.json' % i, technique=TECH[i], level='model_checking', level_note=NOTE) for i in ids]
m = dict(version=1, setup_cmd='python3 bin/setup.py',
         hooks=dict(guard='cfg(rustnomial_verif)', enable='RUSTFLAGS="--cfg rustnomial_verif" (only the array build of the harness)',
                    source_commits=['fc33802']),
         checks=checks, not_applicable=[],
         notes='TLA+ with TLC.  Checks build harness/ (a driver with a path dependency on /repo) from the working tree.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

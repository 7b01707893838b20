#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTE = ('Proved for all inputs, per function: the clauses tagged with this property (functions and clauses are listed in the evidence); all of '
        'fs.rs, runtime/*, filename_cache.rs and storage/* is under contract, opening a store included, both storages meet the one contract of the '
        'trait, and every loop terminates. Histories of any length follow from wf() being kept by every public operation. Assumed: the contracts of '
        'the dependencies (contracts/shim.rs) and the ranges in DESIGN.md section 3. The bounded layer (random histories of the real code '
        'against a reference model) provides failing inputs and stands in for functions a change has made undecided; it is never counted as proved.')
EXTRA = {}
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for p in props:
    m['checks'].append(dict(property=p, quick_cmd=f'python3 tools/check.py {p} quick', thorough_cmd=f'python3 tools/check.py {p} thorough',
                            technique='contract-based deductive verification of the code of /repo with Verus (contracts spliced mechanically into the current source), '
                                      'bounded history search on the real code for replay and for functions out of reach',
                            level='proof', level_note=EXTRA.get(p, NOTE)))
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

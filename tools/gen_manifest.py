#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import checks        # noqa: E402

props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
out = []
na = []
for p in props:
    if p['id'] not in checks.NOTES:
        na.append(dict(property=p['id'], reason='check under construction'))
        continue
    out.append(dict(property=p['id'], quick_cmd=f'python3 run.py check {p["id"]}',
                    thorough_cmd=f'python3 run.py check {p["id"]} --tier thorough',
                    evidence_file=f'evidence/{p["id"]}.json',
                    technique='TLA+ specification checked with TLC; traces of the real code, driven by behaviours generated from the '
                              'specification and by random histories, validated against it with TLC',
                    level='model_checking', level_note=checks.NOTES[p['id']]))
json.dump(dict(version=1, setup_cmd='true', checks=out, not_applicable=na,
               notes='Specification language: TLA+ (TLC). No hooks in /repo are needed: the public interface and the global allocator expose the '
                     'whole abstract state.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

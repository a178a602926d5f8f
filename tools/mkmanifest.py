#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path[:0] = [H, os.path.join(H, 'tools')]
import checks
c = []
for p in sorted(checks.CHECKS):
    k = checks.CHECKS[p]
    c.append(dict(property=p, quick_cmd='python3 run.py check %s --tier quick' % p, thorough_cmd='python3 run.py check %s --tier thorough' % p,
                  evidence_file='evidence/%s.json' % p, technique=k['technique'], level=k['level'],
                  level_note='Holds on everything executed, no more. ' + k['note']))
json.dump(dict(version=1, setup_cmd='python3 run.py setup', checks=c, not_applicable=[],
    notes='No hooks in /repo: all state is observed at public interfaces and by compiler instrumentation. python3 run.py replay FILE repeats a reported violation.'),
    open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)

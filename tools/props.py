#!/usr/bin/env python3
"""The properties and what is said of their checks: writes properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.dont_write_bytecode = True
from registry import CHECKS

P = []      # (id, title, statement, over, text, why, files, mechanism, technique, note)
NA = []     # (id, title, statement, over, text, why, files, mechanism, reason)


def prop(*a):
    P.append(a)


def na(*a):
    NA.append(a)


exec(open(os.path.join(HERE, 'tools', 'props_text.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as o:
    for x in sorted(P + NA):
        pid, title, st, over, text, why, files, mech = x[:8]
        assert len(title) <= 80, (pid, len(title))
        o.write(json.dumps({'id': pid, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text},
                            'why_tests_cant': why,
                            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                                        'hook_needed': None}}) + '\n')
checks = []
for x in sorted(P):
    assert x[0] in CHECKS, x[0]
    checks.append({'property': x[0], 'quick_cmd': 'python3 sa/run.py ' + x[0],
                   'thorough_cmd': 'VERIF_TIER=thorough python3 sa/run.py ' + x[0],
                   'technique': x[8], 'level': 'other', 'level_note': x[9]})
assert {x[0] for x in P} == set(CHECKS), {x[0] for x in P} ^ set(CHECKS)
json.dump({'version': 1, 'setup_cmd': 'python3 sa/setup.py', 'checks': checks,
           'not_applicable': [{'property': x[0], 'reason': x[8]} for x in sorted(NA)],
           'notes': 'Static analysis of the LLVM IR (clang 18) and the syntax tree of /repo; no hooks in /repo.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'claimed', len(NA), 'not applicable')

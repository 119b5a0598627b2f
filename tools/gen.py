#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run by hand; the outputs are committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NA

TECH = 'contract-based deductive verification of the real code (VCs from the compiled LLVM IR of /repo, z3/cvc5)'
NOTE = ('Every obligation (postconditions, memory safety of every access, loop-rule base/step/variant, no UB trap reached) is generated on each run from the '
        'LLVM IR clang produces for the real headers/sources, and discharged for all inputs without a bound; trusts clang -O1 lowering + opt inlining, the VC engine, z3/cvc5, libc mem* contracts. ')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['forall']},
                            'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                        'observe_at': p.get('observe', ['return value and buffer contents of the public functions']), 'hook_needed': None}}) + '\n')
checks = []
na = []
for p in PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt engine/check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3-vt engine/check.py %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECH, 'level': p.get('level', 'proof'),
                   'level_note': NOTE + p.get('note', '')})
m = {'version': 1, 'setup_cmd': 'python3-vt engine/selftest.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile the unmodified headers and sources of /repo', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Checks need clang++-18/opt-18 and python3-vt (z3). Contracts live in contracts/, entry-point wrappers in harness/, the verifier in engine/. replay: python3-vt engine/replay.py evidence/<id>.replay.json'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

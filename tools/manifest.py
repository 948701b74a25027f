#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('vc', 'diff', ''):
    sys.path.insert(0, os.path.join(HERE, d))
MATCH = ('The compiled IR of the real headers is verified against pre/postconditions per AST node, on opaque operands and continuations, for every input, position, capture state and continuation; loops by inferred and checked invariants with a ranking function, recursion by induction. '
         'Assumes the composition metatheorem and the trusted base listed in the evidence. A bounded differential run against an independent reference parser and matcher supplies failing inputs and stands in (labelled bounded) where an instance is undecided on a changed tree.')
NOTE = {}
BND = 'Bounded stand-in only so far: the real code is executed on enumerated inputs for structured and random patterns and compared with an independent reference parser and backtracking matcher. Nothing is claimed beyond those cases.'
import selection
import check
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    proved = p in selection.PROVED or bool(check.MODULES.get(p))
    checks.append(dict(property=p, quick_cmd='./check.py %s' % p, thorough_cmd='VERIF_TIER=thorough ./check.py %s' % p, evidence_file='evidence/%s.json' % p,
                       technique=getattr(check, 'TECH', {}).get(p) or ('contract-based deductive verification (z3) of the IR of the real headers' if proved else 'bounded stand-in for contracts: real code against a reference semantics'),
                       level='proof' if proved else 'exploration', level_note=getattr(check, 'NOTE', {}).get(p) or (MATCH if proved else BND)))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3" && clang++ --version > /dev/null && test -x /usr/lib/llvm-18/bin/opt', checks=checks, not_applicable=[],
               notes='No hooks: /repo carries only fix: commits. Checks read /repo (or VERIF_REPO) and write evidence/ and replay/ only.'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

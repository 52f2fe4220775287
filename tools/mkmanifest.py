#!/usr/bin/env python3
"""Writes MANIFEST.json and vcg/claims.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification of the compiled code (LLVM IR of the real functions, weakest-precondition style symbolic execution with loop invariants, SMT), bounded native cross-check beside it'
COMMON = ' Trusted: clang\'s translation to LLVM IR, the IR semantics in vcg/, z3/cvc5, and the assumed library contracts listed in the evidence. Allocation is assumed to succeed.'
C = {}
def claim(id, level, note, bounded=()): C[id] = dict(level=level, note=note + COMMON, bounded=list(bounded))
NA = {}
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = [dict(property=p, quick_cmd='bin/check ' + p, thorough_cmd='bin/check %s --thorough' % p, technique=T, level=C[p]['level'], level_note=C[p]['note']) for p in props if p in C]
na = [dict(property=p, reason=NA.get(p, 'no contract verified yet: the units for the functions it depends on are not written')) for p in props if p not in C]
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo. Every check compiles /repo to LLVM IR and verifies it; see DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
json.dump(C, open(os.path.join(ROOT, 'vcg', 'claims.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')

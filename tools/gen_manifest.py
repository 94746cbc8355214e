#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
COMMON = 'Bounded: sizes, depths, steps and orders are the concrete configurations in the evidence file; data are symbolic. Trusts symex (own executor), z3 and rustc\'s IR; one witness per configuration is compared with a native run, counterexamples are replayed natively. '
FP = 'Floating point: linear real arithmetic with explicit rounding-error radii, an over-approximation. '
SIG = 'Assumes an ideal signature in place of ed25519-dalek. '
T = {
    'E': ('symbolic execution of the LLVM IR + linear real/integer arithmetic (z3)', FP),
    'C': ('symbolic execution of the LLVM IR, XOR normal form and bit-vector queries (z3)', 'XOR sums are compared by 128-bit random signatures and proven again by z3 as parities within a time budget. '),
    'S': ('symbolic execution of the LLVM IR, bit-vector terms (z3)', ''),
    'Q': ('symbolic execution of the LLVM IR + mixed integer/real queries (z3)', FP),
    'Z': ('symbolic execution of the LLVM IR, linear forms with error radii (z3)', FP),
    'G': ('symbolic execution of the LLVM IR, bit-vector terms (z3)', SIG),
    'W': ('symbolic execution of the LLVM IR of the whole pipeline + z3', FP + SIG + 'Features are supplied through a hook, histogram equalisation is a stub. '),
    'B': ('symbolic execution of the LLVM IR, bit-vector terms (z3)', ''),
    'D': ('symbolic execution of the LLVM IR, bit-vector terms (z3)', 'The LDPC decoder is assumed to end without a panic on words that are no codewords (its result is then arbitrary). '),
    'A': ('symbolic execution of the LLVM IR of the whole authentication + z3', FP + SIG + 'Features are supplied through a hook, histogram equalisation is a stub. '),
    'R': ('symbolic execution of the LLVM IR + interval/real arithmetic (z3)', FP),
}
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in NA:
        continue
    t, note = T[i[0]]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                   'technique': t, 'level': 'model_checking', 'level_note': COMMON + note})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'hooks': {'guard': 'cfg sia_verif', 'enable': 'RUSTFLAGS="--cfg sia_verif"', 'source_commits': open(os.path.join(V, 'tools', 'hook_commits')).read().split()},
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'See DESIGN.md. known-findings.txt lists the defects found (all repaired so far).'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed if and only if its harness exists."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'stateful model-based testing: random definition call sequences against a plain model of the lattice, with shrinking',
 'C02': 'property-based testing: closed-form positions and inverse relation on random lattices, with shrinking',
 'C03': 'property-based testing against a naive enumeration of the block, with shrinking',
 'C04': 'property-based testing against a naive cut of the infinite lattice, with shrinking',
 'C05': 'property-based testing against independent double precision geometry, with shrinking',
 'C06': 'property-based testing against a dense reference Hamiltonian, with shrinking',
 'C07': 'property-based testing against Bloch sums over the infinite lattice, with shrinking',
 'C08': 'stateful model-based testing: recorded modifier calls and final matrix against a term-by-term replay, with shrinking',
 'C09': 'stateful model-based testing: modifier sequences against a naive replay, with shrinking',
 'C10': 'stateful model-based testing: interleaved generators and modifiers against a naive replay, with shrinking',
 'C11': 'property-based testing: lead structure and matrices against the lattice definition, with shrinking',
 'C12': 'stateful differential testing: operation histories against a fresh model with the final parameters, with shrinking',
 'C13': 'property-based testing: index lookups against plain loops over the system data, with shrinking',
 'C14': 'stateful model-based testing of the containers against plain lists, with shrinking',
 'C15': 'property-based testing against plain loops and dense products, round trips, with shrinking',
 'C16': 'differential property-based testing: every optimisation against the plain dense recursion, with shrinking',
 'C17': 'property-based testing against exact Chebyshev sums from a dense eigendecomposition, with shrinking',
 'C18': 'property-based testing against the textbook kernel formulas, with shrinking',
 'C19': 'property-based testing against a dense eigendecomposition, with shrinking',
 'C20': 'stateful model-based testing with a recording solver strategy against direct Gaussian sums, with shrinking',
 'C22': 'stateful model-based testing through the Python API: modifier and generator functions against the same formulas applied by hand, with shrinking',
 'C23': 'round-trip property-based testing of every saved, pickled or copied object, with shrinking',
 'C24': 'property-based testing of slices, crops and lookups against plain loops, with shrinking',
 'C25': 'stateful model-based testing of the containers against plain dictionaries and lists, with shrinking',
 'C26': 'stateful model-based testing of definition sequences, and closed-form reciprocal geometry, with shrinking',
 'C27': 'property-based testing against double precision geometry, with shrinking',
 'C28': 'stateful property-based testing against dense eigen-decompositions, with shrinking',
 'C29': 'property-based testing of random sweeps and schedules against a plain loop, with shrinking',
 'C31': 'property-based testing of recorded drawing calls against plain structures, with shrinking',
 'C30': 'property-based testing against Bloch sums, closed forms and physical invariants, with shrinking',
 'C21': 'property-based testing of randomly delayed schedules (address and thread sanitizers) against an exactly-once oracle',
}
NOTE = ('Random search over generated cases with an explicit oracle, rebuilt from the working tree with AddressSanitizer and '
        'Eigen/standard assertions on; absence of a violation is evidence for the explored cases only. Bounds, tolerances and '
        'exclusions are in DESIGN.md.')
PYNOTE = ('Random search over generated cases with an explicit oracle, through the Python package of the working tree and its extension '
          'module rebuilt against a small stand-in for pybind11 (absent here); absence of a violation is evidence for the explored cases '
          'only. Bounds, tolerances and exclusions are in DESIGN.md.')
EXTRA = {
 'C21': ' Schedules come from the operating system plus random delays; they are sampled, not enumerated.',
}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    python = os.path.exists(os.path.join(HERE, 'harness', 'props', p.lower() + '.py'))
    if python or os.path.exists(os.path.join(HERE, 'harness', 'props', p.lower() + '.cpp')):
        checks.append({'property': p, 'quick_cmd': 'python3 run.py %s quick' % p, 'thorough_cmd': 'python3 run.py %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': T[p], 'level': 'exploration',
                       'level_note': (PYNOTE if python else NOTE) + EXTRA.get(p, '')})
    else:
        na.append({'property': p, 'reason': 'The check for this property is not finished.'})
json.dump({'version': 1, 'setup_cmd': 'clang++ --version && ninja --version', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')

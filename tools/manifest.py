#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: a property is claimed when its check exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

E2E = 'runs the executable built from the tree; '
T = {
 'C01': ('output monitor: exact convex hull oracle on generated inner descriptions, sampled sanitizer runs', E2E + 'every printed row is compared with an independent exact rational convex hull computation (itself cross-checked by brute force); inputs are sampled, dimension and size limited by the cost of the oracle.'),
 'C02': ('output monitor: exact convex hull oracle, cross-check of methods and thread counts', E2E + 'every printed row is compared with an independent exact convex hull computation and with the other method; inputs and schedules are sampled.'),
 'C03': ('output monitor: rank and incidence oracle for printed equations', E2E + 'independence, number and validity of equations are decided by exact linear algebra; inputs are sampled.'),
 'C04': ('output monitor: exact double description oracle on generated outer descriptions', E2E + 'vertices, rays and lines are compared with an exact computation in Python; inputs are sampled.'),
 'C05': ('metamorphic monitor: round trips through printed descriptions, each step against the exact oracle', E2E + 'both directions are chained through the printed text; inputs are sampled.'),
 'C06': ('output monitor: orbit oracle on symmetric descriptions', E2E + 'classes are computed from the explicit group action in Python; symmetric inputs are sampled from constructions and random groups.'),
 'C07': ('metamorphic monitor: reduced input against its expansion', E2E + 'orbits are expanded in Python; inputs are sampled.'),
 'C08': ('schedule perturbation with trace checker and output oracle', E2E + 'a preloaded library injects seeded delays and spurious wake-ups; output and progress trace of every schedule are checked; schedules are sampled, distinct ones counted.'),
 'C09': ('ThreadSanitizer under schedule perturbation', 'ThreadSanitizer decides happens-before races and lock order inversions in the executions observed, on perturbed schedules of generated inputs.'),
 'C10': ('AddressSanitizer, UBSan, LeakSanitizer, assertions and valgrind memcheck under mutation fuzzing', 'violations are detected in the executions observed: mutated files, known data and command lines.'),
 'C11': ('output monitor: exact-or-loud judgement over coefficient magnitudes, UBSan overflow traps', E2E + 'every success is compared with the exact result; coefficients reach the limits of int; inputs are sampled.'),
 'C12': ('output monitor: exact-or-loud judgement over coefficient magnitudes', E2E + 'every success is compared with the exact result, every failure has to be justified by a number that does not fit; inputs are sampled.'),
 'C13': ('differential monitor over all integer types', E2E + 'all types have to print the same lines on data whose intermediate values provably fit 16 bits; inputs are sampled.'),
 'C14': ('model-based monitor of the checked integer type against 128 bit arithmetic, UBSan', 'every result and refusal of the real operators is compared with 128 bit arithmetic; operands are sampled around all boundaries.'),
 'C15': ('model-based monitor of the arbitrary precision type against GMP, ASan and UBSan', 'every result of the real operators, including histories with aliasing, is compared with GMP; operands are sampled.'),
 'C16': ('metamorphic monitor: runs with and without known data, exact oracle', E2E + 'subsets, representatives, multiples and notations of true rows are sampled; the output is judged by the exact oracle.'),
 'C17': ('fault injection into input files with an acceptance oracle', E2E + 'each generated fault leaves the documented format by construction, and has to be refused; well-formed neighbours have to be accepted.'),
 'C18': ('monitor of the validity check against a permutation oracle', E2E + 'validity of maps and known rows is decided in Python by applying them; inputs are sampled.'),
 'C19': ('metamorphic monitor: equivalent notations', E2E + 'rewritings which the documentation declares equivalent have to give the same output; inputs and rewritings are sampled.'),
 'C20': ('metamorphic monitor: permutation, redundancy, scaling, sorting and size', E2E + 'variants of an input have to give the same set as computed by the exact oracle or known in closed form; sizes are swept over all boundaries of the internal sets.'),
 'C21': ('model-based monitor of the index sets, ASan and UBSan', 'histories of operations on all capacities are compared with std::set models; histories are sampled.'),
 'C22': ('monitor of command lines against a model of the documented options', E2E + 'the selected options are observed through their effects; command lines are sampled over all forms, orders and positions.'),
 'C23': ('model-based monitor of linear algebra against GMP rational arithmetic, UBSan', 'return values of the real functions are compared with exact rational computations; matrices are sampled.'),
 'C24': ('distributed runs under a message passing runtime with output oracle', 'the message passing build runs on the local machine with several nodes and threads; every run is judged by the exact oracle; interleavings are sampled.'),
 'C25': ('model-based monitor of orbits and representatives against explicit group closure, ASan', 'functions are called on rows and maps whose orbits are enumerated in the harness; inputs are sampled.'),
 'C26': ('offline checker over recorded histories of the job pool, TSan, schedule perturbation', 'every recorded history is checked for exactly-once, completeness and termination; histories are sampled, distinct orders of calls counted.'),
 'C27': ('model-based monitor of scope, thread and stream helpers, ASan and TSan', 'effects of real objects in random scope programs, stream contents and containers are compared with models.'),
}

with open(os.path.join(V, 'properties.jsonl')) as f:
    props = [json.loads(t)['id'] for t in f]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, 'checks', p + '.py')):
        t, note = T[p]
        checks.append({'property': p, 'quick_cmd': 'python3 checks/%s.py' % p, 'thorough_cmd': 'VERIF_TIER=thorough python3 checks/%s.py' % p,
                       'technique': t, 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': p, 'reason': 'no check built yet'})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo: every monitor works on the executable, on the public functions or through LD_PRELOAD and sanitizers.'}, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not')

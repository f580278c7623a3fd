#!/usr/bin/env python3
"""Integer linear algebra of all integer types against rational arithmetic, under sanitizers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, core, e2e, harn

TUS = ['algorithm_matrix_operations', 'algorithm_row_operations', 'algorithm_integer_operations', 'algorithm_inequality_operations', 'cast',
       'big_integer', 'big_integer_arithmetics', 'big_integer_comparisons', 'big_integer_constructors', 'safe_integer', 'safe_integer_arithmetics',
       'safe_integer_comparisons', 'safe_integer_constructors']


def body(chk):
    e2e.setup(chk)
    items = []
    for v, n in (('asan', 200), ('ubsan', 500), ('rel', 1200)):
        b = build.harness('linalg', v, libs=['-lgmpxx', '-lgmp'], only=TUS)
        items += [(b, (s, chk.scale(n, 60 * n)), {}) for s in chk.seeds(8, 23 + n)]
    harn.run(chk, items)
    chk.rule = ('random, sparse, dependent, repeated and point-like matrices for all five integer types (sizes chosen so that all intermediate values fit), huge entries for '
                'the arbitrary precision type; rank, equations, normalization, products, gcd, lcm, casts are compared with rational arithmetic; non-trivial: rank above one')


core.main('C23', body)

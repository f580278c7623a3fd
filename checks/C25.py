#!/usr/bin/env python3
"""Classes of rows under maps against orbits in rational arithmetic, under sanitizers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, core, e2e, harn

TUS = ['algorithm_classes', 'algorithm_map_operations', 'algorithm_matrix_operations', 'algorithm_row_operations', 'algorithm_integer_operations',
       'algorithm_inequality_operations', 'cast', 'big_integer', 'big_integer_arithmetics', 'big_integer_comparisons', 'big_integer_constructors',
       'safe_integer', 'safe_integer_arithmetics', 'safe_integer_comparisons', 'safe_integer_constructors']


def body(chk):
    e2e.setup(chk)
    items = []
    for v, n in (('asan', 25), ('rel', 90)):    # orbits of thousands of rows without sanitizers
        b = build.harness('orbits', v, libs=['-lgmpxx', '-lgmp'], only=TUS)
        items += [(b, (s, chk.scale(n, 100 * n)) + (('large',) if v == 'rel' else ()), {}) for s in chk.seeds(16, 25 + n)]
    harn.run(chk, items)
    chk.rule = ('groups generated by signed permutations, unimodular conjugates, permutations with dependent coordinates (equations of any leading coefficient, in any position, '
                'equations added to images, redundant notation), random rows; class, closure, representative, list of representatives are compared with rational orbits; '
                'non-trivial: class with more than one member')


core.main('C25', body)

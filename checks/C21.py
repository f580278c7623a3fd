#!/usr/bin/env python3
"""Index sets against a set model, under address and undefined behaviour sanitizers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, core, e2e, harn


def body(chk):
    e2e.setup(chk)
    only = ['bitset_variable_size', 'bitset_fixed_size']
    items = []
    for v, n in (('asan', 1), ('rel', 3)):
        b = build.harness('bits', v, only=only)
        items += [(b, (s, chk.scale(n, 50 * n)), {}) for s in chk.seeds(16, 21 + n)]
    harn.run(chk, items)
    chk.rule = ('every capacity the program uses (1 to 200 words, fixed and variable), every single index, and histories of insertions, unions, copies and clears on a pool of '
                'sets; every observation with bounds from tight to the capacity is compared with a set model; non-trivial: distinct triples of non-empty sets')


core.main('C21', body)

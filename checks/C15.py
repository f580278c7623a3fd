#!/usr/bin/env python3
"""Arbitrary precision integers against GMP, under address and undefined behaviour sanitizers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, core, e2e, harn

TUS = ['big_integer', 'big_integer_arithmetics', 'big_integer_comparisons', 'big_integer_constructors', 'algorithm_integer_operations']


def body(chk):
    e2e.setup(chk)
    b = build.harness('big', 'asan', libs=['-lgmpxx', '-lgmp'], only=TUS)
    f = build.harness('big', 'rel', libs=['-lgmpxx', '-lgmp'], only=TUS)
    items = [(b, (s, chk.scale(900, 40000), 2 + i % 5), {}) for i, s in enumerate(chk.seeds(chk.scale(12, 48), 15))]
    items += [(f, (s, chk.scale(6000, 400000), 1 + i % 6), {}) for i, s in enumerate(chk.seeds(chk.scale(12, 48), 16))]
    harn.run(chk, items)
    chk.rule = ('pairs of hostile operands (blocks of zeros and ones, powers of two, multiples and quotients of each other) through every public operation, and '
                'random histories of a register machine; every result is compared with GMP by equality, order and digit extraction; non-trivial: an operand above 31 bits, or a history')


core.main('C15', body)

#!/usr/bin/env python3
"""Checked integers against 128 bit arithmetic, with signed overflow trapped by the undefined behaviour sanitizer."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, core, e2e, harn


def body(chk):
    e2e.setup(chk)
    only = ['algorithm_integer_operations', 'safe_integer', 'safe_integer_arithmetics', 'safe_integer_comparisons', 'safe_integer_constructors']
    items = []
    for v, o in (('ubsan', []), ('rel', ['-O2'])):
        b = build.harness('safe', v, only=only, flags=o)
        items += [(b, (s, chk.scale(60000, 3000000)), {}) for s in chk.seeds(16, 14 + len(o))]
    harn.run(chk, items)
    chk.rule = ('boundary operands (limits, their quotients, differences and square roots, powers of two, int limits) and operands related to them through every '
                'public operation, and histories of a register machine; every result and every refusal is compared with 128 bit arithmetic')


core.main('C14', body)

#!/usr/bin/env python3
"""Scope guards, delayed actions, joining threads, stream guards, peeking and reversed ranges against models."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, core, e2e, harn


def body(chk):
    e2e.setup(chk)
    so = build.preload('perturb')
    only = ['delayed_action', 'istream_peek_line', 'joining_thread', 'position_guarded_file', 'range']
    items = []
    for v in ('asan', 'tsan', 'rel'):
        b = build.harness('utils', v, only=only)
        for s in chk.seeds(chk.scale(16, 64), 27 + len(v)):
            env = {'TMPDIR': e2e.TMP}
            if v == 'tsan':
                env.update(LD_PRELOAD=so, PERTURB_SEED=str(s))
            items.append((b, (s, chk.scale(3000, 40000) // (3 if v == 'tsan' else 1)), {'env': env}))
    harn.run(chk, items)
    chk.rule = ('random programs of nested scopes with every way out (return, exception, moved and dismissed guards), delays around the elapsed time, joined threads '
                'in containers, stream contents at buffer boundaries and without final newline read with and without peeking, and containers in reverse')


core.main('C27', body)

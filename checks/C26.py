#!/usr/bin/env python3
"""Histories of the job pool: exactly once, nothing lost, no early and no missing termination."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, core, e2e, harn


def body(chk):
    e2e.setup(chk)
    so = build.preload('perturb')
    items = []
    for v, n in (('rel', 32), ('tsan', 12)):
        b = build.harness('jobs', v)
        for i, s in enumerate(chk.seeds(chk.scale(n, 12 * n), 26 + len(v))):
            env = {'LD_PRELOAD': so, 'PERTURB_SEED': str(s)} if i % 4 else {}
            items.append((b, (s, chk.scale(300, 600) if v == 'rel' else chk.scale(100, 300)), {'env': env, 'idle': 15, 'cpu': 300, 'wall': 400}))
    items.sort(key=lambda i: 'tsan' not in i[0])
    harn.run(chk, items, nproc=2 * core.NPROC)
    chk.rule = ('random job graphs (chains, stars, trees, cycles) with 1 to 16 workers, a concurrent announcer and early or late initial rows under seeded schedule '
                'perturbation; distinct counts distinct orders of calls; every history is checked offline and the race detector watches part of them')


core.main('C26', body)

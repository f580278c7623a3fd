import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import core, e2e, facet_cases, many


def body(chk):
    e2e.setup(chk, 'rel')
    for k in range(chk.scale(1, 4)):
        chk.run(many.large, many.part(chk.seed * 61 + k, ['ad'], 'v'), chunk=1)
    facet_cases.run(chk, 'ad', lambda r: r.choice([[], ['-m', 'ad'], ['-m', 'adjacency-decomposition']])
                    + ['-t', str(r.choice([1, 1, 2, 3, 4, 8, 16]))], compare=True)


core.main('C02', body)

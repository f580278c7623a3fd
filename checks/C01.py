import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import random
import core, e2e, facet_cases, judge, many


def body(chk):
    e2e.setup(chk, 'rel')
    for k in range(chk.scale(1, 4)):
        chk.run(many.large, many.part(chk.seed * 53 + k, ['dd'], 'v'), chunk=1)
    facet_cases.run(chk, 'dd', lambda r: ['-m', r.choice(['dd', 'dd', 'double-description'])])


core.main('C01', body)

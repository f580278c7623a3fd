#!/usr/bin/env python3
"""Sanity of the machinery itself: tools exist and the oracles agree with each other on random input."""
import os, random, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import gen, poly

for t in ('g++', 'gcc', 'valgrind'):
    if shutil.which(t) is None:
        sys.exit('missing tool: ' + t)
r = random.Random(int(os.environ.get('VERIF_SEED', '1')))
n = 0
while n < 150:
    v = gen.rnd_v(r, budget=12)
    if v.dim > 4:
        continue
    g = v.gens()
    a = set(poly.cone_facets(g)[2])
    b = set(poly.brute_facets(g))
    b = {x if isinstance(x, int) else x[1] for x in b}
    if a != b:
        sys.exit('the oracles disagree on %s: %s %s' % (g, a, b))
    n += 1
print('oracles agree on %d descriptions' % n)

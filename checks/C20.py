#!/usr/bin/env python3
"""Order, duplicates, redundancy, scaling and the number of rows do not change the printed set."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import itertools, random
from fractions import Fraction
import core, e2e, gen, judge, poly, sym
from many import FAMILY, large, options, sizes as sizes_of

# ---------------------------------------------------------------- variants of small descriptions

def combination(r, rows):
    """A row implied by the rows (a nonnegative combination, possibly weakened)."""
    k = r.sample(rows, min(len(rows), r.randint(1, 3)))
    t = [r.randint(1, 2) for _ in k]
    row = [sum(a * x for a, x in zip(t, col)) for col in zip(*k)]
    if r.random() < .6:
        row[-1] -= r.randint(0, 3)
    return tuple(row)


def vary_v(r, v):
    tags = set()
    verts, rays = list(v.verts), list(v.rays)
    if not v.maps and r.random() < .5:
        w = gen.redundant(r, v, r.choice([1, 3, 10, 30]))
        verts, rays = list(w.verts), [x for x in w.rays if any(x)]
        tags.add('redundant')
    if rays and not v.maps and r.random() < .4:
        rays = [tuple(t * x for x in q) for t, q in ((r.randint(1, 3), q) for q in rays)]
        tags.add('scaled')
    if r.random() < .5:
        for _ in range(r.choice([1, 2, 5, 40])):
            verts.append(r.choice(verts))
            if rays and r.random() < .5:
                rays.append(r.choice(rays))
        tags.add('duplicates')
    r.shuffle(verts)
    r.shuffle(rays)
    return gen.V(verts, rays, v.names, v.maps, v.kind), tags


def vary_h(r, h):
    tags = set()
    rows, eqs = list(h.ineqs), list(h.eqs)
    if not h.maps and r.random() < .5:
        rows += [x for x in (combination(r, h.ineqs + [tuple(x) for x in h.rows()[len(h.ineqs):]]) for _ in range(r.choice([1, 3, 10, 30]))) if any(x[:-1])]
        tags.add('redundant')
    if eqs and not h.maps and r.random() < .5:
        e = combination(r, [tuple(s * x for x in q) for q in eqs for s in (1, -1)][:2])
        if any(e[:-1]) and all(poly.rank(eqs + [q]) == poly.rank(eqs) for q in [e]):
            eqs.append(e)
            tags.add('redundant_equations')
    if r.random() < .5:
        rows = [tuple(t * x for x in q) for t, q in ((r.choice([1, 1, 2, 3, 7]), q) for q in rows)]
        eqs = [tuple(t * x for x in q) for t, q in ((r.choice([1, -1, 2, -3]), q) for q in eqs)]
        tags.add('scaled')
    if r.random() < .5:
        for _ in range(r.choice([1, 2, 5, 40])):
            rows.append(r.choice(rows))
            if eqs and r.random() < .5:
                eqs.append(r.choice(eqs))
        tags.add('duplicates')
    r.shuffle(rows)
    r.shuffle(eqs)
    return gen.H(rows, eqs, h.names, h.maps, h.kind), tags


def pick(r):
    while True:
        k = r.random()
        if k < .55:
            v = gen.rnd_v(r, budget=26) if k < .38 else sym.symmetric_v(r)
            if len(v.gens()) > 40:
                continue
            oracle = poly.poly_facets(v.gens())
            perms = gen.perms_of(v) if v.maps else None
            return v, lambda out: judge.facets(out, v, oracle, perms=perms) is not None
        h = sym.symmetric_h(r) if k > .85 else gen.rnd_h(r) if k < .75 else gen.structured_h(r)
        want = poly.poly_vertices(h.rows())
        if want is None or not judge.feasible(want) or len(want) > 200:
            continue
        return h, lambda out: judge.vertices(out, h, want) is not None


def small(seed, c):
    r = random.Random(seed)
    d, look = pick(r)
    inner = isinstance(d, gen.V)
    for k in range(4):
        w, tags = (vary_v if inner else vary_h)(r, d)
        rows = w.gens() if inner else w.rows()
        types = [t for t in e2e.types_for(rows) if t not in ('', '32')] or ['inf']
        args = ['-m', r.choice(['ad', 'dd']), '-t', str(r.choice([1, 2, 4]))] + e2e.int_args(r, types) + options(r) + ['@in']
        x = e2e.run(c, args, {'in': w.text()}, cpu=60)
        if not e2e.ok(c, x, args) or e2e.judged(c, args, x, look) is None:
            return
        c.stats['judged_runs'] += 1
        for t in tags:
            c.stats['variant_' + t] += 1
        if any('sort' in a or a.startswith('-s') for a in args):
            c.stats['variant_sorted'] += 1
    c.stats['inner' if inner else 'outer'] += 1
    c.nontrivial(seed)
    c.sample = {'input': w.text()[:400], 'args': args, 'varied': sorted(tags)}


def any_(item, c):
    return small(item, c) if isinstance(item, int) else large(item, c)


def body(chk):
    e2e.setup(chk, 'rel')
    r = random.Random(chk.seed)
    items = []
    for m in ('dd', 'ad'):
        for fam, (_, lo, hi) in FAMILY.items():
            sizes = sizes_of(r, lo, hi, m, chk.thorough)
            items += [(r.randrange(10 ** 9), fam, n, m) for n in sizes]
            items += [(r.randrange(10 ** 9), fam, r.randint(lo, min(hi[m], 600)), m) for _ in range(chk.scale(6, 60))]
            if m == 'dd' and hi[m] >= 6500:
                items += [(r.randrange(10 ** 9), fam, n, m) for n in (6399, 6400, 6401)]
    items.sort(key=lambda x: -x[2])
    # the sizes where a set representation ends: every family has to pass them
    chk.run(any_, items, chunk=1, seconds=chk.scale(200, 2000))
    chk.run(any_, chk.seeds(chk.scale(3000, 100000), 20), chunk=8, seconds=chk.scale(100, 2500))
    chk.rule = ('small descriptions in permuted, sorted, duplicated, redundant and scaled variants judged by the exact oracle; families with results in closed form '
                'at row counts around every capacity of the internal sets (words_NNN counts runs by number of 32 bit words), with both methods')


core.main('C20', body)

"""Workload shared by the facet enumeration checks."""
import random
import e2e, gen, judge, poly


def big(seed, thorough):
    """(description, factory) of larger polytopes; each is one case."""
    r = random.Random(seed)
    L = [lambda: gen.cut(5), lambda: gen.birkhoff(4), lambda: gen.permutahedron(5), lambda: gen.cube(6), lambda: gen.cross(7),
         lambda: gen.cross(8, 2), lambda: gen.cyclic(5, 10), lambda: gen.cyclic(6, 10), lambda: gen.hypersimplex(7, 3),
         lambda: gen.hypersimplex(8, 2), lambda: gen.lop(4), lambda: gen.simplex(15), lambda: gen.orthant(14), lambda: gen.simplex(33),
         lambda: gen.cube(7, -1, 1), lambda: gen.rnd_01(r, 6, 40), lambda: gen.rnd_01(r, 7, 30), lambda: gen.rnd_01(r, 7, 45),
         lambda: gen.rnd_01(r, 6, 55), lambda: gen.rnd_01(r, 8, 20), lambda: gen.embed(r, gen.rnd_01(r, 5, 20), 2, 1),
         lambda: gen.redundant(r, gen.cube(5), 40), lambda: gen.rational(r, gen.rnd_01(r, 6, 30)),
         lambda: cone_over(gen.rnd_01(r, 6, 30)), lambda: cone_over(gen.cut(5)), lambda: mixed(r, 6, 20, 8), lambda: mixed(r, 5, 14, 12),
         lambda: planar(r, 30), lambda: planar(r, 70), lambda: planar(r, 140)]
    if thorough:
        L += [lambda: gen.cube(8), lambda: gen.cross(9), lambda: gen.cyclic(7, 11), lambda: gen.hypersimplex(8, 4), lambda: gen.rnd_01(r, 8, 40),
              lambda: gen.rnd_01(r, 7, 70), lambda: gen.permutahedron(6), lambda: planar(r, 300), lambda: mixed(r, 7, 25, 10),
              lambda: cone_over(gen.rnd_01(r, 7, 40))]
    return L


def cone_over(v):
    """Pointed cone with apex 0 generated by (v, 1)."""
    return gen.V([(0,) * (v.dim + 1)], [tuple(x) + (1,) for x in v.verts], kind='cone-over-' + v.kind)


def mixed(r, d, k, m):
    v = gen.rnd_01(r, d, k)
    v.rays = gen.dedupe([x for x in (tuple(r.randint(0, 1) for _ in range(d)) for _ in range(m)) if any(x)])
    v.kind += '+%drays' % len(v.rays)
    return v


def planar(r, n):
    """Many points in the plane on a convex curve and inside."""
    pts = set()
    k = n // 2
    for t in range(-k // 2, k // 2):
        pts.add((t, t * t))
    while len(pts) < n:
        a, b = r.sample(range(-k // 2, k // 2), 2)
        pts.add((a, r.randint(a * a, max(a * a, b * b))))
    pts = sorted(pts)
    r.shuffle(pts)
    return gen.V(pts, kind='planar%d' % n)


def degenerate(r):
    """Moderately high dimension with many affine dependencies: much redundancy in every elimination step."""
    k = r.random()
    if k < .35:
        d = r.choice([6, 7, 7, 8, 9])
        return gen.rnd_01(r, d, r.randint(d + 3, {6: 34, 7: 28, 8: 22, 9: 17}[d]))
    if k < .75:
        d = r.choice([5, 6, 6, 7])
        pts, n, vals = set(), r.randint(d + 3, {5: 34, 6: 28, 7: 19}[d]), r.choice([(0, 0, 0, 1, -1), (0, 0, 1, 2), (0, 0, 1, -1), (0, 1, 1, 1, 2)])
        while len(pts) < n:
            pts.add(tuple(r.choice(vals) for _ in range(d)))
        v = gen.V(sorted(pts), kind='lattice%d' % d)
        r.shuffle(v.verts)
        return v
    if k < .88:
        return cone_over(gen.rnd_01(r, r.choice([5, 6]), r.randint(10, 24)))
    return mixed(r, r.choice([5, 6]), r.randint(8, 18), r.randint(3, 8))


def one(item, c, margs, compare, types):
    seed, kind = item
    r = random.Random(seed)
    if kind is None or kind == 'degenerate':
        v = gen.rnd_v(r) if kind is None else degenerate(r)
        big_case = kind is not None
    else:
        v = big(seed, True)[kind]()
        big_case = True
        r = random.Random(seed + kind)
        if r.random() < .5:
            v = gen.shuffled(r, v)
    oracle = poly.poly_facets(v.gens())
    itype = e2e.int_args(r, types or e2e.types_for(v.gens()))
    args = margs(r) + itype
    if r.random() < .25:
        args += ['-s', r.choice(e2e.SORTS)]
    if not big_case and r.random() < .1 and len(v.verts) > 1:
        v.verts = v.verts + [r.choice(v.verts)]
        oracle = poly.poly_facets(v.gens())
    args += ['@in']
    x = e2e.run(c, args, {'in': v.text()}, cpu=120, wall=240)
    if not e2e.ok(c, x, args):
        return c
    res = e2e.judged(c, args, x, judge.facets, v, oracle)
    if res is None:
        return c
    eqs, ineqs = res
    if len(ineqs) >= 2:
        c.nontrivial(v.kind, sorted(v.gens()), args[:-1])
        c.sample = {'args': ' '.join(args), 'input': v.text()[:400], 'facets': len(ineqs), 'equations': len(eqs)}
    c.stats['facets_checked'] += len(ineqs)
    c.stats['equations_checked'] += len(eqs)
    c.stats['kind:' + ('degenerate' if kind == 'degenerate' else 'big' if big_case else ('lower-dimensional' if eqs else 'full-dimensional') + ('+rays' if v.rays else ''))] += 1
    if compare and not big_case and r.random() < .3:
        a2 = ['-m', 'dd'] + itype + ['@in']
        y = e2e.run(c, a2, {'in': v.text()}, cpu=60)
        if e2e.ok(c, y, a2):
            try:
                e2, i2 = judge.split_v(y.out, v.names, v.dim + 1, False)
            except judge.Bad as b:
                c.bad(b.key, 'dd: ' + b.msg)
                return c
            c.stats['methods_compared'] += 1
            if e2e.canon_rows(i2, e2) != e2e.canon_rows(ineqs, eqs) or e2e.canon_rows(e2, []) != e2e.canon_rows(eqs, []):
                c.bad('methods-differ', 'double description and adjacency decomposition print different rows')
    return c


def run(chk, name, margs, compare=False, types=None):
    nbig = len(big(0, chk.thorough))
    items = [(chk.seed * 131 + j, k) for j in range(chk.scale(4, 20)) for k in range(nbig)]
    chk.run(lambda it, c: one(it, c, margs, compare, types), items, chunk=1)
    chk.run(lambda it, c: one(it, c, margs, compare, types), [(s, 'degenerate') for s in chk.seeds(chk.scale(2500, 40000), salt=2)], chunk=8)
    chk.run(lambda it, c: one(it, c, margs, compare, types), [(s, None) for s in chk.seeds(chk.scale(20000, 300000), salt=1)], chunk=16)
    chk.rule = ('random small, 0/1, structured, affinely transformed, embedded, redundant, fractional and unbounded inner descriptions, lattice points with many affine dependencies in dimension 5 to 9, plus %d larger '
                'polytopes, and families of up to 6400 rows with known results; each output is compared row by row with an exact convex hull computed in Python; non-trivial: at least two facets' % nbig)

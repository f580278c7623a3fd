import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import random
import build, core, e2e, gen, judge, poly

SLOW = {}


def vset(v):
    return {poly.primitive(g) for g in v.gens()}


def one(seed, c):
    r = random.Random(seed)
    v = gen.rnd_v(r, budget=14)
    while v.dim > 6:
        v = gen.rnd_v(r, budget=14)
    gens = v.gens()
    eqs, fac, masks = oracle = poly.poly_facets(gens)
    rows = fac + eqs + [tuple(-x for x in e) for e in eqs]
    want = poly.poly_vertices(rows) if rows else None
    if want is None or len(want) < 2:
        c.stats['not_pointed_or_point_skipped'] += 1
        return
    it = e2e.int_args(r, ('64', 'safe', 'inf') if max(abs(x) for g in gens for x in g) <= 40 else ('inf',))
    prefix = 'Names\n' + ' '.join(v.names) + '\n' if v.names else ''
    m1, m2, m3 = (r.choice(['dd', 'ad']) for _ in range(3))
    # in some runs the clock jumps, so that everything that is reported of slow computations is reported
    env = SLOW if r.random() < 0.3 else None
    args = ['-m', m1] + it + ['@in']
    x = e2e.run(c, args, {'in': v.text()}, cpu=60, env=env)
    if not e2e.ok(c, x, args) or e2e.judged(c, args, x, judge.facets, v, oracle) is None:
        return
    c.files['printed-h'] = x.out
    h = gen.H([(0,) * v.dim + (-1,)], names=v.names)

    def vertices(out):
        got = judge.split_h(out, v.dim + 1, False)
        if len(set(got)) != len(got):
            raise judge.Bad('vertex-duplicate', 'a vertex or ray is printed twice')
        if set(got) != want:
            raise judge.Bad('round-trip-vertices', 'printed %s, expected %s' % (sorted(got), sorted(want)))
        return got
    a2 = ['-m', m2] + it + ['@h']
    y = e2e.run(c, a2, {'h': prefix + x.out}, cpu=60, env=env)
    if not e2e.ok(c, y, a2) or e2e.judged(c, a2, y, vertices) is None:
        return
    if m2 == 'ad':
        a2 = ['-m', 'dd'] + it + ['@h']
        y = e2e.run(c, a2, {'h': prefix + x.out}, cpu=60, env=env)
        if not e2e.ok(c, y, a2) or e2e.judged(c, a2, y, vertices) is None:
            return
    a3 = ['-m', m3] + it + ['@v']
    z = e2e.run(c, a3, {'v': prefix + y.out}, cpu=60, env=env)
    if not e2e.ok(c, z, a3):
        return
    res = e2e.judged(c, a3, z, judge.split_v, v.names, v.dim + 1, False)
    if res is None:
        return
    first = judge.split_v(x.out, v.names, v.dim + 1, False)
    if e2e.canon_rows(res[1], res[0]) != e2e.canon_rows(first[1], first[0]) or e2e.canon_rows(res[0], []) != e2e.canon_rows(first[0], []):
        c.bad('round-trip-facets', 'the facets of the printed vertices differ from the facets printed first')
    c.stats['round_trips'] += 1
    if env:
        c.stats['progress_messages_seen'] += x.err.count('Elimination step') + y.err.count('Elimination step') + z.err.count('Elimination step')
        c.stats['round_trips_with_jumping_clock'] += 1
    c.stats['%s-%s-%s' % (m1, m2, m3)] += 1
    c.stats['rows_read_back'] += len(first[0]) + len(first[1]) + len(want)
    if len(want) > 1:
        c.nontrivial(sorted(gens), bool(v.names), m1, m2, m3)
        c.sample = {'input': v.text()[:300], 'methods': [m1, m2, m3], 'facets': len(fac), 'vertices': len(want)}


def body(chk):
    e2e.setup(chk, 'rel')
    SLOW.update(LD_PRELOAD=build.preload('clock'), CLOCK_STEP='5')
    chk.run(one, chk.seeds(chk.scale(8000, 150000), 5), chunk=16)
    chk.rule = ('pointed polyhedra converted to facets, the printed text (plus the names) to vertices and these to facets again; every step is compared '
                'with the exact description computed in Python; non-trivial: at least two vertices or rays')


core.main('C05', body)

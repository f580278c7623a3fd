#!/usr/bin/env python3
"""All integer types print the same rows on small data."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import random
import core, drive, e2e, gen, judge, poly, sym

TYPES = ['', '16', '32', '64', 'safe', 'inf']
DET01 = [1, 1, 1, 2, 3, 5, 9, 32, 56]


def small(rows):
    """Bounds the intermediate values: minors of the rows, and products of two of them, stay below 16 bits."""
    n = len(rows[0])
    if all(x in (0, 1) for row in rows for x in row) and n < len(DET01):
        return 2 * n * DET01[n] * DET01[n] < 30000
    norms = sorted((sum(x * x for x in row) ** .5 for row in rows), reverse=True)

    def p(k):
        t = 1.0
        for x in norms[:k]:
            t *= max(x, 1)
        return t
    return 2 * p(n - 1) * p(n) < 30000


def pick(r):
    while True:
        k = r.random()
        if k < .3:
            v = gen.rnd_v(r, budget=24)
        elif k < .5:
            v = sym.symmetric_v(r)
        elif k < .6:
            v = gen.rnd_01(r)
        else:
            h = sym.symmetric_h(r) if k > .8 else gen.rnd_h(r) if k < .7 else gen.structured_h(r)
            if not small(h.rows() + [(0,) * h.dim + (-1,)]):
                continue
            want = poly.poly_vertices(h.rows())
            if want is None or not judge.feasible(want):
                continue
            return h, lambda out: judge.vertices(out, h, want) is not None
        if len(v.gens()) > 40 or not small(v.gens()):
            continue
        return v, lambda out: judge.facets(out, v) is not None


def lines(out):
    try:
        return [(red, kind, sorted(ls)) for red, kind, ls in drive.sections(out)]
    except drive.ParseError as e:
        raise judge.Bad('output-unparsable', str(e))


def one(seed, c):
    r = random.Random(seed)
    d, look = pick(r)
    for m in ('dd', 'ad'):
        if m == 'dd' and d.maps:
            continue
        first = None
        order = list(TYPES)
        r.shuffle(order)
        # the rows of one class depend on the order in which workers find them: one thread, so that runs are comparable
        for t in order:
            a = [] if not t else r.choice([['-i', t], ['-i=' + t], ['--integer-type=' + t]])
            args = ['-m', m, '-t', '1'] + a + ['@in']
            x = e2e.run(c, args, {'in': d.text()}, cpu=60)
            if not e2e.ok(c, x, args):
                return
            got = e2e.judged(c, args, x, lines)
            if got is None:
                return
            if first is None:
                first, fargs = got, args
                if e2e.judged(c, args, x, look) is None:
                    return
            elif got != first:
                c.bad('types-differ', '%s prints other rows than %s' % (' '.join(args), ' '.join(fargs)))
                c.files['args'], c.files['stdout'] = ' '.join(args), x.out[-8000:]
                return
        c.stats['compared_types'] += len(order)
        c.stats['rows_compared'] += sum(len(s[2]) for s in first) * len(order)
    c.nontrivial(seed)
    c.sample = {'input': d.text()[:300], 'kind': d.kind}


def body(chk):
    e2e.setup(chk, 'rel')
    chk.run(one, chk.seeds(chk.scale(2500, 60000), 13), chunk=16, seconds=chk.scale(120, 3000))
    chk.rule = ('small inner and outer descriptions (minors and products of two of them below 16 bits), with and without maps and equations; all six selections of the '
                'integer type with both methods have to print the same lines, one of them compared with the exact result')


core.main('C13', body)

import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import random
import core, e2e, gen, judge, many, poly


def inflate(r, h):
    """Redundant, repeated and scaled rows."""
    rows = list(h.ineqs)
    for _ in range(r.randint(1, 4)):
        k = r.random()
        a = r.choice(h.ineqs)
        if k < .3:
            rows.append(a)
        elif k < .6:
            rows.append(tuple(r.randint(2, 4) * x for x in a))
        elif k < .8:
            rows.append(a[:-1] + (a[-1] - r.randint(1, 2),))
        else:
            b = r.choice(h.ineqs)
            rows.append(tuple(x + y for x, y in zip(a, b)))
    rows = [x for x in rows if any(x[:-1])] or list(h.ineqs)
    r.shuffle(rows)
    return gen.H(rows, h.eqs, h.names, h.maps, h.kind + '+redundant')


def make(r):
    k = r.random()
    if k < .45:
        h = gen.rnd_h(r)
    elif k < .55:
        h = gen.rnd_h(r, lines=True)
    elif k < .75:
        h = gen.structured_h(r)
    else:
        v = gen.rnd_v(r, named=False, budget=16)
        while v.dim > 5:
            v = gen.rnd_v(r, named=False, budget=16)
        h = gen.h_from_v(r, v)
    if r.random() < .3:
        h = inflate(r, h)
    if r.random() < .5:
        h.names = gen.names_for(r, h.dim)
    return h


BIG = [lambda r: gen.h_from_v(r, gen.cut(5)), lambda r: gen.H([s + (-1,) for s in __import__('itertools').product((1, -1), repeat=6)], kind='cross-h6'),
       lambda r: gen.H([tuple(s if i == j else 0 for j in range(8)) + (-1,) for i in range(8) for s in (1, -1)], kind='box8'),
       lambda r: gen.h_from_v(r, gen.rnd_01(r, 6, 25)), lambda r: gen.h_from_v(r, gen.hypersimplex(6, 3)), lambda r: gen.h_from_v(r, gen.birkhoff(3)),
       lambda r: gen.h_from_v(r, gen.rnd_01(r, 7, 14)), lambda r: gen.h_from_v(r, gen.cyclic(4, 9)), lambda r: gen.rnd_h(r, True, False, 5)]


def one(item, c):
    seed, big = item
    r = random.Random(seed)
    h = make(r) if big is None else BIG[big](r)
    rows = h.rows()
    homrows = rows + [tuple([0] * h.dim + [-1])]
    want = poly.poly_vertices(rows)
    lines = want is None
    if lines:
        c.stats['with_lines'] += 1
    elif not judge.feasible(want):
        c.stats['infeasible_skipped'] += 1
        return
    it = e2e.int_args(r, e2e.types_for(rows) if big is None else ('64', 'safe', 'inf'))
    for m in ('dd', 'ad'):
        args = ['-m', m] + it + (['-t', str(r.choice([1, 2, 4, 8]))] if m == 'ad' and r.random() < .6 else [])
        if r.random() < .2:
            args += ['-s', r.choice(e2e.SORTS)]
        args += ['@in']
        x = e2e.run(c, args, {'in': h.text()}, cpu=100, wall=240)
        if not e2e.ok(c, x, args):
            return
        if lines:
            def look(out):
                got = judge.split_h(out, h.dim + 1, False)
                judge.generates(got, rows)
                return got
        else:
            def look(out):
                return judge.vertices(out, h, want)
        got = e2e.judged(c, args, x, look)
        if got is None:
            return
        c.stats['rows_checked'] += len(got)
        c.stats['rays'] += sum(1 for g in got if not g[-1])
        c.stats['fractional'] += sum(1 for g in got if g[-1] > 1)
    c.stats['kind:' + h.kind.split('-of-')[0]] += 1
    if len(got) > 1:
        c.nontrivial(sorted(rows))
        c.sample = {'input': h.text()[:300], 'rows': len(got)}


def body(chk):
    e2e.setup(chk, 'rel')
    for k in range(chk.scale(1, 4)):
        chk.run(many.large, many.part(chk.seed * 59 + k, ['dd', 'ad'], 'h'), chunk=1)
    chk.run(one, [(chk.seed * 977 + j, k) for j in range(chk.scale(3, 20)) for k in range(len(BIG))], chunk=1)
    chk.run(one, [(s, None) for s in chk.seeds(chk.scale(12000, 200000), 4)], chunk=16)
    chk.rule = ('random, structured and derived outer descriptions, redundant, scaled, with equations, unbounded and with lines, and families of up to 6400 rows with known results; both methods are compared with an '
                'exact vertex enumeration in Python (with lines: mutual inclusion of the generated cone); non-trivial: at least two rows printed')


core.main('C04', body)

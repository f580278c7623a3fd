import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import random
import core, e2e, gen, judge, poly


def make(r):
    k = r.random()
    if k < .55:
        d = r.randint(1, 12)
        n = r.randint(1, min(6, d + 1))
        c = r.choice([1, 1, 2, 3, 5] if n > 3 else [1, 2, 3, 5, 40])
        dens = r.choice([.3, .6, 1])
        pt = lambda: tuple(r.randint(-c, c) if r.random() < dens else 0 for _ in range(d))
        verts = gen.dedupe([pt() for _ in range(n)])
        rays = gen.dedupe([x for x in (pt() for _ in range(r.choice([0, 0, 1, 2]))) if any(x)])
        v = gen.V(verts, rays, kind='few-points')
    elif k < .8:
        v = gen.rnd_v(r, named=False)
        if v.dim > 5:
            v = gen.rnd_small(r)
        v = gen.embed(r, v, r.randint(1, 4), r.choice([1, 2]))
    else:
        v = gen.structured(r)
        if v.dim <= 5 and r.random() < .6:
            v = gen.embed(r, v, r.randint(1, 3), 1)
    d = v.dim
    if r.random() < .4:     # constant, repeated and zero coordinates in any position
        pos = r.randint(0, d)
        t = r.choice(['zero', 'const', 'repeat'])
        src = r.randrange(d)
        a = r.randint(-3, 3)
        f = lambda x, ray: tuple(x[:pos]) + ((0 if t == 'zero' or (ray and t == 'const') else a if t == 'const' else x[src]),) + tuple(x[pos:])
        v = gen.V([f(x, False) for x in v.verts], [f(x, True) for x in v.rays], kind=v.kind + '+' + t)
    if r.random() < .15:
        v = gen.rational(r, v)
    v.rays = gen.dedupe([x for x in v.rays if any(x)])
    if r.random() < .4:
        v.names = gen.names_for(r, v.dim)
    return v


def one(seed, c):
    r = random.Random(seed)
    v = make(r)
    gens = v.gens()
    want = len(gens[0]) - poly.rank(gens)
    m = max(abs(x) for g in gens for x in g)
    it = e2e.int_args(r, e2e.types_for(gens) if m <= 2 and len(gens[0]) <= 7 else ('inf',) if m > 5 else ('inf', 'safe') if len(gens) <= 5 else ('inf',))
    texts = []
    for m in ('dd', 'ad'):
        args = ['-m', m] + it + ['@in']
        x = e2e.run(c, args, {'in': v.text()}, cpu=60)
        if not e2e.ok(c, x, args):
            return

        def look(out):
            eqs, ineqs = judge.split_v(out, v.names, len(gens[0]), False)
            if ('Equations' in out) != (want > 0):
                raise judge.Bad('equations-section', 'section of equations printed: %s, codimension %d' % (bool(eqs), want))
            judge.check_equations(eqs, gens, want)
            for e in eqs:
                if judge.content(e) != 1:
                    raise judge.Bad('equation-not-primitive', 'equation %s is not in lowest terms' % (e,))
            return eqs
        eqs = e2e.judged(c, args, x, look)
        if eqs is None:
            return
        texts.append(sorted(eqs))
        c.stats['equations_checked'] += len(eqs)
    if texts[0] != texts[1]:
        c.bad('methods-differ', 'equations of double description %s, of adjacency decomposition %s' % tuple(texts))
    c.stats['codimension:%d' % min(want, 9)] += 1
    if want and len(gens) > 1:
        c.nontrivial(sorted(gens))
        c.sample = {'input': v.text()[:300], 'equations': texts[0]}


def body(chk):
    e2e.setup(chk, 'rel')
    chk.run(one, chk.seeds(chk.scale(12000, 200000), 3), chunk=16)
    chk.rule = 'simplices and polyhedra embedded in higher dimension, rank computed exactly in Python; non-trivial: at least one equation and two generators'


core.main('C03', body)

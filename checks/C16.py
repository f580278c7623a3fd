#!/usr/bin/env python3
"""Known data (-k) never changes the printed set."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import random
import build, core, e2e, gen, judge, notation, poly, sym

SO = None


def known_facets(r, v, oracle):
    """Text of a file with true facets in many forms, and what was varied."""
    eqs, f, _ = oracle
    k = r.random()
    n = len(f) if k < .2 else 1 if k < .4 else r.randint(1, len(f))
    rows = r.sample(f, n)
    tags = set()
    if n == len(f):
        tags.add('all')
    out = []
    for row in rows:
        row = list(row)
        if r.random() < .3:
            t = r.choice([2, 3, 5])
            row = [t * x for x in row]
            tags.add('scaled')
        for e in eqs:
            if r.random() < .5:
                t = r.choice([-2, -1, 1, 2])
                row = [a + t * b for a, b in zip(row, e)]
                tags.add('plus_equations')
        out.append(tuple(row))
    if r.random() < .25:
        out += r.sample(out, r.randint(1, len(out)))
        r.shuffle(out)
        tags.add('repeated')
    fancy = r.random() < .5
    use_names = v.names and r.random() < .8 and all(any(x[:-1]) for x in out)
    if use_names:
        lines = [notation.named(r, x, v.names, fancy=fancy) for x in out]
        tags.add('named')
    else:
        lines = [notation.unnamed(r, x, fancy=fancy) for x in out]
    t = r.choice(['Inequalities\n', 'Inequalities:\n', 'INEQUALITY_SECTION\n', 'INEQUALITIES\n']) + '\n'.join(lines) + '\n'
    if r.random() < .2:
        t += 'END\n'
    return t, tags


def known_vertices(r, h, want):
    w = sorted(want)
    k = r.random()
    n = len(w) if k < .2 else 1 if k < .4 else r.randint(1, len(w))
    w = r.sample(w, n)
    tags = {'all'} if n == len(want) else set()
    vs, rs = [x for x in w if x[-1]], [x for x in w if not x[-1]]
    if r.random() < .25:
        vs += [r.choice(vs)] if vs else []
        rs += [r.choice(rs)] if rs else []
        tags.add('repeated')
    sv = r.choice(['Vertices\n', 'Vertices:\n', 'CONV_SECTION\n']) + ''.join(' '.join(notation.fraction(r, gen.Fraction(y, x[-1])) for y in x[:-1]) + '\n' for x in vs) if vs else ''
    sr = ''
    if rs:
        s = r.choice([1, 1, 2, 3])
        if s > 1:
            tags.add('scaled')
        sr = r.choice(['Rays\n', 'Rays:\n', 'CONE_SECTION\n']) + ''.join(' '.join(str(s * y) for y in x[:-1]) + '\n' for x in rs)
    t = sv + sr if r.random() < .5 else sr + sv
    if r.random() < .2:
        t += 'END\n'
    if not vs:
        tags.add('rays_only')
    return t, tags


def pick(r):
    while True:
        k = r.random()
        if k < .3:
            v = gen.rnd_v(r, budget=26)
        elif k < .55:
            v = sym.symmetric_v(r)
            if len(v.gens()) > 60:
                continue
        if k < .55:
            oracle = poly.poly_facets(v.gens())
            if not oracle[1]:
                continue
            perms = gen.perms_of(v) if v.maps else None
            t, tags = known_facets(r, v, oracle)
            return v, lambda out: judge.facets(out, v, oracle, perms=perms) is not None, t, tags
        h = sym.symmetric_h(r) if k > .8 else gen.rnd_h(r) if k < .7 else gen.structured_h(r)
        want = poly.poly_vertices(h.rows())
        if want is None or not judge.feasible(want) or len(want) > 300:
            continue
        t, tags = known_vertices(r, h, want)
        return h, lambda out: judge.vertices(out, h, want) is not None, t, tags


def pick_large(r):
    """Hundreds and thousands of known rows."""
    if r.random() < .5:
        v, oracle = sym.closed_v(r)
        if r.random() < .3:
            v.maps = []
        perms = gen.perms_of(v) if v.maps else None
        t, tags = known_facets(r, v, oracle)
        return v, lambda out: judge.facets(out, v, oracle, perms=perms) is not None, t, tags | {'large'}
    while True:
        h, want = sym.closed_h(r)
        if len(want) <= 2100:       # every known row is compared with the classes, which takes time
            break
    if r.random() < .3 and len(want) <= 300:
        h.maps = []
    t, tags = known_vertices(r, h, want)
    return h, lambda out: judge.vertices(out, h, want) is not None, t, tags | {'large'}


def one(item, c):
    seed, large = item
    r = random.Random(seed)
    d, look, known, tags = pick_large(r) if large else pick(r)
    inner = isinstance(d, gen.V)
    for _ in range(2):
        opt = r.choice([['-k', '@known'], ['-k=@known'], ['--known-data=@known'], ['--known-facets=@known' if inner else '--known-vertices=@known']])
        args = (['-m', 'ad'] if r.random() < .4 else ['-m', 'dd'] if not d.maps and r.random() < .1 else []) + e2e.int_args(r, e2e.types_for(d.gens() if inner else d.rows()))
        args += ['-t', str(r.choice([1, 2, 3, 4, 8]))]
        args += opt + ['@in'] if r.random() < .5 else ['@in'] + opt
        if r.random() < .2 and not d.maps:
            args.append(r.choice(['-c', '--check']))
        env = {}
        if r.random() < .4:
            env = {'LD_PRELOAD': SO, 'PERTURB_SEED': str(r.randrange(10 ** 9))}
            c.stats['perturbed_schedules'] += 1
        variant = 'asan' if not env and r.random() < .08 else 'rel'
        x = e2e.run(c, args, {'in': d.text(), 'known': known}, variant, env=env, cpu=60)
        if not e2e.ok(c, x, args) or e2e.judged(c, args, x, look) is None:
            return
        c.stats['judged_runs'] += 1
        c.stats['threads_%s' % args[args.index('-t') + 1]] += 1
    for t in tags | {'inner' if inner else 'outer', 'maps' if d.maps else 'no_maps'}:
        c.stats['known_' + t] += 1
    c.nontrivial(seed)
    c.sample = {'input': d.text()[:300], 'known': known[:300], 'args': args}


def body(chk):
    global SO
    e2e.setup(chk, 'rel', 'asan')
    SO = build.preload('perturb')
    chk.run(one, [(s, True) for s in chk.seeds(chk.scale(40, 400), 160)], chunk=1)
    chk.run(one, [(s, False) for s in chk.seeds(chk.scale(5000, 120000), 16)], chunk=8, seconds=chk.scale(140, 3000))
    chk.rule = ('inner and outer descriptions with and without maps, equations and names, and known rows drawn from the exact result: any subset, any member of a class, '
                'scaled, repeated, shifted by equations, in any notation, with all forms of the option and thread counts, partly on perturbed schedules; each output is judged by the exact oracle')


core.main('C16', body)

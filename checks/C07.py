import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import random
import core, e2e, gen, judge, poly, sym


def representatives(r, items, rep):
    """A random member of every class, sometimes several."""
    cls = {}
    for i in items:
        cls.setdefault(rep[i], []).append(i)
    out = []
    for m in cls.values():
        out += r.sample(m, min(len(m), r.choice([1, 1, 1, 2, 3])))
    r.shuffle(out)
    return out, len(cls)


def preamble(v):
    return 'Names\n' + ' '.join(v.names) + '\nMaps\n' + '\n'.join(gen.map_text(m, v.names) for m in v.maps) + '\n'


def inner(c, r, v):
    oracle = poly.poly_facets(v.gens())
    perms = gen.perms_of(v)
    rep = gen.orbit_reps(v.verts, gen.apply_point, v.maps)
    red, n = representatives(r, v.verts, rep)
    secs = []
    mark_v = not v.rays or r.random() < .7
    if mark_v:
        secs.append('Reduced Vertices\n' + ''.join(' '.join(map(str, x)) + '\n' for x in red))
    else:
        secs.append('Vertices\n' + ''.join(' '.join(map(str, x)) + '\n' for x in v.verts))
    if v.rays:
        rays = [poly.primitive(x) for x in v.rays]
        rr = gen.orbit_reps(rays, gen.apply_ray, v.maps)
        rred, _ = representatives(r, rays, rr)
        if not mark_v or r.random() < .6:
            k = r.choice([1, 1, 2, 3])
            secs.append('Reduced Rays\n' + ''.join(' '.join(str(k * t) for t in x) + '\n' for x in rred))
        else:
            secs.append('Rays\n' + ''.join(' '.join(map(str, x)) + '\n' for x in v.rays))
    if r.random() < .4:
        secs.reverse()
    text = preamble(v) + ''.join(secs)
    types = e2e.types_for(v.gens())
    rows = {}
    for name, t in (('reduced', text), ('full', v.text())):
        for m in ('ad', 'dd'):
            args = ['-m', m] + e2e.int_args(r, types) + ['@' + name]
            x = e2e.run(c, args, {name: t}, cpu=60)
            if not e2e.ok(c, x, args):
                return
            res = e2e.judged(c, args, x, judge.facets, v, oracle, perms=perms)
            if res is None:
                return
            rows[name, m] = len(res[1])
    if len(set(rows.values())) != 1:
        c.bad('reduced-differs', '%s' % rows)
    c.stats['inner'] += 1
    c.stats['rows_given'] += len(red)
    c.stats['rows_represented'] += len(v.verts)
    if len(red) < len(v.verts):
        c.nontrivial('v', text)
        c.sample = {'input': text[:500], 'vertices': len(v.verts), 'listed': len(red)}


def outer(c, r, large=False):
    while True:
        h = sym.large_h(r) if large else sym.symmetric_h(r)
        if h.eqs and r.random() < .7 or not h.eqs:
            break
    if h.kind == 'sym-facets' and h.eqs:
        h = gen.H(h.ineqs, h.eqs, h.names, h.maps, h.kind)
    want = poly.poly_vertices(h.rows())
    if want is None or not judge.feasible(want):
        c.stats['skipped'] += 1
        return
    can = lambda x: next(iter(e2e.canon_rows([x], h.eqs)))
    rows = sorted({can(x) for x in h.ineqs})
    rows = [x for x in rows if any(x)]
    if not rows:
        return
    # classes modulo equations
    todo = set(rows)
    rep = gen.orbit_reps(rows, lambda m, x: can(sym.act_row(m, x)), h.maps)
    if set(rep) != todo:
        c.stats['skipped_not_closed'] += 1
        return
    red, n = representatives(r, rows, rep)
    out = []
    for x in red:
        k = r.choice([1, 1, 2, 3])
        x = [k * t for t in x]
        for e in h.eqs:
            t = r.choice([0, 0, 1, -1])
            x = [a + t * b for a, b in zip(x, e)]
        if not any(x):
            x = list(red[0])
        out.append(x)
    eqs = list(h.eqs)
    if eqs and r.random() < .3:     # a redundant equation
        eqs.append(tuple(a + b for a, b in zip(eqs[0], eqs[-1])))
    named = r.random() < .6 and all(any(x[:-1]) for x in out + eqs)
    f = (lambda x, op: gen.named_text(x, h.names, op)) if named else (lambda x, op: ' '.join(map(str, x)))
    text = preamble(h)
    if eqs:
        text += 'Equations\n' + ''.join(f(e, '=') + '\n' for e in eqs)
    text += 'Reduced Inequalities\n' + ''.join(f(x, '<=') + '\n' for x in out)
    full = gen.H(rows, h.eqs, h.names, h.maps).text() if all(any(x[:-1]) for x in rows) else h.text()
    types = e2e.types_for(h.rows() + out)
    for name, t in (('reduced', text), ('full', full)):
        for m in ('ad', 'dd'):
            args = ['-m', m] + e2e.int_args(r, types) + ['@' + name]
            x = e2e.run(c, args, {name: t}, cpu=60)
            if not e2e.ok(c, x, args):
                return
            if e2e.judged(c, args, x, judge.vertices, h, want) is None:
                return
    c.stats['outer'] += 1
    c.stats['outer_with_equations'] += bool(h.eqs)
    c.stats['rows_given'] += len(red)
    c.stats['rows_represented'] += len(rows)
    if len(red) < len(rows):
        c.nontrivial('h', text)
        c.sample = {'input': text[:500], 'inequalities': len(rows), 'listed': len(red)}


def one(item, c):
    kind, seed = item
    r = random.Random(seed)
    if kind == 'v':
        inner(c, r, sym.symmetric_v(r))
    elif kind == 'h':
        outer(c, r)
    elif kind == 'lv':
        c.stats['large_orbits'] += 1
        inner(c, r, sym.large(r))
    elif kind == 'lh':
        c.stats['large_orbits'] += 1
        outer(c, r, True)
    else:
        v = sym.BIG[seed % len(sym.BIG)](r)
        v.names = gen.names_for(r, v.dim)
        inner(c, r, v)


def body(chk):
    e2e.setup(chk, 'rel')
    chk.run(one, [('b', chk.seed * 64 + j) for j in range(chk.scale(len(sym.BIG), 6 * len(sym.BIG)))], chunk=1)
    chk.run(one, [('lv' if i % 2 else 'lh', s) for i, s in enumerate(chk.seeds(chk.scale(200, 5000), 77))], chunk=2)
    chk.run(one, [('v' if i % 2 else 'h', s) for i, s in enumerate(chk.seeds(chk.scale(5000, 90000), 7))], chunk=16)
    chk.rule = ('random members of every class instead of all of them, scaled and (for inequalities) shifted by equations; both the reduced and the full input '
                'are compared with the exact description of the full set; non-trivial: fewer rows listed than represented')


core.main('C07', body)

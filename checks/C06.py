import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import random
import core, e2e, gen, judge, poly, sym


def facets(c, r, v, cpu=60, oracle=None):
    gens = v.gens()
    oracle = oracle or poly.poly_facets(gens)
    perms = gen.perms_of(v)
    types = e2e.types_for(gens)
    for m in ('ad', 'dd'):
        args = ['-m', m] + e2e.int_args(r, types)
        if m == 'ad':
            args += ['-t', str(r.choice([1, 2, 4, 8]))]
        if r.random() < .2:
            args += ['-s', r.choice(e2e.SORTS)]
        args += ['@in']
        x = e2e.run(c, args, {'in': v.text()}, cpu=cpu, wall=300)
        if not e2e.ok(c, x, args):
            return
        res = e2e.judged(c, args, x, judge.facets, v, oracle, perms=perms)
        if res is None:
            return
    n = len(oracle[1])
    c.stats['facets_represented'] += n
    c.stats['classes'] += len(res[1])
    c.stats['lower_dimensional'] += bool(res[0])
    c.stats['generators_%d' % len(v.maps)] += 1
    c.stats['facet_enumerations'] += 1
    if len(res[1]) < n:
        c.nontrivial('v', sorted(gens), str(v.maps))
        c.sample = {'input': v.text()[:500], 'facets': n, 'classes': len(res[1])}


def vertices(c, r, h, want=None):
    rows = h.rows()
    want = want or poly.poly_vertices(rows)
    if want is None or not judge.feasible(want):
        c.stats['skipped_with_lines_or_infeasible'] += 1
        return
    types = e2e.types_for(rows)
    for m in ('ad', 'dd'):
        args = ['-m', m] + e2e.int_args(r, types)
        if m == 'ad':
            args += ['-t', str(r.choice([1, 2, 4, 8]))]
        args += ['@in']
        x = e2e.run(c, args, {'in': h.text()}, cpu=60)
        if not e2e.ok(c, x, args):
            return
        got = e2e.judged(c, args, x, judge.vertices, h, want)
        if got is None:
            return
    c.stats['vertices_represented'] += len(want)
    c.stats['vertex_enumerations'] += 1
    c.stats['vertex_enumerations_with_equations'] += bool(h.eqs)
    if len(got) < len(want):
        c.nontrivial('h', sorted(rows), str(h.maps))
        c.sample = {'input': h.text()[:500], 'vertices': len(want), 'classes': len(got)}


def one(item, c):
    kind, seed, k = item
    r = random.Random(seed)
    if kind == 'v':
        facets(c, r, sym.symmetric_v(r))
    elif kind == 'h':
        vertices(c, r, sym.symmetric_h(r))
    elif kind == 'lv':
        c.stats['large_orbits'] += 1
        facets(c, r, sym.large(r))
    elif kind == 'lh':
        c.stats['large_orbits'] += 1
        vertices(c, r, sym.large_h(r))
    elif kind == 'closed':
        c.stats['closed_form'] += 1
        if r.random() < .3:
            v, want = sym.closed_v(r)
            facets(c, r, v, oracle=want)
        else:
            vertices(c, r, *sym.closed_h(r))
    else:
        v = (sym.BIG + sym.HUGE)[k](r)
        v.names = gen.names_for(r, v.dim)
        if r.random() < .5:
            v = gen.permute_coords(r, v)
        facets(c, r, v, 300)


def body(chk):
    e2e.setup(chk, 'rel')
    n = len(sym.BIG) + (len(sym.HUGE) if chk.thorough else 0)
    chk.run(one, [('b', chk.seed * 31 + j, k) for j in range(chk.scale(2, 6)) for k in reversed(range(n))], chunk=1)
    chk.run(one, [('closed', s, None) for s in chk.seeds(chk.scale(32, 300), 666)], chunk=1)
    chk.run(one, [('lv' if i % 2 else 'lh', s, None) for i, s in enumerate(chk.seeds(chk.scale(240, 6000), 66))], chunk=2)
    chk.run(one, [('v' if i % 5 < 3 else 'h', s, None) for i, s in enumerate(chk.seeds(chk.scale(8000, 120000), 6))], chunk=16)
    chk.rule = ('polyhedra with randomly generated symmetry groups (permutations, reflections, affine maps of finite order, dependent coordinates, several '
                'generating systems) and the cut, linear ordering, Birkhoff, hypersimplex and cube families; orbits are computed in Python from the action on the '
                'generators; non-trivial: fewer classes than facets or vertices')


core.main('C06', body)

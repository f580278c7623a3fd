"""Workload with coefficients from small to the limits of int, and the judgement "exact or a loud failure"."""
import random
from fractions import Fraction
import drive, e2e, gen, judge, notation, poly, sym

INT = 2 ** 31 - 1


def num(r, m):
    """A number of magnitude up to m, the limits more often."""
    k = r.random()
    if k < .08:
        return r.choice([m, -m, m - 1, 1 - m])
    if k < .25:
        return r.randint(-3, 3)
    return r.randint(-m, m)


def magnitude(r):
    k = r.random()
    if k < .12:
        return INT
    if k < .2:
        return r.choice([2 ** 15, 2 ** 16, 2 ** 15 - 1, 2 ** 16 - 1, 46340, 46341, 2 ** 30, 65537])
    return max(2, min(INT, int(2 ** r.uniform(1, 31))))


def raw_v(r):
    d, m = r.randint(1, 5), magnitude(r)
    v = gen.V(gen.dedupe([num(r, m) for _ in range(d)] for _ in range(r.randint(1, d + 5))), kind='raw')
    if r.random() < .3:
        v.rays = gen.dedupe(x for x in ([num(r, m) for _ in range(d)] for _ in range(r.randint(1, 3))) if any(x))
    if r.random() < .25:
        q = r.choice([2, 3, 5, 6, 7, 16, 97, 1000, 46337, 2 ** 16])
        v.verts = gen.dedupe([Fraction(x, r.choice([1, q])) for x in p] for p in v.verts)
    return v


def raw_h(r):
    d, m = r.randint(1, 4), magnitude(r)
    p = [r.randint(-3, 3) for _ in range(d)]
    rows = []
    for _ in range(r.randint(d + 1, d + 5)):
        a = [num(r, m) for _ in range(d)]
        if any(a):
            rows.append(a + [-(poly.dot(a, p) + r.choice([0, 1, r.randint(0, m)]))])
    if r.random() < .6:
        b = max(4, magnitude(r))
        for i in range(d):
            for s in (1, -1):
                rows.append([s if i == j else 0 for j in range(d)] + [-r.randint(4, b)])
    r.shuffle(rows)
    eqs = []
    if d > 1 and r.random() < .2:
        a = [num(r, m) for _ in range(d)]
        if any(a):
            eqs = [a + [-poly.dot(a, p)]]
    return gen.H(rows, eqs, kind='raw') if rows else None


def dual_v(r):
    """Inner description with large numbers of a polyhedron with small facets."""
    d = r.randint(2, 4)
    m = r.choice([3, 10, 30, 100, 300])
    for _ in range(20):
        rows = [[r.randint(-m, m) for _ in range(d)] for _ in range(r.randint(d + 1, d + 4))]
        rows = [a + [-r.randint(1, m)] for a in rows if any(a)]
        rows += [[s if i == j else 0 for j in range(d)] + [-m] for i in range(d) for s in (1, -1)]
        w = poly.poly_vertices(rows)
        if w and judge.feasible(w) and all(abs(x) <= INT for row in w for x in row) and len(w) < 40:
            return gen.V([tuple(Fraction(x, g[-1]) for x in g[:-1]) for g in sorted(w) if g[-1]], [g[:-1] for g in sorted(w) if not g[-1]], kind='dual')
    return None


def dual_h(r):
    """Outer description with large numbers of a polyhedron with small vertices."""
    d = r.randint(2, 4)
    m = r.choice([3, 10, 30, 100, 1000])
    for _ in range(20):
        v = gen.V(gen.dedupe([r.randint(-m, m) for _ in range(d)] for _ in range(r.randint(d + 2, d + 7))))
        eqs, f, _ = poly.poly_facets(v.gens())
        if not eqs and f and len(f) < 40:
            s = [r.choice([1, 1, 2, 3, 1000]) for _ in f]
            rows = [tuple(t * x for x in row) for t, row in zip(s, f)]
            rows = [a if max(map(abs, a)) <= INT else b for a, b in zip(rows, f)]
            if all(abs(x) <= INT for row in rows for x in row):
                return gen.H(rows, kind='dual')
    return None


def structured(r):
    k, m = r.randint(0, 5), magnitude(r)
    d = r.randint(1, 5)
    if k == 0:
        lo = r.choice([-m, 0, m - 1, -INT, INT - 1])
        return gen.cube(d, lo, min(INT, lo + r.choice([1, 2, m, INT])))
    if k == 1:
        return gen.cross(d, m)
    if k == 2:
        d = r.randint(2, 5)
        t = sorted({r.randint(-int(INT ** (1 / d)), int(INT ** (1 / d))) for _ in range(d + r.randint(1, 4))})
        return gen.V([tuple(x ** i for i in range(1, d + 1)) for x in t], kind='moment-curve')
    if k == 3:
        return gen.V([tuple(num(r, m) if i == j else 0 for j in range(d)) for i in range(d)] + [(0,) * d], kind='scaled-simplex')
    if k == 4:
        return gen.H([tuple(s if i == j else 0 for j in range(d)) + (-r.choice([m, INT, 1]),) for i in range(d) for s in (1, -1)], kind='wide-box')
    d = r.randint(1, 4)
    return gen.H([tuple(-1 if i == j else 0 for j in range(d)) + (0,) for i in range(d)] + [tuple(r.randint(1, m) for _ in range(d)) + (-r.randint(1, m),)], kind='knapsack')


def symmetric(r):
    """Symmetric polytopes scaled by a factor: linear maps stay valid, their constants scale."""
    for _ in range(20):
        v = sym.symmetric_v(r)
        if len(v.gens()) > 24 or any(g[-1] not in (0, 1) for g in v.gens()):
            continue
        top = max(1, max(abs(x) for g in v.gens() for x in g))
        s = max(1, min(magnitude(r), INT // top))
        d = v.dim
        if any(abs(c * s) > INT for m in v.maps for im in m for i, c in im.items() if i == d):
            continue
        maps = [[{i: (c * s if i == d else c) for i, c in im.items()} for im in m] for m in v.maps]
        return gen.V([tuple(s * x for x in p) for p in v.verts], v.rays, v.names, maps, v.kind + '*%d' % s)
    return None


def dependent(r):
    """Symmetric polytopes in a subspace: the equations and the images have large coefficients."""
    for _ in range(20):
        v = gen.rnd_sym(r, embedded=False)
        if v.dim > 3 or len(v.gens()) > 16:
            continue
        m = magnitude(r)
        v = sym.embedded(r, v, lambda: r.choice([num(r, m), num(r, 3)]))
        if all(abs(x) <= INT for g in v.gens() for x in g) and all(abs(c) <= INT for mp in v.maps for im in mp for c in im.values()):
            return v
    return None


def overflowing(r):
    """(symmetric polytope, reduced text): the listed members of the classes fit int, others do not."""
    for _ in range(40):
        v = sym.symmetric_v(r)
        if len(v.gens()) > 24 or any(g[-1] not in (0, 1) for g in v.gens()) or v.rays:
            continue
        d = v.dim
        big = sorted({max(map(abs, p)) for p in v.verts})
        if len(big) < 2:
            continue
        top = r.choice(big[:-1])
        if not top:
            continue
        s = INT // top - r.choice([0, 0, r.randint(0, INT // top // 3)])
        if any(abs(c * s) > INT for m in v.maps for im in m for i, c in im.items() if i == d):
            continue
        maps = [[{i: (c * s if i == d else c) for i, c in im.items()} for im in m] for m in v.maps]
        w = gen.V([tuple(s * x for x in p) for p in v.verts], [], v.names or gen.names_for(r, d), maps, v.kind + '-overflowing')
        rep = gen.orbit_reps(w.verts, gen.apply_point, w.maps)
        cls = {}
        for x in w.verts:
            cls.setdefault(rep[x], []).append(x)
        out = []
        for m in cls.values():
            m = [x for x in m if max(map(abs, x)) <= INT]
            if not m:
                break
            out += r.sample(m, min(len(m), r.choice([1, 1, 2])))
        else:
            return w, ('Names\n' + ' '.join(w.names) + '\nMaps\n' + '\n'.join(gen.map_text(m, w.names) for m in w.maps) + '\nReduced Vertices\n'
                       + ''.join(' '.join(map(str, x)) + '\n' for x in out))
    return None


def symmetric_h(r):
    """Symmetric outer descriptions scaled by a factor (rows a x <= b become a x <= s b)."""
    for _ in range(20):
        h = sym.symmetric_h(r)
        if len(h.ineqs) > 24:
            continue
        rows = h.rows()
        top = max([1] + [abs(x[-1]) for x in rows] + [abs(c) for m in h.maps for im in m for i, c in im.items() if i == h.dim])
        s = max(1, min(magnitude(r), INT // top))
        d = h.dim
        scale = lambda row: row[:-1] + (s * row[-1],)
        maps = [[{i: (c * s if i == d else c) for i, c in im.items()} for im in m] for m in h.maps]
        return gen.H([scale(tuple(x)) for x in h.ineqs], [scale(tuple(x)) for x in h.eqs], h.names, maps, h.kind + '*%d' % s)
    return None


def reduced(r, v):
    """Text of an inner description with maps that lists only some members of each class of vertices and rays."""
    t = 'Names\n' + ' '.join(v.names) + '\nMaps\n' + '\n'.join(gen.map_text(m, v.names) for m in v.maps) + '\n'
    for title, rows, act in (('Vertices', v.verts, gen.apply_point), ('Rays', [poly.primitive(x) for x in v.rays], gen.apply_ray)):
        if not rows:
            continue
        rep = gen.orbit_reps(rows, act, v.maps)
        cls = {}
        for x in rows:
            cls.setdefault(rep[x], []).append(x)
        out = [x for m in cls.values() for x in r.sample(m, min(len(m), r.choice([1, 1, 2])))]
        r.shuffle(out)
        t += 'Reduced %s\n' % title + ''.join(' '.join(map(str, x)) + '\n' for x in out)
    return t


def known(r, d, oracle):
    """Text of a file with some rows of the exact result, or None."""
    if isinstance(d, gen.V):
        rows = [tuple(x) for x in oracle[1] if all(abs(y) <= INT for y in x)]
        if not rows:
            return None
        rows = r.sample(rows, r.randint(1, len(rows)))
        return 'Inequalities\n' + '\n'.join(notation.unnamed(r, x, fancy=False) for x in rows) + '\n'
    rows = [x for x in sorted(oracle) if all(abs(y) <= INT for y in x)]
    if not rows:
        return None
    rows = r.sample(rows, r.randint(1, len(rows)))
    out = ''
    vs, rs = [x for x in rows if x[-1]], [x for x in rows if not x[-1]]
    if vs:
        out += 'Vertices\n' + ''.join(' '.join(str(Fraction(y, x[-1])) for y in x[:-1]) + '\n' for x in vs)
    if rs:
        out += 'Rays\n' + ''.join(' '.join(map(str, x[:-1])) + '\n' for x in rs)
    return out


def case(r):
    """(description, oracle, files, options): sometimes with a reduced input or known data of large magnitude."""
    if r.random() < .05:
        w = overflowing(r)
        if w:
            return w[0], poly.poly_facets(w[0].gens()), {'in': w[1]}, []
    d, oracle = pick(r)
    files, opt = {'in': d.text()}, []
    if d.maps and isinstance(d, gen.V) and r.random() < .5:
        files['in'] = reduced(r, d)
    if r.random() < .25:
        k = known(r, d, oracle)
        if k:
            files['known'] = k
            opt = ['-k', '@known']
    return d, oracle, files, opt


def fractions(r):
    """Vertices whose common denominators are large; those of a vertex need not fit int."""
    d = r.randint(1, 4)
    m = r.choice([2 ** 8, 2 ** 11, 2 ** 16, 2 ** 20, 2 ** 30])
    return gen.V(gen.dedupe(tuple(Fraction(r.randint(-m, m), r.choice([1, r.randint(1, m), r.randint(m // 2, m)])) for _ in range(d)) for _ in range(r.randint(2, 7))), kind='fractions')


def pick(r):
    """(description, oracle); every number of the input fits int, except that common denominators of vertices are not limited."""
    while True:
        k = r.random()
        if k < .04:
            v = fractions(r)
            return v, poly.poly_facets(v.gens())
        k = r.random()
        d = (raw_v(r) if k < .3 else raw_h(r) if k < .5 else dual_v(r) if k < .62 else dual_h(r) if k < .74 else structured(r) if k < .84 else symmetric(r) if k < .9 else dependent(r) if k < .95 else symmetric_h(r))
        if d is None:
            continue
        rows = d.gens() if isinstance(d, gen.V) else d.rows()
        if any(abs(x) > INT for row in rows for x in row):
            continue
        if isinstance(d, gen.V):
            if not d.verts:
                continue
            if d.maps:
                d.names = d.names or gen.names_for(r, d.dim)
            elif r.random() < .3:
                d.names = gen.names_for(r, d.dim)
            return d, poly.poly_facets(d.gens())
        if not d.maps and r.random() < .3:
            d.names = gen.names_for(r, d.dim)
        want = poly.poly_vertices(d.rows())
        if want is None or not judge.feasible(want):
            continue
        return d, want


def judge_exact(d, oracle):
    if isinstance(d, gen.V):
        return lambda out: judge.facets(out, d, oracle) is not None
    return lambda out: judge.vertices(out, d, oracle) is not None


def size(d, oracle):
    """Largest number of the exact result, in homogeneous rows."""
    rows = oracle[1] if isinstance(d, gen.V) else oracle
    return max((abs(x) for row in rows for x in row), default=0)


def fits(d, oracle):
    """True: every number to be printed fits int; False: some does not; None: depends on the representation chosen."""
    if isinstance(d, gen.V) and (oracle[0] or any(abs(x) > INT for g in d.gens() for x in g)):
        return None
    if d.maps:
        return True if size(d, oracle) <= INT and not (not isinstance(d, gen.V) and d.eqs) else None
    if not isinstance(d, gen.V) and d.eqs:
        return True if size(d, oracle) <= INT else None
    s = size(d, oracle)
    return True if s <= INT else False if s > INT + 1 and isinstance(d, gen.V) else None


def partial(out, d, oracle):
    """Complete lines printed before a loud failure are right."""
    names = d.names
    lines = out.split('\n')[:-1]
    kind = None
    for t in lines:
        s = t.strip()
        if not s:
            continue
        if s.rstrip(':').replace('Reduced ', '') in drive.SECTIONS:
            kind = s.rstrip(':').replace('Reduced ', '')
            continue
        try:
            if isinstance(d, gen.V):
                row = drive.parse_constraint(s, names, '=' if kind == 'Equations' else '<=')
                ok, m = poly.row_mask(row, d.gens())
                if kind == 'Equations':
                    ok = ok and m == (1 << len(d.gens())) - 1
                elif ok:
                    ok = m in set(oracle[2])
                if not ok:
                    raise judge.Bad('wrong-row-before-failure', 'printed row %r is wrong' % s)
            else:
                row = gen.hom(drive.parse_fraction_row(s)) if kind == 'Vertices' else drive.parse_row(s) + ((0,) if kind == 'Rays' else ())
                if poly.primitive(row) not in oracle:
                    raise judge.Bad('wrong-row-before-failure', 'printed row %r is wrong' % s)
        except drive.ParseError as e:
            raise judge.Bad('output-unparsable', str(e))
    return True

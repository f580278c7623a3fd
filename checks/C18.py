#!/usr/bin/env python3
"""--check accepts exactly valid maps and valid known rows."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import random
from fractions import Fraction
import core, e2e, gen, judge, notation, poly, sym


# ---------------------------------------------------------------- which maps are valid

def permutes(items, act):
    s = set(items)
    return {act(x) for x in s} == s


def valid(d, m):
    if isinstance(d, gen.V):
        if d.rays and not permutes([poly.primitive(x) for x in d.rays], lambda x: poly.primitive(gen.apply_ray(m, x))):
            return False
        return permutes([tuple(Fraction(t) for t in x) for x in d.verts], lambda x: tuple(Fraction(t) for t in gen.apply_point(m, x)))
    return permutes([poly.primitive(x) for x in d.ineqs], lambda x: sym.act_row(m, x))


def clean(m):
    return [{i: c for i, c in im.items() if c} for im in m]


def broken(r, d, m):
    """A changed map, which may by chance be valid still."""
    n = len(m)
    m = [dict(im) for im in m]
    k = r.randrange(9)
    i, j = r.randrange(n), r.randrange(n)
    if k == 0:
        m[i] = dict(m[j])
    elif k == 1:
        m[i] = {a: -c for a, c in m[i].items()}
    elif k == 2:
        m[i][n] = m[i].get(n, 0) + r.choice([-1, 1, 1, 2])
    elif k == 3:
        m[i], m[j] = m[j], m[i]
    elif k == 4:
        m = [{r.randrange(n): r.choice([1, 1, -1])} for _ in range(n)]
    elif k == 5:
        m = [{a: r.randint(-1, 1) for a in range(n + 1)} for _ in range(n)]
    elif k == 6:
        m[i] = {}
    elif k == 7 and isinstance(d, gen.V):
        # everything to one point: each image is present, but this is no bijection
        v = r.choice(d.verts)
        if all(Fraction(x).denominator == 1 for x in v):
            m = [{n: int(x)} for x in v]
    else:
        m[i] = {a: 2 * c for a, c in m[i].items()}
    return clean(m)


def described(r, c):
    """(description, text): symmetric data in a random order with repetitions and other scalings."""
    while True:
        if r.random() < .6:
            d = sym.symmetric_v(r)
            if len(d.gens()) <= 60:
                break
        else:
            d = sym.symmetric_h(r)
            want = poly.poly_vertices(d.rows())
            if want is not None and judge.feasible(want) and len(want) <= 200:
                break
    if isinstance(d, gen.V):
        if r.random() < .3:     # larger numbers: the polytope in units of 1/s, or s times as large
            s = r.choice([Fraction(1, 2), Fraction(1, 3), Fraction(1, 7), 3, 10, 1000, 10 ** 6, Fraction(2, 3)])
            if all(a < len(m) for m in d.maps for im in m for a in im):
                d = gen.V([tuple(s * Fraction(x) for x in v) for v in d.verts], d.rays, d.names, d.maps, d.kind)
                c.stats['scaled_polytope'] += 1
    return d


def rows_text(r, d):
    """The file with another order, repeated rows and scaled rows, maps anywhere."""
    tags = set()
    secs = []
    inner = isinstance(d, gen.V)

    def vary(rows, scalable):
        rows = list(rows)
        if r.random() < .35:
            rows += [r.choice(rows) for _ in range(r.choice([1, 2, 5]))]
            tags.add('repeated_rows')
        if scalable and r.random() < .5:
            rows = [tuple(t * x for x in row) for t, row in ((r.choice([1, 1, 2, 3, 10]), row) for row in rows)]
            tags.add('scaled_rows')
        if r.random() < .7:
            r.shuffle(rows)
        return rows
    if inner:
        if d.verts:
            secs.append('Vertices\n' + ''.join(' '.join(map(str, v)) + '\n' for v in vary(d.verts, False)))
        if d.rays:
            secs.append('Rays\n' + ''.join(' '.join(map(str, v)) + '\n' for v in vary(d.rays, True)))
    else:
        if d.eqs:
            secs.append('Equations\n' + ''.join(notation.unnamed(r, e, False, '=') + '\n' for e in d.eqs))
        secs.append('Inequalities\n' + ''.join(notation.unnamed(r, e, False) + '\n' for e in vary(d.ineqs, True)))
    maps = 'Maps\n' + ''.join(gen.map_text(m, d.names) + '\n' for m in d.maps)
    if r.random() < .5:
        secs.insert(0, maps)
    else:
        secs.insert(r.randrange(len(secs) + 1), maps)
        tags.add('maps_later')
    if d.names:
        secs.insert(0, 'Names\n' + ' '.join(d.names) + '\n')
    return ''.join(secs), tags


def refused(c, x, args, what, text):
    if x.hang in ('slow', 'killed'):
        c.inconclusive = x.hang
        return
    p = None
    if x.hang:
        p = ('check-hang', 'did not terminate')
    elif x.rc == 0:
        p = ('check-accepted', 'was accepted')
    elif x.rc in (-11, -7, -8, -4):
        p = ('check-crash', 'ended with signal %d' % -x.rc)
    elif x.out.strip():
        p = ('check-output', 'printed rows')
    elif not [l for l in x.err.split('\n') if l.strip() and not l.startswith('PANDA')]:
        p = ('check-silent', 'was refused without an explanation')
    if p:
        c.bad(p[0], '%s: %s %s\n%s' % (' '.join(args), what, p[1], text[:500]))
        c.files.update({'args': ' '.join(args) + '\n', 'stdout': x.out[:4000], 'stderr': x.err[-3000:]})
        return
    c.stats['refused'] += 1


def look_at(d, out):
    if isinstance(d, gen.V):
        return judge.facets(out, d, perms=gen.perms_of(d) if d.maps else None) is not None
    return judge.vertices(out, d) is not None


def options(r, d):
    rows = d.gens() if isinstance(d, gen.V) else d.rows()
    a = ['-m', r.choice(['ad', 'dd'])] + e2e.int_args(r, e2e.types_for(rows)) + ['-t', str(r.choice([1, 1, 2, 4]))]
    if r.random() < .3:
        a += ['-s', r.choice(e2e.SORTS)]
    if r.random() < .5:
        return [r.choice(['-c', '--check', '--checked'])] + a + ['@in']
    return a + ['@in'] + [r.choice(['-c', '--check', '--checked'])]


def maps_case(r, c):
    d = described(r, c)
    inner = isinstance(d, gen.V)
    if not all(valid(d, m) for m in d.maps):
        c.stats['skipped'] += 1
        return
    if r.random() < .5:
        text, tags = rows_text(r, d)
        args = options(r, d)
        x = e2e.run(c, args, {'in': text}, cpu=60)
        if not e2e.ok(c, x, args, 'valid maps: '):
            return
        if e2e.judged(c, args, x, lambda out: look_at(d, out)) is None:
            return
        c.stats['accepted_' + ('inner' if inner else 'outer')] += 1
        for t in tags:
            c.stats['accepted_' + t] += 1
        if inner and d.rays:
            c.stats['accepted_rays'] += 1
        if not inner and d.eqs:
            c.stats['accepted_equations'] += 1
        c.nontrivial('valid', text)
        c.sample = {'input': text[:500], 'args': args, 'verdict': 'accepted'}
        return
    maps = list(d.maps)
    if maps and r.random() < .2:
        maps += [r.choice(maps) for _ in range(r.choice([3, 10, 40, 150]))]
        c.stats['many_maps'] += 1
    kind = r.random()
    if kind < .75:
        for _ in range(20):
            m = broken(r, d, r.choice(maps))
            if not valid(d, m):
                break
        else:
            return
        pos = r.randrange(len(maps) + 1)
        if r.random() < .5 and pos < len(maps):
            maps[pos] = m
        else:
            maps.insert(pos, m)
        label = 'map'
        c.stats['offending_map_%s' % ('only' if len(maps) == 1 else 'first' if pos == 0 else 'last' if pos == len(maps) - 1 else 'inside')] += 1
        w = type(d)(*((d.verts, d.rays) if inner else (d.ineqs, d.eqs)), d.names, maps, d.kind)
    else:       # one row less, one row more or one row changed
        rows, other = (list(d.verts), d.rays) if inner else (list(d.ineqs), d.eqs)
        tail = None
        if inner and d.rays and r.random() < .5:
            tail, rows, other = 'rays', list(d.rays), d.verts
        i = r.randrange(len(rows))
        if kind < .85 and len(rows) > 1:
            del rows[i]
        else:
            row = list(rows[i])
            row[r.randrange(len(row))] += r.choice([-1, 1, 2])
            row = tuple(row)
            if not any(row[:-1] if not inner else row if tail else (1,)):
                return
            if kind < .93:
                rows[i] = row
            else:
                rows.insert(i, row)
        a, b = (other, rows) if tail else (rows, other)
        w = type(d)(a, b, d.names, maps, d.kind)
        if all(valid(w, m) for m in maps):
            return
        label = 'row'
    # modulo equations the answer may be another one
    if not inner and w.eqs:
        bad = [m for m in maps if not valid(w, m)]
        s = e2e.canon_rows(w.ineqs, w.eqs)
        if all(e2e.canon_rows([sym.act_row(m, x) for x in w.ineqs], w.eqs) == s for m in bad):
            return
    text, tags = rows_text(r, w)
    args = options(r, d)
    x = e2e.run(c, args, {'in': text}, cpu=60)
    refused(c, x, args, 'an invalid map', text)
    c.stats['refused_%s_%s' % (label, 'inner' if inner else 'outer')] += 1
    for t in tags:
        c.stats['refused_' + t] += 1
    if inner and all(valid(gen.V(w.verts, (), maps=[m]), m) for m in maps):
        c.stats['refused_only_rays'] += 1
    c.nontrivial('invalid', text)
    c.sample = {'input': text[:500], 'args': args, 'verdict': 'refused'}


# ---------------------------------------------------------------- known rows

def many(r, rows, c):
    """A few of the rows, all of them, or hundreds with repetitions."""
    k = r.random()
    if k < .5:
        return r.sample(rows, r.randint(1, min(len(rows), 4)))
    out = r.sample(rows, r.randint(1, len(rows)))
    if k > .75:
        out += [r.choice(rows) for _ in range(r.choice([5, 20, 60, 60, 300]))]
        r.shuffle(out)
    c.stats['known_rows_' + ('over_100' if len(out) > 100 else 'over_10' if len(out) > 10 else 'to_10')] += 1
    return out


def known_case(r, c):
    inner = r.random() < .6
    while True:
        if inner:
            d = sym.symmetric_v(r) if r.random() < .2 else gen.rnd_v(r, budget=20)
            if len(d.gens()) > 40:
                continue
            eqs, f, _ = poly.poly_facets(d.gens())
            if f:
                break
        else:
            d = gen.rnd_h(r) if r.random() < .7 else gen.structured_h(r)
            want = poly.poly_vertices(d.rows())
            if want is not None and judge.feasible(want) and len(want) <= 100 and poly.rank(list(want)) >= 2:
                break
    if inner:
        gens = d.gens()
        rows = []
        for row in many(r, f, c):
            for e in eqs:
                t = r.choice([0, 0, 1, -1, 2])
                row = tuple(a + t * b for a, b in zip(row, e))
            t = r.choice([1, 1, 1, 2, 5])
            rows.append(tuple(t * x for x in row))
        good = r.random() < .4
        if not good:
            masks = {poly.row_mask(x, gens)[1] for x in f}
            for _ in range(30):
                k = r.randrange(7)
                i = r.randrange(len(rows))
                bad = list(rows[i])
                if k == 0:
                    bad[-1] += r.choice([1, 2, 3])             # cuts off
                elif k == 1:
                    bad[-1] -= r.choice([1, 2, 3])             # valid, strict
                elif k == 2 and len(f) > 1:                    # lower-dimensional face
                    a, b = r.sample(f, 2)
                    bad = [x + y for x, y in zip(a, b)]
                elif k == 3 and eqs:
                    t = r.choice([-1, 1])
                    bad = [t * x for x in r.choice(eqs)]
                    bad[-1] -= r.choice([0, 0, 1, 2])          # holds strictly: tight at rays at most
                elif k == 6:                                   # tight at rays only, if at all
                    bad = [0] * (len(bad) - 1) + [-r.choice([0, 1, 1, 2])]
                    if eqs and r.random() < .7:
                        bad = [a + b for a, b in zip(bad, r.choice(eqs))]
                elif k == 4:
                    bad[r.randrange(len(bad))] += r.choice([-1, 1])
                else:
                    bad = [-x for x in bad]
                bad = tuple(bad)
                ok, m = poly.row_mask(bad, gens)
                if (any(bad[:-1]) or k == 6) and not (ok and m in masks):
                    break
            else:
                return
            rows.insert(r.choice([r.randint(0, len(rows)), len(rows)]), bad)
        known = 'Inequalities\n' + ''.join(notation.unnamed(r, x, False) + '\n' for x in rows)
    else:
        pts = many(r, sorted(want), c)
        good = r.random() < .4
        if not good:
            for _ in range(30):
                k = r.randrange(4)
                bad = list(r.choice(pts))
                if k == 0 and len(want) > 1:                   # inside of the polyhedron or of a face
                    a, b = r.sample(sorted(want), 2)
                    bad = [x + y for x, y in zip(a, b)]
                elif k == 1:
                    bad[r.randrange(len(bad) - 1)] += r.choice([-1, 1])
                elif k == 2:
                    bad = [-x for x in bad[:-1]] + bad[-1:]
                else:
                    bad = [sum(x) for x in zip(*want)]
                bad = poly.primitive(bad)
                if any(bad[:-1]) and bad not in want:
                    break
            else:
                return
            pts.insert(r.choice([r.randint(0, len(pts)), len(pts)]), bad)
        vs, rs = [x for x in pts if x[-1]], [x for x in pts if not x[-1]]
        known = ('Vertices\n' + ''.join(' '.join(str(Fraction(a, x[-1])) for a in x[:-1]) + '\n' for x in vs) if vs else '') + \
                ('Rays\n' + ''.join(' '.join(str(r.choice([1, 1, 2]) * 1 * a) if False else str(a) for a in x[:-1]) + '\n' for x in rs) if rs else '')
    args = options(r, d)
    k = ['-k', '@known'] if r.random() < .5 else [r.choice(['-k=@known', '--known-data=@known', '--known-facets=@known' if inner else '--known-vertices=@known'])]
    args = k + args if r.random() < .5 else args + k
    x = e2e.run(c, args, {'in': d.text(), 'known': known}, cpu=60)
    side = 'facets' if inner else 'vertices'
    if good:
        if not e2e.ok(c, x, args, 'valid known rows: '):
            return
        if e2e.judged(c, args, x, lambda out: look_at(d, out)) is None:
            return
        c.stats['known_%s_accepted' % side] += 1
    else:
        refused(c, x, args, 'a known row that is none', d.text() + known)
        c.stats['known_%s_refused' % side] += 1
    c.nontrivial('known', good, d.text(), known)


# ---------------------------------------------------------------- numbers near the limits of the input

def large_case(r, c):
    """Two maps which differ by one unit in large numbers: the answer has to be exact."""
    m = r.choice([10 ** 4 + r.randrange(100), 10 ** 6 + 1, 10 ** 9 - r.randrange(1000), 2 ** 31 - 1 - r.randrange(3), 2 ** 30 + 1])
    k = r.randrange(3)
    off = r.choice([0, 0, 1, -1])
    if k == 0:          # interval [a, m-a] reflected at m
        a = r.randrange(min(m // 2, 10 ** 6))
        text = 'Names\nx\nMaps\n-x+%d\nVertices\n%d\n%d\n' % (m, a, m - a + off)
        inner = True
        if m - a + off > 2 ** 31 - 1 or a == m - a:
            return
        bad = off
    elif k == 1:        # two points of a line, shear x -> x, y -> y + k x - c
        t = r.choice([2, 3, 7, 1000])
        if m * t > 2 ** 31 - 1:
            m //= t
        # (0,0),(1,m),(2,0),(1,-m): y -> -y, and x -> 2-x
        text = 'Names\nx y\nMaps\n-x+2 y\nx -y\nVertices\n0 0\n1 %d\n2 0\n1 %d\n' % (m, -m + off)
        bad = off
        inner = True
    else:               # outer: x <= m, -x <= m
        text = 'Names\nx y\nMaps\n-x y\ny x\nInequalities\n1 0 %d\n-1 0 %d\n0 1 %d\n0 -1 %d\n' % (-m, -m, -m + off, -m)
        bad = off
        inner = False
    args = ['-c', '-i', 'inf', '-m', r.choice(['ad', 'dd']), '@in']
    x = e2e.run(c, args, {'in': text}, cpu=30)
    if bad:
        refused(c, x, args, 'an invalid map', text)
        c.stats['large_refused'] += 1
    else:
        if not e2e.ok(c, x, args, 'valid maps: '):
            return
        if not x.out.strip():
            c.bad('check-no-rows', '%s: no rows for\n%s' % (' '.join(args), text))
        c.stats['large_accepted'] += 1
    c.nontrivial('large', text)


# ---------------------------------------------------------------- hundreds of rows

def rows_case(r, c):
    """Points of a parabola, or of a product of two, and regions cut out by tangents: hundreds of rows, at most one of them wrong."""
    kind = r.choice(['parabola', 'product', 'tangents'])
    two = kind == 'product'
    k = r.choice([4, 7, 9]) if two else r.choice([20, 40, 65, 100, 130, 200])
    span = range(-k, k + 1)
    n = 4 if two else 2
    ident = [{i: 1} for i in range(n)]
    flip = [{0: -1}] + ident[1:]
    maps = [flip] + ([[{2: 1}, {3: 1}, {0: 1}, {1: 1}]] if two else [])
    if r.random() < .3:
        maps.insert(r.randrange(len(maps) + 1), ident)
    if two:
        rows = [(i, i * i, j, j * j) for i in span for j in span]
    elif kind == 'parabola':
        rows = [(i, i * i) for i in span]
    else:
        rows = [(2 * i, -1, -i * i) for i in span] + [(0, 1, -k * k)]
    r.shuffle(rows)
    good = r.random() < .35
    at = None
    if not good:
        q = r.random()
        at = r.choice([r.randrange(len(rows)), len(rows) - 1, r.randrange(len(rows) // 2, len(rows))])
        row = list(rows[at])
        if not row[0]:      # fixed by the reflection
            return
        if q < .5:
            row[1 if kind != 'tangents' else 2] += r.choice([-1, 1])
            rows[at] = tuple(row)
        elif q < .75:
            del rows[at]
        else:
            row[0] += (2 * k + 3) * (1 if row[0] > 0 else -1) * (2 if kind == 'tangents' else 1)
            rows.insert(at, tuple(row))
    d = gen.H(rows, [], None, maps, 'rows') if kind == 'tangents' else gen.V(rows, [], None, maps, 'rows')
    d.names = gen.names_for(r, n)
    text = d.text()
    args = [r.choice(['-c', '--check']), '-i', 'inf', '-m', 'dd' if two else r.choice(['ad', 'dd']), '@in']
    x = e2e.run(c, args, {'in': text}, cpu=60)
    if not good:
        refused(c, x, args, 'an invalid map', text)
        c.stats['rows_refused'] += 1
    else:
        if not e2e.ok(c, x, args, 'valid maps: '):
            return
        if not x.out.strip():
            c.bad('check-no-rows', '%s: no rows for\n%s' % (' '.join(args), text[:500]))
        c.stats['rows_accepted'] += 1
    c.stats['rows_over_%d' % (200 if len(rows) > 200 else 60 if len(rows) > 60 else 0)] += 1
    c.nontrivial('rows', text)


def one(seed, c):
    r = random.Random(seed)
    k = r.random()
    if r.random() < .02:
        return rows_case(r, c)
    if k < .65:
        maps_case(r, c)
    elif k < .93:
        known_case(r, c)
    else:
        large_case(r, c)


def body(chk):
    e2e.setup(chk, 'rel')
    chk.run(one, chk.seeds(chk.scale(12000, 300000), 18), chunk=16, seconds=chk.scale(150, 3000))
    chk.rule = ('descriptions with a group of symmetries, and with one map or one row changed; the exact oracle decides whether each map permutes the set of vertices, rays '
                'or inequalities; accepted runs are judged by the exact oracle, refused ones must explain and print nothing; the same for known facets and vertices')


core.main('C18', body)

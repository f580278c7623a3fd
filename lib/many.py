"""Descriptions with many rows whose results are known in closed form; their sizes pass every capacity of the internal sets."""
import itertools, random
import e2e, gen, judge, poly

SORTS = e2e.SORTS + ['lex', 'nz', 'lexicographic', 'nonzero', 'lex_up', 'lex_down', 'nz_dec', 'nz_decreasing', 'lex_increasing'][:-1]
WORDS = [1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 30, 40, 50, 75, 100, 150, 200]
SIZES = sorted({32 * w + k for w in WORDS for k in (-1, 0, 1, 2)} | {64 * w + k for w in (3, 5, 7) for k in (0, 1)})



def options(r, sort=True):
    a = []
    if sort and r.random() < .7:
        s = r.choice(SORTS)
        a += r.choice([['-s', s], ['-s=' + s], ['--sorting=' + s]])
    return a


def spread(r, n, m):
    """n distinct integers from -m to m."""
    return r.sample(range(-m, m + 1), n)


def parabola_v(r, n):
    t = spread(r, n, n if n > 600 else 2 * n)
    s = sorted(t)
    want = [(a + b, -1, -a * b) for a, b in zip(s, s[1:])] + [(-(s[0] + s[-1]), 1, s[0] * s[-1])]
    return gen.V([(x, x * x) for x in t]), [poly.primitive(w) for w in want]


def parabola_h(r, n):
    t = spread(r, n, n if n > 600 else 2 * n)
    s = sorted(t)
    want = [(a + b, 2 * a * b, 2) for a, b in zip(s, s[1:])] + [(1, 2 * s[-1], 0), (-1, -2 * s[0], 0)]
    return gen.H([(2 * x, -1, -x * x) for x in t]), [poly.primitive(w) for w in want]


def box_v(r, n):
    d = r.choice([k for k in (2, 3, 4) if 2 ** k <= n])
    a = r.randint(3, 12) if d > 2 or n < 120 else 60
    pts = list(itertools.product((0, a), repeat=d))
    while len(pts) < n:
        p = [r.randint(0, a) for _ in range(d)]
        if r.random() < .5:
            p[r.randrange(d)] = r.choice([0, a])
        pts.append(tuple(p))
    r.shuffle(pts)
    want = [tuple(s if i == j else 0 for j in range(d)) + (-a if s > 0 else 0,) for i in range(d) for s in (1, -1)]
    return gen.V(pts), want


def box_h(r, n):
    d = r.choice([k for k in (2, 3, 4) if 2 * k <= n])
    a = r.randint(1, 9)
    rows = [tuple(s if i == j else 0 for j in range(d)) + (-a if s > 0 else 0,) for i in range(d) for s in (1, -1)]
    while len(rows) < n:
        q = [r.randint(-3, 3) for _ in range(d)]
        if any(q):
            rows.append(tuple(q) + (-sum(a * x for x in q if x > 0) - r.choice([0, 0, 1, 2, 5]),))
    r.shuffle(rows)
    return gen.H(rows), [x + (1,) for x in itertools.product((0, a), repeat=d)]


def cyclic_v(r, n, d):
    """Gale's evenness condition; rows by solving for the hyperplane through d points of the moment curve."""
    t = spread(r, n, n)
    s = sorted(t)
    want = []
    if d == 3:
        sets = [(s[0], s[i], s[i + 1]) for i in range(1, n - 1)] + [(s[i], s[i + 1], s[-1]) for i in range(n - 2)]
    else:
        p = [(s[i], s[(i + 1) % n]) for i in range(n)]
        sets = []
        for i in range(n):
            for j in range(i + 2, n):
                if (j + 1) % n != i:
                    sets.append(p[i] + p[j])
    for q in sets:
        f = [1]                                     # coefficients of prod (x - t), lowest first
        for x in q:
            f = [a - x * b for a, b in zip([0] + f, f + [0])]
        x = next(x for x in s if x not in q)
        v = sum(c * x ** k for k, c in enumerate(f))
        row = tuple(f[1:]) + (f[0],)
        want.append(poly.primitive(row if v < 0 else tuple(-y for y in row)))
    return gen.V([tuple(x ** k for k in range(1, d + 1)) for x in t]), want


def prism_v(r, n):
    """Prism over the polygon on the parabola with n vertices altogether: two facets contain half of them."""
    k = n // 2
    t = spread(r, k, k)
    s = sorted(t)
    want = [(a + b, -1, 0, -a * b) for a, b in zip(s, s[1:])] + [(-(s[0] + s[-1]), 1, 0, s[0] * s[-1]), (0, 0, 1, -1), (0, 0, -1, 0)]
    pts = [(x, x * x, z) for x in t for z in (0, 1)]
    if n % 2:
        pts.append(pts[r.randrange(len(pts))])
    r.shuffle(pts)
    return gen.V(pts), [poly.primitive(w) for w in want]


def prism_h(r, n):
    d = parabola_h(r, n - 2)
    rows = [(a, b, 0, c) for a, b, c in d[0].ineqs] + [(0, 0, 1, -1), (0, 0, -1, 0)]
    want = [w[:2] + (z * w[2],) + w[2:] for w in d[1] for z in (0, 1) if w[-1] or z == 0]
    return gen.H(rows), [poly.primitive(w) for w in want]


def simplex_v(r, n):
    """One row more than the dimension: the largest dimensions."""
    d, a = n - 1, r.randint(1, 5)
    t = [r.choice([0, 0, r.randint(-4, 4)]) for _ in range(d)]
    pts = [tuple(t)] + [tuple(t[j] + (a if i == j else 0) for j in range(d)) for i in range(d)]
    r.shuffle(pts)
    want = [tuple(-1 if i == j else 0 for j in range(d)) + (t[i],) for i in range(d)] + [(1,) * d + (-sum(t) - a,)]
    return gen.V(pts), want


def simplex_h(r, n):
    v, want = simplex_v(r, n)
    r.shuffle(want)
    return gen.H(want), [p + (1,) for p in v.verts]


FAMILY = {'parabola-v': (parabola_v, 3, {'dd': 3300, 'ad': 420}), 'parabola-h': (parabola_h, 3, {'dd': 3300, 'ad': 420}),
          'box-v': (box_v, 5, {'dd': 6500, 'ad': 6500}), 'box-h': (box_h, 5, {'dd': 6500, 'ad': 6500}),
          'cyclic3': (lambda r, n: cyclic_v(r, n, 3), 5, {'dd': 400, 'ad': 140}),
          'cyclic4': (lambda r, n: cyclic_v(r, n, 4), 6, {'dd': 70, 'ad': 40}),
          'prism-v': (prism_v, 8, {'dd': 800, 'ad': 420}), 'prism-h': (prism_h, 6, {'dd': 800, 'ad': 300}),
          'simplex-v': (simplex_v, 3, {'dd': 420, 'ad': 140}), 'simplex-h': (simplex_h, 3, {'dd': 420, 'ad': 140})}


def large(item, c):
    seed, fam, n, m = item
    r = random.Random(seed)
    d, want = FAMILY[fam][0](r, n)
    inner = isinstance(d, gen.V)
    args = ['-m', m, '-i', '64', '-t', str(r.choice([1, 2, 4]))] + (options(r) if r.random() < .5 else []) + ['@in']
    x = e2e.run(c, args, {'in': d.text()}, cpu=200, wall=300)
    if not e2e.ok(c, x, args, '%s with %d rows: ' % (fam, n)):
        return

    def look(out):
        if inner:
            eqs, got = judge.split_v(out, None, d.dim + 1, False)
            if eqs:
                raise judge.Bad('equations', 'equations of a polytope of full dimension: %s' % eqs[:2])
        else:
            got = judge.split_h(out, d.dim + 1, False)
        g, w = set(got), set(want)
        if len(g) != len(got):
            raise judge.Bad('row-duplicate', '%s with %d rows: a row is printed twice' % (fam, n))
        if g != w:
            raise judge.Bad('row-set', '%s with %d rows: %d of %d rows printed, %d others: %s' % (fam, n, len(g & w), len(w), len(g - w), sorted(g - w)[:2]))
        return True
    if e2e.judged(c, args, x, look) is None:
        return
    c.stats['large_judged_runs'] += 1
    c.stats['large_%s_%s' % (fam, m)] += 1
    c.stats['words_%03d' % ((len(d.gens() if inner else d.ineqs) + (0 if inner else 1) + 31) // 32)] += 1
    c.nontrivial('large', fam, n, m, seed)
    c.sample = {'family': fam, 'rows': n, 'args': args, 'printed_rows': len(want)}


def sizes(r, lo, hi, m, full=False):
    out = [n for n in SIZES if lo <= n <= hi[m]]
    if full:
        return out
    keep = [n for n in out if n <= 135]
    rest = [n for n in out if n > 135]
    # one or two sizes of every capacity
    for w in WORDS:
        g = [n for n in rest if abs(n - 32 * w) < 3]
        keep += r.sample(g, min(len(g), 2 if max(g, default=0) < 700 else 1))
    return keep


def part(seed, methods, kind):
    """One size for each family of a kind (v or h), method and capacity: the part of these runs in the checks of the enumerations themselves."""
    r = random.Random(seed)
    items = []
    for m in methods:
        for fam, (_, lo, hi) in FAMILY.items():
            if fam.endswith('-h') == (kind == 'h'):
                for i, w in enumerate(WORDS):
                    g = [n for n in range(32 * (WORDS[i - 1] if i else 0) + 1, 32 * w + 1) if lo <= n <= hi[m]]
                    if g:
                        items.append((r.randrange(10 ** 9), fam, r.choice(g), m))
    items.sort(key=lambda x: -x[2])
    return items

"""Generators of polyhedra and of panda input files.  All randomness comes from the Random passed in."""
import itertools
from fractions import Fraction
from math import gcd, lcm
import poly


def hom(v):
    """Homogeneous primitive-free integer row of a point with Fraction/int coordinates."""
    d = 1
    for x in v:
        d = lcm(d, Fraction(x).denominator)
    return tuple(int(x * d) for x in v) + (d,)


class V:
    """Inner description."""

    def __init__(self, verts, rays=(), names=None, maps=None, kind=''):
        self.verts = [tuple(v) for v in verts]
        self.rays = [tuple(r) for r in rays]
        self.names = names
        self.maps = maps
        self.kind = kind

    @property
    def dim(self):
        return len((self.verts or self.rays)[0])

    def gens(self):
        return [r + (0,) for r in self.rays] + [hom(v) for v in self.verts]

    def text(self, reduced=None):
        s = ''
        if self.names:
            s += 'Names\n' + ' '.join(self.names) + '\n'
        if self.maps:
            s += 'Maps\n' + '\n'.join(map_text(m, self.names) for m in self.maps) + '\n'
        pre = 'Reduced ' if reduced else ''
        if self.verts:
            s += pre + 'Vertices\n' + ''.join(' '.join(map(str, v)) + '\n' for v in self.verts)
        if self.rays:
            s += pre + 'Rays\n' + ''.join(' '.join(map(str, v)) + '\n' for v in self.rays)
        return s


class H:
    """Outer description: rows (a, -b) meaning a.x <= b."""

    def __init__(self, ineqs, eqs=(), names=None, maps=None, kind=''):
        self.ineqs = [tuple(x) for x in ineqs]
        self.eqs = [tuple(x) for x in eqs]
        self.names, self.maps, self.kind = names, maps, kind

    @property
    def dim(self):
        return len(self.ineqs[0]) - 1

    def rows(self):
        return self.ineqs + self.eqs + [tuple(-x for x in e) for e in self.eqs]

    def text(self, named=None, reduced=None):
        if named is None:
            named = bool(self.names)
        s = ''
        if self.names:
            s += 'Names\n' + ' '.join(self.names) + '\n'
        if self.maps:
            s += 'Maps\n' + '\n'.join(map_text(m, self.names) for m in self.maps) + '\n'
        f = (lambda r, op: named_text(r, self.names, op)) if named else (lambda r, op: ' '.join(map(str, r)))
        if self.eqs:
            s += 'Equations\n' + ''.join(f(e, '=') + '\n' for e in self.eqs)
        s += ('Reduced ' if reduced else '') + 'Inequalities\n' + ''.join(f(e, '<=') + '\n' for e in self.ineqs)
        return s


def named_text(row, names, op='<='):
    t = []
    for c, n in zip(row[:-1], names):
        if c:
            t.append(('-' if c < 0 else ('+' if t else '')) + ('' if abs(c) == 1 else str(abs(c))) + n)
    if not t:
        t = ['0' + names[0]]
    return ' '.join(t) + ' %s %d' % (op, -row[-1])


# maps: list (per coordinate) of {index: coefficient}; index == dimension is the constant

def image_text(im, names):
    s = ''
    for i in sorted(im):
        c = im[i]
        if c == 0:
            continue
        n = names[i] if i < len(names) else ''
        s += ('-' if c < 0 else ('+' if s else '')) + ('' if abs(c) == 1 and n else str(abs(c))) + n
    return s or '0'


def map_text(m, names):
    return ' '.join(image_text(im, names) for im in m)


def apply_point(m, v):
    w = tuple(v) + (1,)
    return tuple(sum(c * w[i] for i, c in im.items()) for im in m)


def apply_ray(m, v):
    w = tuple(v) + (0,)
    return tuple(sum(c * w[i] for i, c in im.items()) for im in m)


def names_for(r, d):
    k = r.random()
    if k < .4:
        return ['x%d' % i for i in range(d)]
    if k < .6:
        return list('abcdefghijklmnopqrstuvwxyz'[:d]) if d <= 26 else ['v%d' % i for i in range(d)]
    if k < .8:
        n = ['x', 'xx', 'xy', 'x_1', 'y[1,2]', 'Abc', 'z#', "q'", 'x1', 'x11', 'x(3)', '_', 'e', 'E5', 'n^2', 'xyz'] + ['w%d' % i for i in range(d)]
        n = n[:max(d, 16)]
        r.shuffle(n)
        return n[:d]
    return ['x#%d,%d' % (i, j) for i in range(d) for j in range(d)][:d]


# ---------------------------------------------------------------- inner descriptions

def dedupe(rows):
    return [tuple(x) for x in dict.fromkeys(map(tuple, rows))]


def embed(r, v, extra=None, c=2):
    d = v.dim
    e = d + (extra if extra is not None else r.randint(1, 2))
    while True:
        A = [[r.randint(-c, c) for _ in range(d)] for _ in range(e)]
        if poly.rank(A) == d:
            break
    b = [r.randint(-c, c) for _ in range(e)]
    verts = [tuple(poly.dot(a, x) + bb for a, bb in zip(A, b)) for x in v.verts]
    rays = [tuple(poly.dot(a, x) for a in A) for x in v.rays]
    return V(verts, rays, kind=v.kind + '+embedded')


def rnd_small(r, rays=False, d=None):
    d = d or r.randint(1, 4)
    k = r.randint(1, 9)
    c = r.choice([1, 2, 3])
    verts = dedupe([[r.randint(-c, c) for _ in range(d)] for _ in range(k)])
    rr = []
    if rays:
        rr = dedupe([x for x in ([r.randint(-c, c) for _ in range(d)] for _ in range(r.randint(1, 4))) if any(x)])
    return V(verts, rr, kind='small' + ('+rays' if rr else ''))


def rnd_01(r, d=None, k=None):
    d = d or r.randint(3, 6)
    k = k or r.randint(d + 1, min(2 ** d, 3 * d + 4))
    verts = set()
    while len(verts) < k:
        verts.add(tuple(r.randint(0, 1) for _ in range(d)))
    verts = list(verts)
    r.shuffle(verts)
    return V(verts, kind='01-%d' % d)


def cube(d, lo=0, hi=1):
    return V(itertools.product((lo, hi), repeat=d), kind='cube%d' % d)


def cross(d, s=1):
    return V([tuple(t if i == j else 0 for j in range(d)) for i in range(d) for t in (s, -s)], kind='cross%d' % d)


def simplex(d):
    return V([(0,) * d] + [tuple(1 if i == j else 0 for j in range(d)) for i in range(d)], kind='simplex%d' % d)


def cyclic(d, n):
    return V([tuple(t ** k for k in range(1, d + 1)) for t in range(n)], kind='cyclic%d,%d' % (d, n))


def hypersimplex(n, k):
    return V([tuple(1 if i in s else 0 for i in range(n)) for s in itertools.combinations(range(n), k)], kind='hypersimplex%d,%d' % (n, k))


def permutahedron(n):
    return V(itertools.permutations(range(n)), kind='permutahedron%d' % n)


def birkhoff(n):
    return V([tuple(1 if p[i] == j else 0 for i in range(n) for j in range(n)) for p in itertools.permutations(range(n))], kind='birkhoff%d' % n)


def cut(n):
    e = list(itertools.combinations(range(n), 2))
    return V([tuple(1 if (m >> i & 1) != (m >> j & 1) else 0 for i, j in e) for m in range(0, 2 ** n, 2)], kind='cut%d' % n)


def lop(n):
    e = [(i, j) for i in range(n) for j in range(n) if i != j]
    return V([tuple(1 if p.index(i) < p.index(j) else 0 for i, j in e) for p in itertools.permutations(range(n))], kind='lop%d' % n)


def orthant(d):
    return V([(0,) * d], [tuple(1 if i == j else 0 for j in range(d)) for i in range(d)], kind='orthant%d' % d)


def structured(r):
    k = r.randint(0, 13)
    if k == 0:
        return cube(r.randint(1, 5), *r.choice([(0, 1), (-1, 1), (2, 3), (-3, -1)]))
    if k == 1:
        return cross(r.randint(2, 6), r.choice([1, 2]))
    if k == 2:
        return simplex(r.randint(1, 9))
    if k == 3:
        return cyclic(r.choice([2, 3, 4]), r.randint(5, 8))
    if k == 4:
        n = r.randint(3, 6)
        return hypersimplex(n, r.randint(1, n - 1))
    if k == 5:
        return permutahedron(r.choice([3, 4]))
    if k == 6:
        return birkhoff(3)
    if k == 7:
        return cut(r.choice([3, 4]))
    if k == 8:
        return lop(3)
    if k == 9:
        return orthant(r.randint(1, 6))
    if k == 10:
        v = cube(r.randint(2, 4))
        v.rays = [(1,) + (0,) * (v.dim - 1)]
        v.kind += '+ray'
        return v
    if k == 11:   # pyramid over a cube
        d = r.randint(2, 4)
        return V([x + (0,) for x in cube(d).verts] + [tuple([r.randint(0, 1)] * d) + (r.choice([1, 2, -1]),)], kind='pyramid%d' % d)
    if k == 12:   # prism with lines (both directions of a ray)
        d = r.randint(1, 3)
        v = simplex(d)
        ray = [0] * d
        ray[r.randrange(d)] = 1
        v.rays = [tuple(ray), tuple(-x for x in ray)]
        v.kind += '+line'
        return v
    d = r.randint(2, 4)   # truncated cone
    v = orthant(d)
    v.verts = [tuple(1 if i == j else 0 for j in range(d)) for i in range(d)]
    v.kind = 'truncated' + v.kind
    return v


def transform(r, v, c=2):
    """Random invertible affine image with small coefficients."""
    d = v.dim
    while True:
        A = [[r.choice([0, 0, 1, -1] + [r.randint(-c, c)]) for _ in range(d)] for _ in range(d)]
        if poly.rank(A) == d:
            break
    b = [r.randint(-c, c) for _ in range(d)]
    return V([tuple(poly.dot(a, x) + bb for a, bb in zip(A, b)) for x in v.verts],
             [tuple(poly.dot(a, x) for a in A) for x in v.rays], kind=v.kind + '+affine')


def redundant(r, v, n=None):
    """Adds points of the polyhedron which are not vertices, and rays which are not extremal."""
    verts, rays = list(v.verts), list(v.rays)
    for _ in range(n or r.randint(1, 4)):
        k = r.randint(2, 3)
        s = [r.choice(v.verts) for _ in range(k)]
        p = tuple(Fraction(sum(x), k) for x in zip(*s))
        if v.rays and r.random() < .5:
            p = tuple(a + b for a, b in zip(p, r.choice(v.rays)))
        verts.append(p)
        if len(v.rays) > 1 and r.random() < .5:
            q = tuple(a + b for a, b in zip(*r.sample(v.rays, 2)))
            if any(q):
                rays.append(q)
    return V(verts, rays, kind=v.kind + '+redundant')


def rational(r, v):
    q = r.choice([2, 3, 4, 6])
    return V([tuple(Fraction(x, q) for x in p) for p in v.verts], v.rays, kind=v.kind + '+fractions')


def shuffled(r, v):
    verts, rays = list(v.verts), list(v.rays)
    r.shuffle(verts)
    r.shuffle(rays)
    return V(verts, rays, v.names, v.maps, v.kind)


def rnd_v(r, rays=None, named=None, budget=40):
    """A random inner description with small data."""
    while True:
        k = r.random()
        if rays is None:
            wr = r.random() < .35
        else:
            wr = rays
        if k < .5:
            v = rnd_small(r, rays=wr)
            if r.random() < .35:
                v = embed(r, v)
        elif k < .65:
            v = rnd_01(r)
            if r.random() < .2:
                v = embed(r, v, 1, 1)
        else:
            v = structured(r)
            if r.random() < .3 and v.dim <= 4:
                v = transform(r, v)
            elif r.random() < .25 and v.dim <= 4:
                v = embed(r, v, 1, 1)
        if rays is False and v.rays:
            continue
        if r.random() < .25:
            v = redundant(r, v)
        if r.random() < .15:
            v = rational(r, v)
        if r.random() < .6:
            v = shuffled(r, v)
        v.rays = dedupe([x for x in v.rays if any(x)])
        v.verts = dedupe(v.verts)
        if len(v.verts) + len(v.rays) > budget:
            continue
        if named or (named is None and r.random() < .4):
            v.names = names_for(r, v.dim)
        return v


# ---------------------------------------------------------------- outer descriptions

def rnd_h(r, bounded=None, eqs=None, d=None, lines=False):
    """Random outer description (may be empty, unbounded or, with lines=True, contain lines)."""
    d = d or r.randint(1, 4)
    k = r.randint(1, 8)
    c = r.choice([1, 2, 3])
    I = [[r.randint(-c, c) for _ in range(d)] + [-r.randint(-1, 2 * c)] for _ in range(k)]
    if r.random() < (.15 if lines else .7):
        for i in range(d):
            for s in (1, -1):
                if bounded or r.random() < .8:
                    I.append([s if j == i else 0 for j in range(d)] + [-r.randint(0, 3)])
    E = []
    if eqs or (eqs is None and r.random() < .3):
        E = [[r.randint(-c, c) for _ in range(d)] + [-r.randint(-1, 1)] for _ in range(r.choice([1, 1, 2]))]
    E = [e for e in E if any(e[:-1])]
    I = [e for e in I if any(e[:-1])]
    if not I:
        I = [[1] + [0] * (d - 1) + [-1]]
    r.shuffle(I)
    return H(I, E, kind='random-h')


def facets_of(v):
    """Outer description computed by the oracle (modulo nothing: equations + facets)."""
    eqs, f, _ = poly.poly_facets(v.gens())
    return eqs, f


def h_from_v(r, v):
    """Outer description of a V-polyhedron; facets shifted by equations, scaled and shuffled."""
    eqs, f = facets_of(v)
    rows = []
    for row in f:
        row = list(row)
        for e in eqs:
            if r.random() < .5:
                t = r.choice([-1, 1])
                row = [a + t * b for a, b in zip(row, e)]
        s = r.choice([1, 1, 1, 2, 3])
        rows.append([s * x for x in row])
    if not rows:
        n = v.dim + 1
        rows = [[0] * (n - 1) + [-1]]
    r.shuffle(rows)
    return H(rows, eqs, kind='h-of-' + v.kind)


def structured_h(r):
    k = r.randint(0, 5)
    if k == 0:
        d = r.randint(1, 5)
        return H([tuple(s if i == j else 0 for j in range(d)) + (-r.randint(0, 2),) for i in range(d) for s in (1, -1)], kind='box%d' % d)
    if k == 1:
        d = r.randint(2, 4)
        return H([s + (-1,) for s in itertools.product((1, -1), repeat=d)], kind='cross-h%d' % d)
    if k == 2:
        d = r.randint(1, 8)
        return H([tuple(-1 if i == j else 0 for j in range(d)) + (0,) for i in range(d)] + [(1,) * d + (-r.randint(1, 3),)], kind='simplex-h%d' % d)
    if k == 3:
        d = r.randint(1, 6)
        return H([tuple(-1 if i == j else 0 for j in range(d)) + (r.randint(-1, 1),) for i in range(d)], kind='orthant-h%d' % d)
    if k == 4:
        n = r.choice([2, 3])
        d = n * n
        E = [tuple(1 if x // n == i else 0 for x in range(d)) + (-1,) for i in range(n)] + [tuple(1 if x % n == i else 0 for x in range(d)) + (-1,) for i in range(n)]
        return H([tuple(-1 if i == j else 0 for j in range(d)) + (0,) for i in range(d)], E, kind='birkhoff-h%d' % n)
    v = structured(r)
    while v.dim > 4:
        v = structured(r)
    return h_from_v(r, v)


# ---------------------------------------------------------------- symmetric descriptions

def sym_group(r, k):
    """One or two random signed permutations about the centre of [0,c]^k, as map factory."""
    out = []
    for _ in range(r.randint(1, 3)):
        p = list(range(k))
        if r.random() < .8:
            r.shuffle(p)
        fl = [False] * k
        if r.random() < .35:
            fl = [r.random() < .5 for _ in range(k)]
        out.append((p, fl))
    return out


def rnd_sym(r, embedded=None, rays=None):
    """Symmetric V-polyhedron with names and maps; optionally with dependent coordinates."""
    while True:
        k = r.randint(2, 4)
        c = r.choice([1, 1, 2, 3])
        group = sym_group(r, k)
        flips = any(any(fl) for _, fl in group)
        with_rays = (r.random() < .2 if rays is None else rays) and not flips
        emb = (r.random() < .45 if embedded is None else embedded)
        maps = [[({p[i]: -1, k: c} if fl[i] else {p[i]: 1}) for i in range(k)] for p, fl in group]
        verts, rr = set(), set()
        for _ in range(r.randint(1, 3)):
            st = [tuple(r.randint(0, c) for _ in range(k))]
            while st:
                v = st.pop()
                if v not in verts:
                    verts.add(v)
                    st += [apply_point(m, v) for m in maps]
        if with_rays:
            st = [tuple(r.randint(0, 2) for _ in range(k))]
            while st:
                v = st.pop()
                if v not in rr and any(v):
                    rr.add(v)
                    st += [apply_ray(m, v) for m in maps]
        if len(verts) + len(rr) > 40:
            continue
        verts, rr = sorted(verts), sorted(rr)
        if emb:
            if flips:
                # all coordinates and their complements: y_i = c - x_i
                n = 2 * k
                tr = lambda v: tuple(v) + tuple(c - x for x in v)
                maps2 = []
                for p, fl in group:
                    m = [({k + p[i]: 1} if fl[i] else {p[i]: 1}) for i in range(k)] + [({p[i]: 1} if fl[i] else {k + p[i]: 1}) for i in range(k)]
                    maps2.append(m)
                verts = [tr(v) for v in verts]
                maps, k = maps2, n
            else:
                q = r.choice([1, 1, 2, 3])
                s = r.choice([1, -1]) * r.choice([1, 1, 2, 3])
                b = r.randint(-2, 2)
                pos = r.randint(0, k)
                ins = lambda v, w: tuple(v[:pos]) + (w,) + tuple(v[pos:])
                verts = [ins([q * x for x in v], s * sum(v) + b) for v in verts]
                rr = [ins([q * x for x in v], s * sum(v)) for v in rr]
                sh = lambda i: i if i < pos else i + 1
                maps = [[{sh(p[i]): 1} for i in range(k)] for p, _ in group]
                maps = [m[:pos] + [{pos: 1}] + m[pos:] for m in maps]
                k += 1
        v = V(verts, rr, ['x%d' % i for i in range(k)] if r.random() < .7 else names_for(r, k), maps, 'sym')
        # permutation of the coordinates, so that eliminated coordinates vary
        if r.random() < .5:
            v = permute_coords(r, v)
        if r.random() < .5:
            verts = list(v.verts)
            r.shuffle(verts)
            v.verts = verts
        return v


def permute_coords(r, v):
    d = v.dim
    p = list(range(d))
    r.shuffle(p)            # new coordinate i is old coordinate p[i]
    inv = {p[i]: i for i in range(d)}
    inv[d] = d
    f = lambda x: tuple(x[p[i]] for i in range(d))
    maps = [[{inv[j]: c for j, c in m[p[i]].items()} for i in range(d)] for m in v.maps] if v.maps else v.maps
    return V([f(x) for x in v.verts], [f(x) for x in v.rays], v.names, maps, v.kind)


def perms_of(v):
    """Permutations of the generators (order of v.gens()) induced by the maps."""
    idx = {}
    for i, x in enumerate(v.rays):
        idx[('r', poly.primitive(x))] = i
    o = len(v.rays)
    for i, x in enumerate(v.verts):
        idx[('v', tuple(Fraction(t) for t in x))] = o + i
    out = []
    for m in v.maps:
        p = [idx[('r', poly.primitive(apply_ray(m, x)))] for x in v.rays]
        p += [idx[('v', tuple(Fraction(t) for t in apply_point(m, x)))] for x in v.verts]
        out.append(p)
    return out


def orbit_reps(items, act, gens):
    """{item: representative} of the action."""
    rep = {}
    for f in items:
        if f in rep:
            continue
        rep[f] = f
        st = [f]
        while st:
            g = st.pop()
            for p in gens:
                h = act(p, g)
                if h not in rep:
                    rep[h] = f
                    st.append(h)
    return rep


def act_mask(p, m):
    h = 0
    i = 0
    while m:
        if m & 1:
            h |= 1 << p[i]
        m >>= 1
        i += 1
    return h

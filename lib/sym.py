"""Symmetric workloads (descriptions with maps)."""
import itertools
import e2e, gen, poly


def perm_map(p):
    return [{p[i]: 1} for i in range(len(p))]


def compose(m, k):
    """The affine map x -> k(m(x)); maps are lists of {index: coefficient} with the constant at index d."""
    d = len(m)
    out = []
    for im in k:
        row = {}
        for i, c in im.items():
            if i == d:
                row[d] = row.get(d, 0) + c
            else:
                for j, e in m[i].items():
                    row[j] = row.get(j, 0) + c * e
        out.append({i: c for i, c in row.items() if c})
    return out


def regroup(r, maps):
    """Another generating system of the same group (of finite order): shuffled, with products, repetitions, identity."""
    maps = list(maps)
    k = r.random()
    if k < .3 and len(maps) > 1:
        i, j = r.sample(range(len(maps)), 2)
        maps[i] = compose(maps[i], maps[j])
    elif k < .45:
        maps.append(compose(r.choice(maps), r.choice(maps)))
    elif k < .55:
        maps.append([{i: 1} for i in range(len(maps[0]))])
    elif k < .65:
        maps.append(r.choice(maps))
    r.shuffle(maps)
    return maps


def edge_maps(n, e, perms, undirected):
    idx = {x: i for i, x in enumerate(e)}
    out = []
    for p in perms:
        im = []
        for i, j in e:
            a, b = p[i], p[j]
            im.append(idx[(a, b) if not undirected or a < b else (b, a)])
        out.append(perm_map(im))
    return out


def generators(n):
    if n == 1:
        return [[0]]
    return [[1, 0] + list(range(2, n)), list(range(1, n)) + [0]]


def cut(n, switching=True):
    e = list(itertools.combinations(range(n), 2))
    v = gen.cut(n)
    v.maps = edge_maps(n, e, generators(n), True)
    if switching:
        d = len(e)
        v.maps.append([({i: -1, d: 1} if 0 in x else {i: 1}) for i, x in enumerate(e)])
    return v


def lop(n, affine=False):
    e = [(i, j) for i in range(n) for j in range(n) if i != j]
    v = gen.lop(n)
    v.maps = edge_maps(n, e, generators(n), False)
    idx = {x: i for i, x in enumerate(e)}
    v.maps.append([{idx[(j, i)]: 1} for i, j in e])     # duality
    if affine:  # extra symmetry of the linear ordering polytope, on variables ij with i<j expressed affinely
        pass
    return v


def birkhoff(n):
    v = gen.birkhoff(n)
    maps = []
    for p in generators(n):
        maps.append(perm_map([p[i] * n + j for i in range(n) for j in range(n)]))
        maps.append(perm_map([i * n + p[j] for i in range(n) for j in range(n)]))
    maps.append(perm_map([j * n + i for i in range(n) for j in range(n)]))
    v.maps = maps
    return v


def coords(v, complement=None):
    d = v.dim
    v.maps = [perm_map(p) for p in generators(d)]
    if complement is not None:
        v.maps.append([{0: -1, d: complement} if i == 0 else {i: 1} for i in range(d)] if complement != 'all' else
                      [{i: -1, d: 1} for i in range(d)])
    return v


def cross(d):
    v = gen.cross(d)
    v.maps = [perm_map(p) for p in generators(d)] + [[{0: -1}] + [{i: 1} for i in range(1, d)]]
    return v


def orthant(d):
    v = gen.orthant(d)
    v.maps = [perm_map(p) for p in generators(d)]
    return v


def flow_like(r):
    """Truncated orthant: vertices e_i, rays e_i."""
    d = r.randint(2, 5)
    v = gen.orthant(d)
    v.verts = [tuple(1 if i == j else 0 for j in range(d)) for i in range(d)]
    v.maps = [perm_map(p) for p in generators(d)]
    v.kind = 'truncated'
    return v


def cyclic_group(r):
    """Polytope with a cyclic group acting by an integer matrix that is no permutation."""
    k = r.randint(0, 3)
    if k == 0:      # order 6 on the plane: (x,y) -> (x-y, x)
        m = [{0: 1, 1: -1}, {0: 1}]
        d = 2
    elif k == 1:    # order 3
        m = [{1: -1}, {0: 1, 1: -1}]
        d = 2
    elif k == 2:    # order 4 around (1/2,1/2)
        m = [{1: -1, 2: 1}, {0: 1}]
        d = 2
    else:           # order 6 combined with a third coordinate flipped around 1/2
        m = [{0: 1, 1: -1}, {0: 1}, {2: -1, 3: 1}]
        d = 3
    pts = set()
    for _ in range(r.randint(1, 3)):
        p = tuple(r.randint(-2, 3) for _ in range(d))
        while p not in pts:
            pts.add(p)
            p = gen.apply_point(m, p)
    pts = sorted(pts)
    r.shuffle(pts)
    return gen.V(pts, maps=[m], kind='cyclic-group')


STRUCTURED = [lambda r: cut(4, r.random() < .6), lambda r: cut(3, r.random() < .6), lambda r: lop(3), lambda r: birkhoff(3),
              lambda r: coords(gen.cube(r.randint(2, 5)), r.choice([None, 1])), lambda r: coords(gen.permutahedron(4)),
              lambda r: coords(gen.hypersimplex(r.randint(4, 6), 2)), lambda r: cross(r.randint(2, 5)), lambda r: orthant(r.randint(2, 6)),
              lambda r: coords(gen.simplex(r.randint(2, 6))), flow_like, cyclic_group, cyclic_group, cyclic_group]
BIG = [lambda r: cut(5), lambda r: cut(5, False), lambda r: lop(4), lambda r: birkhoff(4), lambda r: coords(gen.hypersimplex(8, 3)),
       lambda r: cross(7), lambda r: coords(gen.cube(6), 1), lambda r: coords(gen.permutahedron(5))]
HUGE = [lambda r: cut(6), lambda r: cut(6, False), lambda r: lop(5), lambda r: coords(gen.hypersimplex(9, 4))]


def embedded(r, v, num):
    """v with further coordinates that depend affinely on the others; their images are written in various ways.  num() yields coefficients."""
    d, n = v.dim, v.dim + r.choice([1, 1, 2])
    dep = []
    for _ in range(n - d):
        row = {i: num() for i in range(d) if r.random() < .7}
        row = {i: c for i, c in row.items() if c} or {0: 1}
        if r.random() < .5:
            row[n] = num()
        dep.append(row)

    def value(row, p, one):
        w = tuple(p) + (0,) * (n - d) + (one,)
        return sum(c * w[i] for i, c in row.items())
    maps = []
    for m in v.maps:
        m = [{(n if i == d else i): c for i, c in im.items()} for im in m]
        for row in dep:
            im = {}
            for i, c in row.items():
                for j, e in ({n: 1} if i == n else m[i]).items():
                    im[j] = im.get(j, 0) + c * e
            m.append(im)
        for im in m:
            # the same function on the affine hull
            if r.random() < .3:
                k = r.randrange(len(dep))
                t = r.choice([1, -1])
                im[d + k] = im.get(d + k, 0) + t
                for j, c in dep[k].items():
                    im[j] = im.get(j, 0) - t * c
        maps.append([{i: c for i, c in im.items() if c} for im in m])
    w = gen.V([tuple(p) + tuple(value(row, p, 1) for row in dep) for p in v.verts], [tuple(p) + tuple(value(row, p, 0) for row in dep) for p in v.rays],
              ['x%d' % i for i in range(n)], maps, v.kind + '+dependent')
    return gen.permute_coords(r, w)


def symmetric_v(r):
    if r.random() < .6:
        v = gen.rnd_sym(r)
        if r.random() < .25 and v.dim <= 5:
            v = embedded(r, v, lambda: r.choice([-3, -2, -1, 1, 1, 2]))
    else:
        v = r.choice(STRUCTURED)(r)
        if r.random() < .4:
            v = gen.permute_coords(r, v)
        if r.random() < .5:
            v = gen.shuffled(r, v)
    if r.random() < .6:
        v.maps = regroup(r, v.maps)
    if not v.names:
        v.names = gen.names_for(r, v.dim)
    return v


def large(r, least=65, most=200):
    """Polytopes with many generators in few classes: groups of permutations, sign changes and complements, with one or two orbits."""
    while True:
        if r.random() < .2:
            v = r.choice([lambda: cross(r.randint(6, 8)), lambda: coords(gen.cube(r.randint(5, 7)), r.choice([None, 1])), lambda: coords(gen.permutahedron(5)),
                          lambda: coords(gen.hypersimplex(8, r.choice([3, 4]))), lambda: cut(5, r.random() < .5)])()
        else:
            d = r.choice([3, 4, 4, 4, 5, 5])
            maps = [perm_map(p) for p in generators(d)]
            k = r.random()
            if k < .5:      # one coordinate negated or complemented
                t = r.choice([0, 0, 1, 3])
                maps.append([{i: -1, d: t} if i == 0 and t else {i: -1 if i == 0 else 1} for i in range(d)])
            elif k < .75:   # all of them
                t = r.choice([0, 1, 3])
                maps.append([{i: -1, d: t} if t else {i: -1} for i in range(d)])
            pts = set()
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                todo = [tuple(r.randint(0, 1) + r.randint(0, 1) if d == 5 else r.randint(-3, 4) for _ in range(d))]
                while todo and len(pts) <= most:
                    x = todo.pop()
                    if x not in pts:
                        pts.add(x)
                        todo += [gen.apply_point(m, x) for m in maps]
            pts = sorted(pts)
            r.shuffle(pts)
            v = gen.V(pts, maps=maps, kind='large-orbits')
        if r.random() < .5:
            v.maps = regroup(r, v.maps)
        if r.random() < .3:
            v = gen.permute_coords(r, v)
        n = len(v.verts)
        f = gen.facets_of(v)
        if max(n, len(f[1])) < least or max(n, len(f[1])) > most or poly.rank([x for x in v.gens()]) < 3:
            continue
        v.names = gen.names_for(r, v.dim)
        return v


def large_h(r, most=140):
    """The polytope of large as outer description."""
    while True:
        v = large(r)
        eqs, f = gen.facets_of(v)
        if len(f) > most or len(v.verts) > 1.3 * most:
            continue
        h = gen.H([poly.primitive(x) for x in f], eqs, v.names, v.maps, 'sym-large')
        if not eqs:
            r.shuffle(h.ineqs)
        return h


def closed_h(r):
    """Cubes and permutahedra as outer descriptions with their vertices in closed form: classes of hundreds and thousands of vertices."""
    if r.random() < .35:
        n = 6
        off = r.choice([0, 0, 1, -3])
        rows = []
        for k in range(1, n):
            for s in itertools.combinations(range(n), k):
                rows.append(tuple(-1 if i in s else 0 for i in range(n)) + (sum(range(off, off + k)),))
        h = gen.H(rows, [(1,) * n + (-sum(range(off, off + n)),)], None, [perm_map(p) for p in generators(n)], 'closed-permutahedron%d' % n)
        want = {p + (1,) for p in itertools.permutations(range(off, off + n))}
    else:
        n = r.choice([8, 9, 10, 11, 11, 12, 12, 13])
        lo, hi = r.choice([(0, 1), (-1, 1), (0, 3), (-2, 5)])
        rows = [tuple(1 if i == j else 0 for j in range(n)) + (-hi,) for i in range(n)] + [tuple(-1 if i == j else 0 for j in range(n)) + (lo,) for i in range(n)]
        flip = [{0: -1, n: lo + hi} if lo + hi else {0: -1}] + [{i: 1} for i in range(1, n)]
        g = [perm_map(p) for p in generators(n)]
        h = gen.H(rows, [], None, r.choice([g + [flip], [g[1], flip], g]), 'closed-cube%d' % n)
        want = {p + (1,) for p in itertools.product((lo, hi), repeat=n)}
    r.shuffle(h.ineqs)
    h.names = gen.names_for(r, n)
    return h, want


def closed_v(r):
    """Cross polytopes with their facets in closed form."""
    n, s = r.randint(8, 10), r.choice([1, 1, 2])
    v = gen.cross(n, s)
    g, flip = [perm_map(p) for p in generators(n)], [{0: -1}] + [{i: 1} for i in range(1, n)]
    v.maps = r.choice([g + [flip], [g[1], flip], g])
    v.kind = 'closed-cross%d' % n
    r.shuffle(v.verts)
    v.names = gen.names_for(r, n)
    f = [tuple(t) + (-s,) for t in itertools.product((1, -1), repeat=n)]
    gens = v.gens()
    return v, ([], f, [sum(1 << i for i, g in enumerate(gens) if poly.dot(row, g) == 0) for row in f])


def act_row(m, row):
    """row.(m(x),1): the row of the pulled back inequality."""
    d = len(row) - 1
    out = [0] * d + [row[-1]]
    for i, im in enumerate(m):
        for j, c in im.items():
            out[j] += row[i] * c
    return poly.primitive(out)


def close_rows(rows, maps, limit=60):
    todo = [poly.primitive(x) for x in rows]
    seen = set(todo)
    while todo:
        x = todo.pop()
        for m in maps:
            y = act_row(m, x)
            if y not in seen:
                if len(seen) > limit:
                    return None
                seen.add(y)
                todo.append(y)
    return sorted(seen)


def symmetric_h(r):
    """Outer description whose set of rows is invariant under the maps."""
    while True:
        v = symmetric_v(r)
        if v.dim > 6:
            continue
        maps, names = v.maps, v.names
        # a map that is a bijection of the affine hull only is a symmetry only together with the equations
        if r.random() < .5 and all(poly.rank([[im.get(i, 0) for i in range(v.dim)] for im in m]) == v.dim for m in maps):
            c = 2
            d = v.dim
            base = [tuple(r.randint(-c, c) for _ in range(d)) + (-r.randint(0, 4),) for _ in range(r.randint(1, 3))]
            base.append(tuple(r.choice([1, -1]) if j == 0 else 0 for j in range(d)) + (-r.randint(0, 2),))
            base = [b for b in base if any(b[:-1])]
            rows = close_rows(base, maps)
            if not rows:
                continue
            if r.random() < .3:
                rows += [tuple(-1 if i == j else 0 for j in range(d)) + (0,) for i in range(d)]
                rows = close_rows(rows, maps)
                if not rows:
                    continue
            eqs = []
            if r.random() < .3:
                e = close_rows([tuple([1] * d) + (-r.randint(0, 3),)], maps)
                if e and len(e) <= 2:
                    eqs = e[:1] if len(e) == 1 else []
            kind = 'rows'
        else:
            if len(v.verts) + len(v.rays) > 26:
                continue
            eqs, f = gen.facets_of(v)
            if not f:
                continue
            rows = [poly.primitive(x) for x in f]
            kind = 'facets'
            if not eqs:
                rows = close_rows(rows, maps)
        h = gen.H(rows, eqs, names, maps, 'sym-' + kind)
        r.shuffle(h.ineqs)
        return h

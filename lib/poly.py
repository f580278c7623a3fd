"""Independent exact oracle for polyhedral cones and polyhedra (Python integers only).

Nothing here is derived from the code under test: facets come from a textbook double-description
with a combinatorial adjacency test, and `brute_facets` is a second, even simpler oracle
(all subsets) used by the self tests to validate the first one.
"""
from fractions import Fraction
from itertools import combinations
from math import gcd


def primitive(row):
    g = 0
    for x in row:
        g = gcd(g, x)
    if g > 1:
        return tuple(x // g for x in row)
    return tuple(row)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def echelon(rows, ncols=None):
    """Fraction-free row echelon form; returns (reduced rows, pivot columns, indices of used rows)."""
    basis = []  # list of (pivot, row)
    used = []
    for idx, r in enumerate(rows):
        r = list(r)
        for p, b in basis:
            if r[p]:
                f, g = b[p], r[p]
                r = [f * x - g * y for x, y in zip(r, b)]
        piv = next((i for i, x in enumerate(r) if x), None)
        if piv is None:
            continue
        r = list(primitive(r))
        basis.append((piv, r))
        used.append(idx)
        if ncols is not None and len(basis) == ncols:
            break
    return [b for _, b in basis], [p for p, _ in basis], used


def rank(rows):
    return len(echelon(rows)[0])


def nullspace(rows, n):
    """Integer basis of {y : row.y = 0 for all rows}."""
    m = [[Fraction(x) for x in r] for r in rows]
    piv = []
    r = 0
    for c in range(n):
        k = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if k is None:
            continue
        m[r], m[k] = m[k], m[r]
        pv = m[r][c]
        m[r] = [x / pv for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c] != 0:
                f = m[i][c]
                m[i] = [x - f * y for x, y in zip(m[i], m[r])]
        piv.append(c)
        r += 1
        if r == len(m):
            break
    free = [c for c in range(n) if c not in piv]
    out = []
    for f in free:
        v = [Fraction(0)] * n
        v[f] = Fraction(1)
        for i, c in enumerate(piv):
            v[c] = -m[i][f]
        d = 1
        for x in v:
            d = d * x.denominator // gcd(d, x.denominator)
        out.append(primitive([int(x * d) for x in v]))
    return out


def _inverse_rows(mat):
    """Rows y_i (primitive integer) with y_i.mat[j] < 0 iff i == j, = 0 otherwise."""
    n = len(mat)
    m = [[Fraction(x) for x in r] + [Fraction(1 if i == j else 0) for j in range(n)] for i, r in enumerate(mat)]
    for c in range(n):
        k = next(i for i in range(c, n) if m[i][c] != 0)
        m[c], m[k] = m[k], m[c]
        pv = m[c][c]
        m[c] = [x / pv for x in m[c]]
        for i in range(n):
            if i != c and m[i][c] != 0:
                f = m[i][c]
                m[i] = [x - f * y for x, y in zip(m[i], m[c])]
    inv = [r[n:] for r in m]  # mat^-1 ; column j of inverse is y with mat[i].y = delta_ij
    out = []
    for j in range(n):
        col = [-inv[i][j] for i in range(n)]
        d = 1
        for x in col:
            d = d * x.denominator // gcd(d, x.denominator)
        out.append(primitive([int(x * d) for x in col]))
    return out


class Budget(Exception):
    pass


def cone_facets(gens, limit=200000):
    """Facets of cone(gens) as rows f with f.g <= 0 for every generator.

    Returns (equations, facets, masks): `equations` a basis of the orthogonal complement of the span,
    `facets` rows in the ambient space, `masks` the bit set of tight generators of every facet.
    """
    n = len(gens[0])
    _, piv, used = echelon(gens)
    eqs = nullspace(gens, n)
    r = len(piv)
    cols = sorted(piv)
    G = [tuple(g[c] for c in cols) for g in gens]
    if r == 0:
        return eqs, [], []
    base = [G[i] for i in used]
    facets = _inverse_rows(base)
    order = list(used) + [i for i in range(len(G)) if i not in set(used)]
    masks = []
    for f in facets:
        m = 0
        for i in used:
            if dot(f, G[i]) == 0:
                m |= 1 << i
        masks.append(m)
    for i in order[r:]:
        g = G[i]
        vals = [dot(f, g) for f in facets]
        pos = [k for k, v in enumerate(vals) if v > 0]
        neg = [k for k, v in enumerate(vals) if v < 0]
        zer = [k for k, v in enumerate(vals) if v == 0]
        bit = 1 << i
        if not pos:
            for k in zer:
                masks[k] |= bit
            continue
        nf = [facets[k] for k in zer] + [facets[k] for k in neg]
        nm = [masks[k] | bit for k in zer] + [masks[k] for k in neg]
        allm = masks
        for p in pos:
            mp = masks[p]
            for q in neg:
                inter = mp & masks[q]
                if bin(inter).count('1') < r - 2:
                    continue
                if any((inter & allm[k]) == inter for k in range(len(allm)) if k != p and k != q):
                    continue
                f = primitive([vals[p] * b - vals[q] * a for a, b in zip(facets[p], facets[q])])
                nf.append(f)
                nm.append(inter | bit)
        facets, masks = nf, nm
        if len(facets) > limit:
            raise Budget()
    out = []
    fm = []
    for f in facets:
        row = [0] * n
        for c, x in zip(cols, f):
            row[c] = x
        out.append(tuple(row))
        m = 0
        for i, g in enumerate(gens):
            if dot(row, g) == 0:
                m |= 1 << i
        fm.append(m)
    return eqs, out, fm


def brute_facets(gens):
    """Second oracle: every (r-1)-subset of generators, solve, test.  Returns the set of tight masks."""
    n = len(gens[0])
    _, piv, _ = echelon(gens)
    cols = sorted(piv)
    r = len(cols)
    G = [tuple(g[c] for c in cols) for g in gens]
    res = set()
    idx = range(len(G))
    for sub in combinations(idx, r - 1):
        ns = nullspace([G[i] for i in sub], r) if sub else nullspace([], r)
        if len(ns) != 1:
            continue
        y = ns[0]
        v = [dot(y, g) for g in G]
        if all(x <= 0 for x in v) or all(x >= 0 for x in v):
            m = 0
            for i, x in enumerate(v):
                if x == 0:
                    m |= 1 << i
            res.add(m)
    return res


def poly_facets(gens):
    """Facets of the polyhedron whose homogenised generators are `gens` (last coordinate 0 = ray).

    Same as cone_facets without the face at infinity (facet of the cone not containing any vertex)."""
    eqs, fac, masks = cone_facets(gens)
    vert = 0
    for i, g in enumerate(gens):
        if g[-1] != 0:
            vert |= 1 << i
    keep = [(f, m) for f, m in zip(fac, masks) if m & vert]
    return eqs, [f for f, _ in keep], [m for _, m in keep]


def row_mask(row, gens):
    """(valid, tight mask) of inequality row (row.g <= 0) over gens."""
    m = 0
    ok = True
    for i, g in enumerate(gens):
        v = dot(row, g)
        if v > 0:
            ok = False
        elif v == 0:
            m |= 1 << i
    return ok, m


def poly_vertices(rows):
    """Vertices and rays (primitive homogeneous vectors, last coordinate >= 0) of {x : rows.(x,1) <= 0}.

    Returns None when the polyhedron is not pointed.  rows exclude the 0.x <= 1 row."""
    n = len(rows[0])
    allrows = [tuple(r) for r in rows] + [tuple([0] * (n - 1) + [-1])]
    eqs, fac, _ = cone_facets(allrows)
    if eqs:
        return None
    return set(primitive(f) for f in fac)

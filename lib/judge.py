"""Oracles over the printed output: they compare with the exact Python oracle and know nothing of the implementation."""
from fractions import Fraction
from math import gcd
import drive, gen, poly


class Bad(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


def content(row):
    g = 0
    for x in row:
        g = gcd(g, x)
    return g


def split_v(out, names, width, reduced):
    """(equations, inequalities) of the output of a facet enumeration."""
    try:
        secs = drive.sections(out)
        kinds = [s[1] for s in secs]
        if kinds not in (['Equations', 'Inequalities'], ['Inequalities']):
            raise Bad('output-sections', 'sections %s' % kinds)
        eqs, ineqs = [], []
        for red, kind, lines in secs:
            if kind == 'Equations':
                if red:
                    raise Bad('output-sections', 'reduced equations')
                eqs = [drive.parse_constraint(t, names, '=') for t in lines]
            else:
                if red != reduced:
                    raise Bad('output-reduced-flag', 'flag "Reduced" is %s, expected %s' % (red, reduced))
                ineqs = [drive.parse_constraint(t, names, '<=') for t in lines]
    except drive.ParseError as e:
        raise Bad('output-unparsable', str(e))
    for row in eqs + ineqs:
        if len(row) != width:
            raise Bad('output-dimension', 'row %s has %d entries, not %d' % (row, len(row), width))
    return eqs, ineqs


def check_equations(eqs, gens, want):
    for e in eqs:
        if any(poly.dot(e, g) for g in gens):
            raise Bad('equation-violated', 'equation %s does not hold' % (e,))
    rk = poly.rank(eqs) if eqs else 0
    if rk != len(eqs):
        raise Bad('equations-dependent', 'equations are linearly dependent: %s' % eqs)
    if rk != want:
        raise Bad('equations-incomplete', '%d equations instead of %d' % (rk, want))


def facets(out, v, oracle=None, reduced=False, perms=None):
    """Checks the output of a facet enumeration of the inner description v.  Returns (n equations, n facets)."""
    gens = v.gens()
    weqs, _, masks = oracle or poly.poly_facets(gens)
    eqs, ineqs = split_v(out, v.names, len(gens[0]), bool(v.maps))
    check_equations(eqs, gens, len(weqs))
    got = []
    for row in ineqs:
        ok, m = poly.row_mask(row, gens)
        if not ok:
            raise Bad('inequality-invalid', 'inequality %s cuts off a generator' % (row,))
        got.append(m)
    want = set(masks)
    for row, m in zip(ineqs, got):
        if m not in want:
            raise Bad('inequality-not-facet', 'inequality %s does not define a facet' % (row,))
        if content(row) != 1:
            raise Bad('inequality-not-primitive', 'inequality %s is not in lowest terms' % (row,))
    if v.maps:
        perms = perms or gen.perms_of(v)
        rep = gen.orbit_reps(sorted(want), lambda p, m: gen.act_mask(p, m), perms)
        orbs = [rep[m] for m in got]
        if len(set(orbs)) != len(orbs):
            raise Bad('orbit-duplicate', '%d rows for %d classes' % (len(orbs), len(set(orbs))))
        if set(orbs) != set(rep.values()):
            raise Bad('orbit-missing', '%d of %d classes printed' % (len(set(orbs)), len(set(rep.values()))))
    else:
        if len(set(got)) != len(got):
            raise Bad('facet-duplicate', 'a facet is printed twice')
        if set(got) != want:
            raise Bad('facet-missing', '%d of %d facets printed' % (len(got), len(want)))
    return eqs, ineqs


def split_h(out, width, reduced):
    """Homogeneous primitive generators printed by a vertex enumeration, in order of output."""
    res = []
    try:
        secs = drive.sections(out)
        kinds = [s[1] for s in secs]
        if kinds not in (['Vertices / Rays'], ['Vertices'], ['Rays'], ['Vertices', 'Rays'], []):
            raise Bad('output-sections', 'sections %s' % kinds)
        for red, kind, lines in secs:
            if red != reduced:
                raise Bad('output-reduced-flag', 'flag "Reduced" is %s, expected %s' % (red, reduced))
            for t in lines:
                if kind == 'Vertices':
                    row = gen.hom(drive.parse_fraction_row(t))
                elif kind == 'Rays':
                    row = drive.parse_row(t) + (0,)
                    if content(row) != 1:
                        raise Bad('ray-not-primitive', 'ray %s is not in lowest terms' % (row,))
                else:
                    row = drive.parse_row(t)
                    if content(row) != 1:
                        raise Bad('row-not-primitive', 'row %s is not in lowest terms' % (row,))
                if len(row) != width:
                    raise Bad('output-dimension', 'row %s has %d entries, not %d' % (row, len(row), width))
                if row[-1] < 0:
                    raise Bad('negative-denominator', 'row %s' % (row,))
                res.append(row)
    except drive.ParseError as e:
        raise Bad('output-unparsable', str(e))
    return res


def feasible(want):
    return any(x[-1] for x in want)


def vertices(out, h, want=None):
    """Checks the output of a vertex enumeration of a pointed, feasible outer description."""
    if want is None:
        want = poly.poly_vertices(h.rows())
    got = split_h(out, h.dim + 1, bool(h.maps))
    rows = h.rows()
    for g in got:
        if any(poly.dot(x, g) > 0 for x in rows):
            raise Bad('vertex-infeasible', 'printed row %s violates an inequality' % (g,))
    if h.maps:
        def act(m, g):
            w = [sum(c * g[i] for i, c in im.items()) for im in m] + [g[-1]]
            return poly.primitive(w)
        rep = gen.orbit_reps(sorted(want), act, h.maps)
        for g in got:
            if g not in rep:
                raise Bad('vertex-not-extremal', 'printed row %s is not a vertex or extremal ray' % (g,))
        orbs = [rep[g] for g in got]
        if len(set(orbs)) != len(orbs):
            raise Bad('orbit-duplicate', '%d rows for %d classes' % (len(orbs), len(set(orbs))))
        if set(orbs) != set(rep.values()):
            raise Bad('orbit-missing', '%d of %d classes printed' % (len(set(orbs)), len(set(rep.values()))))
        return got
    for g in got:
        if g not in want:
            raise Bad('vertex-not-extremal', 'printed row %s is not a vertex or extremal ray' % (g,))
    if len(set(got)) != len(got):
        raise Bad('vertex-duplicate', 'a vertex or ray is printed twice')
    if set(got) != want:
        raise Bad('vertex-missing', 'missing: %s' % sorted(want - set(got))[:5])
    return got


def generates(got, rows):
    """The cone generated by `got` (homogeneous) is exactly {y : rows.y <= 0, y_last >= 0}."""
    n = len(rows[0])
    allrows = [tuple(x) for x in rows] + [tuple([0] * (n - 1) + [-1])]
    for g in got:
        if any(poly.dot(x, g) > 0 for x in allrows):
            raise Bad('vertex-infeasible', 'printed row %s violates an inequality' % (g,))
    if not got:
        raise Bad('vertex-missing', 'nothing printed')
    eqs, fac, _ = poly.cone_facets(list(got))
    deqs, dfac, _ = poly.cone_facets(allrows)       # generators of the cone: dfac + lines
    gens = dfac + deqs + [tuple(-x for x in e) for e in deqs]
    for row in fac + eqs + [tuple(-x for x in e) for e in eqs]:
        for g in gens:
            if poly.dot(row, g) > 0:
                raise Bad('vertex-missing', 'the printed rows do not generate %s' % (g,))


def run_problem(x):
    """Key and message when a run that has to succeed did not; None otherwise; 'inconclusive' on watchdogs."""
    if x.hang in ('slow', 'killed'):
        return 'inconclusive'
    if x.hang:
        return ('hang-' + x.hang, 'the run did not terminate (%s)' % x.hang)
    if x.rc != 0:
        return ('exit-%d' % x.rc, 'exit code %d: %s' % (x.rc, x.err[-300:]))
    return None

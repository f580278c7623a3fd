#!/usr/bin/env python3
"""Every documented way to write an input gives the same output."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import random
import build, core, drive, e2e, gen, judge, notation, poly, sym

# the accepted spellings (each also with a colon)
WORDS = {
    'Names': ['INDEX', 'INDICES', 'INDEX_SECTION', 'INDICES_SECTION', 'NAMES', 'NAME_SECTION', 'NAMES_SECTION', 'Indices', 'Names'],
    'Maps': ['MAPS', 'MAP_SECTION', 'MAPS_SECTION', 'Maps'],
    'Vertices': ['CONVEX_HULL', 'CONVEX_HULL_SECTION', 'CONV_SECTION', 'Vertices'],
    'Rays': ['CONE_SECTION', 'CONICAL_HULL', 'CONICAL_HULL_SECTION', 'Rays'],
    'Equations': ['EQUATIONS', 'EQUATION_SECTION', 'EQUATIONS_SECTION', 'Equations'],
    'Inequalities': ['INEQUALITIES', 'INEQUALITY_SECTION', 'INEQUALITIES_SECTION', 'Inequalities'],
    'Reduced Vertices': ['REDUCED_CONVEX_HULL', 'REDUCED_CONVEX_HULL_SECTION', 'REDUCED_CONV_SECTION', 'Reduced Vertices'],
    'Reduced Rays': ['REDUCED_CONE_SECTION', 'REDUCED_CONICAL_HULL', 'REDUCED_CONICAL_HULL_SECTION', 'Reduced Rays'],
    'Reduced Inequalities': ['REDUCED_INEQUALITIES', 'REDUCED_INEQUALITY_SECTION', 'REDUCED_INEQUALITIES_SECTION', 'Reduced Inequalities'],
}


def blank(r):
    return r.choice(['', '', '', ' ', '\t', '  \t '])


def pad(r, s, p=.15):
    if r.random() < p:
        s = r.choice([' ', '\t', '   ', ' \t', ' ' * 300]) + s
    if r.random() < p:
        s += r.choice([' ', '\t', '   ', ' \t', ' ' * 300])
    return s


def image(r, im, names):
    """An image with its terms in any order and with coefficients one written or not."""
    items = [(i, c) for i, c in im.items() if c]
    r.shuffle(items)
    s = ''
    for i, c in items:
        n = names[i] if i < len(names) else ''
        sign = '-' if c < 0 else ('+' if s or r.random() < .1 else '')
        num = '' if abs(c) == 1 and n and r.random() < .8 else str(abs(c))
        s += sign + num + n
    return s or '0'


def identifier(r, k, names=()):
    if names and r.random() < .4:
        n = r.choice(names)  # a name within the identifier says nothing about the row
        return r.choice(['(%s)', '( %s)', '(\t%s row )', '(row %s)', '( %s <= 3)', '(%s -1)']) % n + r.choice(['', ' ', '\t'])
    return r.choice(['(%d)' % k, '( %d)' % k, '(  %d )' % k, '(row %d)' % k, '(a<=b)', '(%s)' % ('long' * 80), '(x0)', '()', '(1/2 + 3)']) + r.choice(['', ' ', '  ', '\t'])


def write(r, d, feats, reduced=False):
    """A text for d; feats collects what was varied."""
    inner = isinstance(d, gen.V)
    on = lambda f, p=.35: (feats.add(f) or True) if r.random() < p else False
    pre = 'Reduced ' if reduced else ''
    secs = []
    names = None
    if d.names:
        n = ' '.join(d.names)
        if on('names_layout', .3):
            n = ''.join(x + r.choice([' ', '  ', '\t', '\n', ' \n', '\n\n']) for x in d.names).rstrip()
        names = ('Names', n.split('\n'))
    maps = None
    if d.maps:
        maps = ('Maps', [r.choice([' ', ' ', '  ', '\t']).join(image(r, im, d.names) for im in m) if on('map_terms') else gen.map_text(m, d.names) for m in d.maps])
    ident = on('identifiers', .25)
    if inner:
        frac = on('fractions')
        f = (lambda x: notation.gap(r, True).join(notation.fraction(r, y) for y in x)) if frac else (lambda x: ' '.join(map(str, x)))
        if d.verts:
            secs.append((pre + 'Vertices', [f(v) for v in d.verts]))
        if d.rays:
            g = f if not frac else (lambda x: notation.gap(r, True).join(notation.num(r, y) for y in x))
            secs.append((pre + 'Rays', [g(v) for v in d.rays]))
    else:
        use = d.names and not on('numeric_rows', .25)
        fancy = on('terms_and_operators', .6)
        if use:
            f = lambda x, op: notation.named(r, x, d.names, op, fancy)
        else:
            f = lambda x, op: notation.unnamed(r, x, fancy, op)
        if d.eqs:
            secs.append(('Equations', [f(x, '=') for x in d.eqs]))
        secs.append((pre + 'Inequalities', [f(x, '<=') for x in d.ineqs]))
    if ident and not (d.names and any('(' in n or ')' in n for n in d.names)):
        secs = [(k, [identifier(r, i + 1, d.names) + l for i, l in enumerate(ls)]) for k, ls in secs]
    if len(secs) > 1 and on('data_sections_swapped', .5):
        secs.reverse()
    if maps:
        secs.insert(r.randint(0, len(secs)) if on('maps_position', .4) else 0, maps)
    if names:
        # names come before named rows and maps
        first = 0
        if inner and not maps and on('names_position', .4):
            first = r.randint(0, len(secs))
        elif inner and maps:
            first = r.randint(0, secs.index(maps))
            if first:
                feats.add('names_position')
        secs.insert(first, names)
    if on('dimension', .4):
        secs.insert(r.randint(0, len(secs)), (r.choice(['DIM=%d', 'DIM = %d', 'DIM =%d', 'DIM= %d', 'Dimension=%d', 'DIMENSION = %d', 'Dim=%d', 'DIM=\n%d', 'DIM\n= %d', 'DIM = \t%d']) % d.dim, None))
    spell, blanks, padded, end = on('keywords', .6), on('blank_lines', .4), on('padding', .4), on('end', .4)
    out = []
    if on('leading_lines', .15):
        out += r.choice([['', ''], ['# a comment'], ['VALID', '0 0 0'], [' '] * 5])
    for k, ls in secs:
        if ls is None:
            out += k.split('\n')
        else:
            w = k
            if spell:
                w = r.choice(WORDS[k]) + r.choice(['', '', ':'])
            out.append(pad(r, w) if padded else w)
            for l in ls:
                if blanks and r.random() < .2:
                    out += [blank(r)] * r.choice([1, 1, 2, 2, 3, 3, 40])
                out.append(pad(r, l) if padded else l)
            if end and r.random() < .6:
                out.append(r.choice(['END', 'END', 'End']))
        if blanks and r.random() < .5:
            out += [blank(r)] * r.choice([1, 1, 2, 2, 3, 3, 40])
    if end and r.random() < .5:
        out.append('END')
    eol = '\r\n' if on('crlf', .25) else '\n'
    t = eol.join(out)
    if not on('no_final_newline', .2):
        t += eol
    return t


def pick(r):
    """(description, reduced description or None, judge)"""
    if r.random() < .05:     # dozens of columns
        n = r.choice([9, 12, 17, 24, 33])
        rows = [tuple(-int(i == j) for j in range(n)) + (0,) for i in range(n)] + [(1,) * n + (-1,)]
        points = [tuple(int(i == j) for j in range(n)) for i in range(n + 1)]
        names = gen.names_for(r, n)
        if r.random() < .5:
            v = gen.V(points)
            v.names = names if r.random() < .7 else None
            o = ([], rows, [sum(1 << i for i, g in enumerate(v.gens()) if poly.dot(f, g) == 0) for f in rows])
            return v, None, lambda out: judge.facets(out, v, o) is not None
        h = gen.H(rows)
        h.names = names if r.random() < .7 else None
        want = {p + (1,) for p in points}
        return h, None, lambda out: judge.vertices(out, h, want) is not None
    while True:
        k = r.random()
        if k < .3:
            v = gen.rnd_v(r, budget=16)
            if r.random() < .5:
                v.names = gen.names_for(r, v.dim)
        elif k < .5:
            v = sym.symmetric_v(r)
            if len(v.gens()) > 40 or v.dim > 9:
                continue
        if k < .5:
            o = poly.poly_facets(v.gens())
            perms = gen.perms_of(v) if v.maps else None
            red = None
            return v, red, lambda out: judge.facets(out, v, o, perms=perms) is not None
        h = gen.rnd_h(r) if k < .75 else sym.symmetric_h(r)
        if len(h.ineqs) > 24 or h.dim > 8:
            continue
        if not h.names and r.random() < .6:
            h.names = gen.names_for(r, h.dim)
        want = poly.poly_vertices(h.rows())
        if want is None or not judge.feasible(want) or len(want) > 80:
            continue
        return h, None, lambda out: judge.vertices(out, h, want) is not None


def one(seed, c):
    r = random.Random(seed)
    d, _, look = pick(r)
    t = '-t=%d' % r.choice([1, 1, 2, 3])
    types = e2e.types_for(d.gens() if isinstance(d, gen.V) else d.rows())
    args = ['@in', t, '-i', r.choice([x for x in types if x])]
    if not d.maps and r.random() < .4:
        args += ['-m', 'dd']
    x = e2e.run(c, args, {'in': d.text()})
    if not e2e.ok(c, x, args, 'plain notation: ') or e2e.judged(c, args, x, look) is None:
        return
    plain = sorted(x.out.split('\n'))
    for _ in range(3):
        feats = set()
        text = write(r, d, feats)
        x = e2e.run(c, args, {'in': text, 'plain': d.text()}, 'asan' if r.random() < .05 else 'rel')
        if not e2e.ok(c, x, args, 'equivalent notation: ') or e2e.judged(c, args, x, look) is None:
            return
        if '-m' in args or not d.maps:
            if sorted(x.out.split('\n')) != plain:
                c.bad('notation-changes-output', 'different output for equivalent notations\n%s' % text[:400])
                c.files.update({'stdout': x.out, 'stdout_plain': '\n'.join(plain)})
                return
        for f in feats:
            c.stats['varied_' + f] += 1
        c.stats['equivalent_texts'] += 1
    c.stats['wide_files'] += d.dim > 8
    c.nontrivial(seed)
    c.sample = {'input': text[:500]}


def keyword(item, c):
    """Every spelling of every keyword once, on a fixed file."""
    kind, word = item
    v = gen.V([(0, 0), (2, 0), (0, 2)], [], names=['x', 'y'], maps=[[{1: 1}, {0: 1}]])
    w = gen.V([(0, 0), (1, 3)], [(1, 0), (1, 2)])
    h = gen.H([(-1, 0, 0, 0), (0, -1, 0, 0), (0, 0, -1, 0), (1, 1, 1, -3)], [(1, -1, 0, 0)])
    if kind == 'Reduced Rays':
        u = gen.V([(0, 0)], [(1, 0), (0, 1)], names=['x', 'y'], maps=[[{1: 1}, {0: 1}]])
        text, d = 'Names\nx y\nMaps\ny x\nVertices\n0 0\nReduced Rays\n1 0\n', u
    elif kind == 'Reduced Vertices':
        text, d = 'Names\nx y\nMaps\ny x\nReduced Vertices\n2 0\n0 0\n', v
    elif kind == 'Reduced Inequalities':
        d = gen.H([(-1, 0, 0), (0, -1, 0), (1, 1, -3)], names=['x', 'y'], maps=[[{1: 1}, {0: 1}]])
        text = 'Names\nx y\nMaps\ny x\nReduced Inequalities\n-1 0 0\n1 1 -3\n'
    elif kind in ('Names', 'Maps'):
        d, text = v, v.text()
    elif kind in ('Vertices', 'Rays'):
        d, text = w, w.text()
    else:
        d, text = h, h.text()
    text = text.replace(kind + '\n', word + '\n')
    x = e2e.run(c, ['@in'], {'in': text})
    if not e2e.ok(c, x, ['keyword', word]):
        return
    if isinstance(d, gen.V):
        r = e2e.judged(c, [word], x, judge.facets, d)
    else:
        r = e2e.judged(c, [word], x, judge.vertices, d)
    if r is not None:
        c.stats['keyword_spellings'] += 1
        c.nontrivial('keyword', word)


SAMPLES = {
    'porta_format/sample_1': 'cube', 'porta_format/sample_2': 'symcube', 'porta_format/sample_3': 'hcube', 'porta_format/sample_4': 'hcube0', 'porta_format/sample_5': 'ray',
    'panda_format/sample_1': 'cube', 'panda_format/sample_2': 'symcube', 'panda_format/sample_3': 'hcube', 'panda_format/sample_4': 'hcube0', 'panda_format/sample_5': 'ray',
}


def sample(item, c):
    """The files in the documentation."""
    name, what = item
    cube = [(a, b, e) for a in (0, 1) for b in (0, 1) for e in (0, 1)]
    hc = [tuple((s if j == i else 0) for j in range(3)) + ((-1,) if s > 0 else (0,)) for i in range(3) for s in (1, -1)]
    xyz = ['x', 'y', 'z']
    d = {'cube': gen.V(cube, names=xyz), 'symcube': gen.V(cube, names=xyz, maps=[[{1: 1}, {0: 1}, {2: 1}], [{1: 1}, {2: 1}, {0: 1}]]),
         'hcube': gen.H(hc, names=xyz), 'hcube0': gen.H(hc), 'ray': gen.V([(gen.Fraction(1, 2), gen.Fraction(1, 2)), (1, 2), (2, 1)], [(1, 1)])}[what]
    path = os.path.join(build.REPO, 'samples', name)
    if not os.path.exists(path):
        c.stats['samples_absent'] += 1
        return
    with open(path) as f:
        text = f.read()
    x = e2e.run(c, ['@in'], {'in': text})
    if not e2e.ok(c, x, [name]):
        return
    if e2e.judged(c, [name], x, judge.facets if isinstance(d, gen.V) else judge.vertices, d) is not None:
        c.stats['samples_read'] += 1
        c.nontrivial('sample', name)


def body(chk):
    e2e.setup(chk, 'rel', 'asan')
    chk.run(keyword, [(k, w + s) for k, ws in WORDS.items() for w in ws for s in ('', ':')], chunk=2)
    chk.run(sample, sorted(SAMPLES.items()), chunk=1)
    chk.run(one, chk.seeds(chk.scale(4000, 100000), 19), chunk=8, seconds=chk.scale(140, 3000))
    chk.rule = ('every spelling of every keyword, the sample files, and generated descriptions each written plainly and in three random equivalent notations: outputs are judged by the exact oracle '
                'and compared with the output for the plain notation')


core.main('C19', body)

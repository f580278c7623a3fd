"""Hostile input files and command lines."""
import glob, os
import build, e2e, gen, poly, sym

KEYWORDS = ['DIM', 'DIM=3', 'DIM = 2', 'Dim', 'DIMENSION 3', 'Names', 'INDEX', 'Maps', 'Vertices', 'Rays', 'Equations', 'Inequalities', 'CONV_SECTION',
            'CONE_SECTION', 'INEQUALITIES_SECTION', 'INEQUALITY_SECTION', 'END', 'Reduced Vertices', 'Reduced Rays', 'Reduced Inequalities', 'Reduced',
            'Vertices:', 'Inequalities:', 'Equations:', 'Maps:', 'Names:', 'CONVEX_HULL', 'REDUCED_INEQUALITIES', 'VALID', 'End', 'DIM=', 'DIM=-1', 'DIM=0']
TOKENS = ['0', '1', '-1', '2', '1/2', '-3/4', '1/0', '0/0', '/', '1/', '/2', '1/-2', '--1', '+1', '+', '-', '+-1', '1.5', '1e3', '0x10', '007', 'x', 'x0', 'x1', '-x0', '2x1',
          '+3x0', 'x0+x1', '-x0+1', '<=', '>=', '=', '==', '<', '>', '=<', '=>', '<=1', '<= 1', '>=-1', '(1)', '(', ')', '( 2 )', '(a b)', '#', '\t', ' ', '\r', '\x00', '\xff',
          '\xc3\xa4', '2147483647', '-2147483648', '2147483648', '4294967296', '99999999999999999999', '65536', '46341', 'nan', 'inf', '1x', '1/2x0', '1 /2', '1/ 2', '1/2/3', 'x0x1',
          '- x0', '-  1', ':', ';', ',', '1,', '[1]', '\\', '"', "'", '%s', '*', '2*x0', 'Inf', 'E', 'e']


def seeds(r):
    """A well-formed file as starting point."""
    k = r.random()
    if k < .3:
        return gen.rnd_v(r, budget=12).text()
    if k < .55:
        return gen.rnd_h(r, lines=r.random() < .4).text()
    if k < .65:
        h = gen.rnd_h(r)
        h.names = gen.names_for(r, h.dim)
        return h.text()
    if k < .8:
        v = sym.symmetric_v(r)
        while len(v.verts) > 16 or v.dim > 7:
            v = sym.symmetric_v(r)
        return v.text(reduced=r.random() < .3)
    if k < .9:
        h = sym.symmetric_h(r)
        while len(h.ineqs) > 16:
            h = sym.symmetric_h(r)
        return h.text(reduced=r.random() < .3)
    f = r.choice(sorted(glob.glob(os.path.join(build.REPO, 'samples', '*', '*'))))
    with open(f, encoding='latin-1') as g:
        t = g.read()
    return t if len(t) < 3000 else gen.rnd_v(r, budget=12).text()


def mutate(r, t, n=None):
    for _ in range(n or r.choice([1, 1, 1, 2, 2, 3, 5, 8])):
        lines = t.split('\n')
        k = r.randint(0, 17)
        i = r.randrange(len(lines))
        if k == 0:
            del lines[i]
        elif k == 1:
            lines.insert(i, lines[r.randrange(len(lines))])
        elif k == 2:
            j = r.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
        elif k == 3:
            lines.insert(i, r.choice(KEYWORDS))
        elif k in (4, 5, 6, 7, 8):
            w = lines[i].split(' ')
            j = r.randrange(len(w))
            q = r.randint(0, 4)
            if q == 0:
                del w[j]
            elif q == 1:
                w.insert(j, w[r.randrange(len(w))])
            elif q == 2:
                w[j] = r.choice(TOKENS)
            elif q == 3:
                w.insert(j, r.choice(TOKENS))
            else:
                w[j] += r.choice(TOKENS)
            lines[i] = ' '.join(w)
        elif k == 9:
            lines[i] = ''
        elif k == 10:
            lines[i] = r.choice(['  ', '\t', ' \t', '']) + lines[i] + r.choice(['', ' ', '\r', '\t '])
        elif k == 11:
            t = '\n'.join(lines)
            t = t[:r.randrange(len(t) + 1)]
            continue
        elif k == 12:
            t = '\n'.join(lines)
            if t:
                j = r.randrange(len(t))
                t = t[:j] + chr(r.choice([0, 9, 10, 13, 32, 40, 41, 43, 45, 47, 60, 61, 62, 127, 255] + [r.randrange(256)])) + t[j + r.randint(0, 1):]
            continue
        elif k == 13:
            t = '\n'.join(lines).replace('\n', '\r\n')
            continue
        elif k == 14:
            other = seeds(r).split('\n')
            j = r.randrange(len(other))
            lines = lines[:i] + other[j:]
        elif k == 15:
            t = '\n'.join(lines).rstrip('\n')
            continue
        elif k == 16:
            lines[i] = lines[i].replace(' ', r.choice(['  ', '\t', '', ',']))
        else:
            t = '\n'.join(lines).lower() if r.random() < .3 else '\n'.join(lines).replace('x', r.choice(['X', 'y', '', 'xx']))
            continue
        t = '\n'.join(lines)
        if not t:
            t = '\n'
    return t


OPTIONS = ['-m', '-m=dd', '-m=ad', '--method=dd', '--method=ad', '-m=', '--method=', '--method', '-mdd', '-i', '-i=16', '-i=inf', '--integer-type=safe', '--integer-type=', '-i=8',
           '-t', '-t=2', '-t=0', '-t=-1', '--threads=3', '--threads=x', '--threads=', '-t=99999999999', '-s', '-s=rev', '--sorting=lex_asc', '--sorting=', '-c', '--check', '--checked',
           '-k', '-k=@known', '--known-data=@known', '--known-facets=@known', '--known-vertices=@known', '--known-data=', '-h', '--help', '-h=threads', '--help=', '?', '-v', '--version',
           '--help=nothing', '@in', '@known', '@missing', '@dir', '', ' ', '-', '--', '-x', '--unknown=1', '-f', '--filter', 'ad', 'dd', '2', '16', 'inf', 'safe', '-2', '@in', '@in']


def command_line(r):
    k = r.random()
    if k < .6:
        a = r.choice([[], ['-m', 'dd'], ['-m', 'ad'], ['-m', 'dd']]) + e2e.int_args(r, ('safe', 'inf', '')) + ['-t', str(r.choice([1, 2, 3]))]
        if r.random() < .25:
            a += ['-s', r.choice(e2e.SORTS)]
        if r.random() < .3:
            a += ['-c']
        if r.random() < .3:
            a += ['-k', '@known']
        return a + ['@in']
    a = [r.choice(OPTIONS) for _ in range(r.randint(0, 6))]
    if r.random() < .7:
        a.insert(r.randint(0, len(a)), '@in')
    return a

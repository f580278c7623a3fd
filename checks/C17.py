#!/usr/bin/env python3
"""Malformed or inconsistent input is rejected, and what is not rejected is read as documented."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import random, signal
import core, e2e, gen, judge, malformed, notation, poly, sym
from malformed import Text

CRASH = (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL)


def options(r, d=None):
    a = []
    if r.random() < .35:
        a += ['-m', r.choice(['ad', 'dd'])] if not (d is not None and d.maps) else ['-m', 'ad']
    if r.random() < .4:
        a += ['-i', r.choice(['16', '32', '64', 'safe', 'inf'])]
    if r.random() < .3:
        a += ['-t', str(r.choice([1, 2, 4]))]
    if r.random() < .25:
        a += ['-s', r.choice(e2e.SORTS)]
    if r.random() < .15:
        a.append('-c')
    return a


def refused(c, args, files, label):
    """Runs and requires a loud refusal."""
    x = e2e.run(c, args, files, 'asan' if c.stats['asan_next'] else 'rel', cpu=20, wall=60)
    what = None
    if x.hang in ('slow', 'killed'):
        c.inconclusive = x.hang
        return False
    if x.hang:
        what = ('malformed-hang', 'did not terminate (%s)' % x.hang)
    elif x.rc == 0:
        what = ('malformed-accepted', 'was accepted')
    elif x.rc in CRASH:
        what = ('malformed-crash', 'ended with signal %d' % -x.rc)
    elif x.out.strip():
        what = ('malformed-output', 'printed a description')
    elif not [l for l in x.err.split('\n') if l.strip() and not l.startswith('PANDA')]:
        what = ('malformed-silent', 'was refused without an explanation')
    if what:
        c.bad(what[0], '[%s] %s: %s\n%s' % (label, ' '.join(args), what[1], '\n'.join('%s: %s' % (n, t[:400]) for n, t in files.items() if isinstance(t, str))))
        c.files.update({'args': ' '.join(args) + '\n', 'stdout': x.out[:4000], 'stderr': x.err[-3000:]})
        return False
    c.stats['refused_' + label] += 1
    return True


def base(r):
    """(description, named rows?)"""
    k = r.random()
    if r.random() < .06:     # dozens of columns
        n = r.choice([9, 12, 17, 24, 33])
        if r.random() < .5:
            d = gen.V([tuple(int(i == j) for j in range(n)) for i in range(n + 1)])
        else:
            d = gen.H([tuple(-int(i == j) for j in range(n)) + (0,) for i in range(n)] + [(1,) * n + (-1,)])
        if r.random() < .5:
            d.names = gen.names_for(r, n)
        return d
    if k < .35:
        v = gen.rnd_v(r, budget=12)
        if r.random() < .5:
            v.names = gen.names_for(r, v.dim)
        return v
    if k < .5:
        while True:
            v = sym.symmetric_v(r)
            if len(v.verts) <= 16 and v.dim <= 7:
                return v
    if k < .65:
        while True:
            h = sym.symmetric_h(r)
            if len(h.ineqs) > 16:
                continue
            want = poly.poly_vertices(h.rows())
            if want is not None and judge.feasible(want):
                return h
    while True:
        h = gen.rnd_h(r, lines=False)
        want = poly.poly_vertices(h.rows())
        if want is not None and judge.feasible(want):
            break
    if r.random() < .6:
        h.names = gen.names_for(r, h.dim)
    return h


def labelled(r, c):
    d = base(r)
    inner = isinstance(d, gen.V)
    text = Text.of(d.text())
    files, extra = {}, []
    names, maps = text.get('Names'), text.get('Maps')
    data = [s for s in text.secs if s[0] in ('Vertices', 'Rays', 'Equations', 'Inequalities')]
    if r.random() < .08:     # hundreds of rows
        for s in data:
            s[1] += [r.choice(s[1]) for _ in range(r.choice([20, 70, 150, 500, 1500]))]
        c.stats['long_files'] += 1
    if d.dim > 8:
        c.stats['wide_files'] += 1
    k = r.random()
    if k < .45:
        s = r.choice(data)
        named = not inner and bool(d.names)
        if named and r.random() < .2:    # unnamed rows although there are names
            named = False
            i = r.randrange(len(s[1]))
            rows = d.eqs if s[0] == 'Equations' else d.ineqs
            s[1][:] = [' '.join(map(str, x)) for x in rows] * (len(s[1]) // len(rows))
        label = malformed.malform_rows(r, s, named, inner, d.names, s[0] == 'Equations')
        label = ('named_' if named else 'coordinates_' if inner else 'numeric_') + label
        # a single row has no other row to disagree with
        if len(data) == 1 and len(s[1]) == 1 and not d.names and ('row_' in label or 'too_long' in label or label.endswith('two_rhs')):
            return
    elif k < .6:
        opts = ['dim', 'dim_garbage', 'repeated_section', 'no_data', 'both_kinds', 'empty_section', 'reduced_without_maps', 'keyword_missing', 'empty_file', 'missing_file', 'directory', 'two_files', 'binary']
        label = r.choice(opts)
        if label == 'dim':
            t = 'DIM=%d' % (d.dim + r.choice([-1, 1, 2, 10, 2 ** 31, -d.dim]))
            text.secs.insert(r.randrange(len(text.secs) + 1), [t, []])
        elif label == 'dim_garbage':
            t = r.choice(['DIM=x', 'DIM=', 'DIM=%dx' % d.dim, 'DIM=%d %d' % (d.dim, d.dim), 'DIM=-%d' % d.dim, 'DIM = ', 'DIM', 'DIM=%d.5' % d.dim, 'DIM=0x%d' % d.dim, 'DIMENSION=', 'Dim=1e1', 'DIM=99999999999999999999999'])
            text.secs.insert(r.randrange(len(text.secs) + 1), [t, []])
            if r.random() < .5:
                text.secs[0], text.secs[-1] = text.secs[-1], text.secs[0]
                if maps:
                    return
        elif label == 'repeated_section':
            s = r.choice(text.secs)
            s2 = [s[0], list(s[1])]
            if s2[0] in ('Vertices', 'Inequalities') and r.random() < .3 and not maps:
                s2[0] = r.choice({'Vertices': ['CONV_SECTION', 'CONVEX_HULL:', 'Vertices:'], 'Inequalities': ['INEQUALITY_SECTION', 'INEQUALITIES', 'Inequalities:']}[s2[0]])
            if r.random() < .4 and len(s2[1]) > 1:
                s2[1] = s2[1][:1]
            text.secs.insert(r.randint(text.secs.index(s) + 1, len(text.secs)), s2)
        elif label == 'no_data':
            text.secs = [s for s in text.secs if s not in data] + ([['DIM=%d' % d.dim, []]] if r.random() < .5 else [])
        elif label == 'both_kinds':
            row = ' '.join(['1'] * (d.dim + (1 if inner else 0)))
            text.secs.insert(r.randrange(len(text.secs) + 1) if not maps else len(text.secs), [r.choice(['Inequalities', 'INEQUALITY_SECTION', 'Reduced Inequalities'] if inner else ['Vertices', 'Rays', 'CONV_SECTION', 'Reduced Vertices']), [row]])
        elif label == 'empty_section':
            for s in data:
                s[1][:] = r.choice([[], [''], [' \t', '']])
        elif label == 'reduced_without_maps':
            s = next((s for s in data if s[0] != 'Equations'))
            s[0] = 'Reduced ' + s[0]
            text.secs = [s for s in text.secs if s[0] != 'Maps']
        elif label == 'keyword_missing':
            text.secs = [[l, []] for s in text.secs for l in s[1]]
        elif label == 'empty_file':
            text.secs = r.choice([[], [['', []]], [['\n\n', []]]])
        elif label == 'binary':
            files['in'] = bytes(r.randrange(256) for _ in range(r.choice([1, 10, 300, 5000])))
        elif label == 'missing_file':
            extra = ['/nonexistent/%d' % r.randrange(1000)]
        elif label == 'directory':
            extra = [e2e.TMP]
        elif label == 'two_files':
            extra = ['@in', '@in']
    elif k < .75:
        if not names:
            return
        label = r.choice(['names_too_few', 'names_too_many', 'names_repeated'] + (['names_missing', 'names_after_maps'] if maps else []))
        n = names[1][0].split(' ')
        if label == 'names_too_few':
            if len(n) < 2:
                return
            n.pop(r.randrange(len(n)))
        elif label == 'names_too_many':
            n.insert(r.randrange(len(n) + 1), 'surplus')
        elif label == 'names_repeated':
            if len(n) < 2:
                return
            i, j = r.sample(range(len(n)), 2)
            n[i] = n[j]
        names[1][0] = ' '.join(n)
        if not inner:   # named rows fit any number of names
            text.secs.insert(r.randrange(len(text.secs) + 1) if not maps else len(text.secs), ['DIM=%d' % d.dim, []])
        if label == 'names_missing':
            text.secs.remove(names)
        elif label == 'names_after_maps':
            text.secs.remove(names)
            text.secs.insert(r.randint(text.secs.index(maps) + 1, len(text.secs)), names)
    elif k < .87:
        if not maps:
            return
        label = malformed.malform_map(r, maps, d.names)
    else:
        oracle = poly.poly_facets(d.gens()) if inner else None
        if inner:
            rows = oracle[1]
            if not rows:
                return
            known = Text([['Inequalities', [' '.join(map(str, x)) for x in rows]]])
        else:
            rows = poly.poly_vertices(d.rows())
            if rows is None:
                return
            rows = sorted(rows)
            known = Text([['Vertices', [' '.join(str(gen.Fraction(y, x[-1])) for y in x[:-1]) for x in rows if x[-1]]]])
            if not known.secs[0][1]:
                return
        label = r.choice(['known_row', 'known_row', 'known_missing_file', 'known_directory', 'known_empty', 'known_wrong_kind', 'known_repeated', 'known_dimension', 'known_no_argument', 'known_other_option'])
        if r.random() < .15:
            known.secs[0][1] += [r.choice(known.secs[0][1]) for _ in range(r.choice([10, 40, 200, 1000]))]
            c.stats['long_known_files'] += 1
        opt = r.choice([['-k', '@known'], ['-k=@known'], ['--known-data=@known'], ['--known-facets=@known' if inner else '--known-vertices=@known']])
        if label == 'known_row':
            rowlabel = malformed.malform_rows(r, known.secs[0], False, not inner, None)
            label += '_' + rowlabel
        elif label == 'known_missing_file':
            opt = [o.replace('@known', '/nonexistent/k') for o in opt]
        elif label == 'known_directory':
            opt = [o.replace('@known', e2e.TMP) for o in opt]
        elif label == 'known_empty':
            known.secs = r.choice([[], [['# nothing', []]], [['Names', ['x y']]]])
        elif label == 'known_wrong_kind':
            known.secs[0][0] = 'Vertices' if inner else 'Inequalities'
        elif label == 'known_repeated':
            known.secs.append([known.secs[0][0], known.secs[0][1][:1]])
        elif label == 'known_dimension':
            known.secs[0][1] = [l + ' 0' for l in known.secs[0][1]] if r.random() < .5 else [l.split(' ', 1)[1] if ' ' in l else l + ' 0' for l in known.secs[0][1]]
        elif label == 'known_no_argument':
            opt = ['-k']
        elif label == 'known_other_option':
            opt = [('--known-vertices=' if inner else '--known-facets=') + '@known']
        files['known'] = known.render(r)
        extra = (opt + ['@in']) if label != 'known_no_argument' and r.random() < .5 else ['@in'] + opt
    files.setdefault('in', text.render(r))
    o = options(r, d)
    if 'known' in label and '-c' in o:
        o.remove('-c')
    if not extra:
        extra = ['@in']
    args = (o + extra) if label == 'known_no_argument' or r.random() < .5 else extra + o
    # the file the mutation started from is accepted: otherwise the refusal would show nothing
    if r.random() < .12:
        x = e2e.run(c, ['@in', '-i', 'inf'], {'in': d.text()})
        if not e2e.ok(c, x, ['control']):
            return
        c.stats['controls'] += 1
    if refused(c, args, files, label):
        c.nontrivial(label, files['in'])
        c.sample = {'label': label, 'args': args, 'input': str(files['in'])[:400]}


SIMPLE = ['x', 'y', 'z', 'e', 'xy', 'ze']


def edited(r, c):
    """One row is edited at random; a reference reader tells what it means."""
    inner = r.random() < .45
    if inner:
        v = gen.rnd_v(r, budget=10)
        secs = Text.of(gen.V(v.verts, v.rays).text())
        s = r.choice(secs.secs)
        i = r.randrange(len(s[1]))
        line = malformed.edit(r, s[1][i])
        verdict = malformed.read_coordinates(line)
    else:
        while True:
            h = gen.rnd_h(r, lines=False)
            if h.dim <= 4:
                break
        names = r.sample(SIMPLE, h.dim) if r.random() < .6 else None
        secs = Text.of(gen.H(h.ineqs, h.eqs, names).text())
        s = r.choice([s for s in secs.secs if s[0] in ('Equations', 'Inequalities')])
        i = r.randrange(len(s[1]))
        eq = s[0] == 'Equations'
        rows = h.eqs if eq else h.ineqs
        start = s[1][i]
        if r.random() < .4:
            start = notation.named(r, rows[i], names, '=' if eq else '<=') if names else notation.unnamed(r, rows[i], True, '=' if eq else '<=')
        line = malformed.edit(r, start)
        verdict = malformed.read_named(line, names, eq) if names else malformed.read_numeric(line, eq)
    if verdict[0] == 'grey':
        c.stats['edits_left_open'] += 1
        return
    s[1][i] = line
    width = len((v.verts or v.rays)[0]) if inner else h.dim + 1
    o = options(r)
    o = [t for t in o if t != '-c']
    files = {'in': secs.render(r)}
    if verdict[0] == 'bad' or len(verdict[1]) != width:
        if verdict[0] != 'bad' and sum(len(s[1]) for s in secs.secs if s[0] != 'Names') == 1:
            return
        if refused(c, o + ['@in'], files, 'edited_' + ('inner' if inner else 'outer')):
            c.nontrivial('edit', files['in'])
            c.sample = {'input': files['in'][:400]}
        return
    # still a correct file: the result has to be the one of the edited rows
    if inner:
        vs, rs = list(v.verts), list(v.rays)
        if s[0] == 'Vertices':
            vs[i] = tuple(verdict[1])
        else:
            l = 1
            for x in verdict[1]:
                l = malformed.lcm(l, x.denominator)
            rs[i] = tuple(int(x * l) for x in verdict[1])
            if not any(rs[i]):
                return
        w = gen.V(vs, rs)
        oracle = poly.poly_facets(w.gens())
        look = lambda out: judge.facets(out, w, oracle) is not None
        rows = w.gens()
    else:
        e, n = list(h.eqs), list(h.ineqs)
        (e if eq else n)[i] = tuple(verdict[1])
        w = gen.H(n, e, names)
        want = poly.poly_vertices(w.rows())
        if want is None or not judge.feasible(want):
            return
        look = lambda out: judge.vertices(out, w, want) is not None
        rows = w.rows()
    args = ['@in', '-i', r.choice([t for t in e2e.types_for(rows) if t] or ['inf'])]
    x = e2e.run(c, args, files)
    if not e2e.ok(c, x, args, 'edited input that is correct: ') or e2e.judged(c, args, x, look) is None:
        return
    c.stats['edited_read_as_documented'] += 1
    c.nontrivial('edit', files['in'])


def one(seed, c):
    r = random.Random(seed)
    if r.random() < .04:
        c.stats['asan_next'] = 1
    (labelled if r.random() < .6 else edited)(r, c)
    if c.stats.pop('asan_next', 0):
        c.stats['asan_runs'] += 1


def body(chk):
    e2e.setup(chk, 'rel', 'asan')
    chk.run(one, chk.seeds(chk.scale(14000, 400000), 17), chunk=16, seconds=chk.scale(140, 3000))
    chk.rule = ('correct files damaged in one labelled way (row widths, tokens, ranges, relations, names, maps, sections, dimension field, files, known data) have to be refused loudly and without '
                'output; randomly edited rows are read by an independent reference reader and have to be refused or give exactly the result of the row as read')


core.main('C17', body)

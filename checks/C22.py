#!/usr/bin/env python3
"""Command line options mean the same in every documented form, order and position."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import itertools, random, re, shutil
import build, core, drive, e2e, gen, judge, poly, sym, wide

PRE = None
OFFSET = {}          # threads created in addition to the workers
INT = 2 ** 31 - 1
LONG = {'m': '--method=', 'i': '--integer-type=', 't': '--threads=', 's': '--sorting='}
METHODS = {'ad': ['ad', 'adjacency-decomposition'], 'dd': ['dd', 'double-description']}
SORTS = {'lex_asc': ['lex_asc', 'lexicographic_ascending', 'lex_up'], 'lex_desc': ['lex_desc', 'lexicographic_descending', 'lex_down'],
         'nz_asc': ['nz_asc', 'nonzero_ascending', 'nz_up'], 'nz_desc': ['nz_desc', 'nonzero_descending', 'nz_down'], 'rev': ['rev', 'reverse']}
NAMES = ['in', 'problem.poi', 'dd', 'ad', '64', '4', 'lex_asc', 'rev', 'inf', 'check', 'h', 'a=b', 'with space', 'm=dd', 'x-t', '?x', 'known', 'sub/dir', './in']
_n = itertools.count()


def spell(r, key, value):
    """One of the documented spellings of an option with an argument; a list of arguments and its label."""
    k = r.randrange(3)
    if key == 'k':
        f, inner = value
        if k == 0:
            return ['-k', f], '-k arg'
        if k == 1:
            return ['-k=' + f], '-k='
        s = r.choice(['--known-data=', '--known-facets=' if inner else '--known-vertices='])
        return [s + f], s
    if k == 0:
        return ['-' + key, value], '-%s arg' % key
    if k == 1:
        return ['-%s=%s' % (key, value)], '-%s=' % key
    return [LONG[key] + value], LONG[key]


class Scene:
    """A scratch directory with files of given names; runs there, counting threads."""

    def __init__(self, c, files):
        self.c, self.files = c, files
        self.dir = os.path.join(e2e.TMP, '%d-%d' % (os.getpid(), next(_n)))
        for n, t in files.items():
            p = os.path.join(self.dir, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(t)
            c.files['file-' + n.replace('/', '_').replace(' ', '_')] = t

    def run(self, args, cpu=30, **kw):
        out = os.path.join(self.dir, '.threads')
        x = drive.run(e2e.BIN['rel'], args, cpu=cpu, cwd=self.dir, env={'LD_PRELOAD': PRE, 'THREADS_OUT': out}, **kw)
        self.c.stats['runs'] += 1
        try:
            with open(out) as f:
                n = int(f.read())
            os.unlink(out)
        except (OSError, ValueError):
            n = None
        return x, n

    def close(self):
        shutil.rmtree(self.dir)


def report(c, args, x, key, msg):
    c.bad(key, 'panda %s: %s' % (' '.join(args), msg))
    c.files.update({'args': ' '.join(args) + '\n', 'stdout': x.out[:4000], 'stderr': x.err[-3000:]})


def small(r):
    """(description, judge of the output)."""
    while True:
        if r.random() < .55:
            v = gen.rnd_v(r, budget=16) if r.random() < .7 else sym.symmetric_v(r)
            if len(v.gens()) > 24 or max(abs(x) for g in v.gens() for x in g) > 8:
                continue
            oracle = poly.poly_facets(v.gens())
            if not oracle[1]:
                continue
            perms = gen.perms_of(v) if v.maps else None
            return v, oracle[1], lambda out: judge.facets(out, v, oracle, perms=perms) is not None
        h = gen.rnd_h(r) if r.random() < .8 else sym.symmetric_h(r)
        want = poly.poly_vertices(h.rows())
        if want is None or not judge.feasible(want) or len(want) > 100 or max(abs(x) for g in h.rows() for x in g) > 8:
            continue
        return h, sorted(want), lambda out: judge.vertices(out, h, want) is not None


def is_ad(x):
    return 'Processing #' in x.err


# ---------------------------------------------------------------- any combination of legal options

def legal(r, c):
    d, want, look = small(r)
    inner = isinstance(d, gen.V)
    names = r.sample(NAMES, 2)
    if len({n.split('/')[-1] for n in names}) < 2:
        names = ['in', 'known.ieq']
    infile, kfile = names
    opts, used = [], []
    method, threads, itype = None, None, None
    if r.random() < .6:
        method = r.choice(['ad', 'dd'])
        a, l = spell(r, 'm', r.choice(METHODS[method]))
        opts.append(a)
        used.append(l)
    if r.random() < .5:
        itype = r.choice(['64', 'safe', 'inf'])
        a, l = spell(r, 'i', itype)
        opts.append(a)
        used.append(l)
    if r.random() < .6:
        threads = r.choice([1, 2, 3, 4, 5, 8, 13, 20, 40])
        a, l = spell(r, 't', str(threads))
        opts.append(a)
        used.append(l)
    if r.random() < .4:
        a, l = spell(r, 's', r.choice(SORTS[r.choice(sorted(SORTS))]))
        opts.append(a)
        used.append(l)
    files = {infile: d.text()}
    if r.random() < .4:
        rows = r.sample(want, r.randint(1, len(want)))
        if inner:
            files[kfile] = 'Inequalities\n' + ''.join(' '.join(map(str, x)) + '\n' for x in rows)
        else:
            v, y = [x for x in rows if x[-1]], [x for x in rows if not x[-1]]
            files[kfile] = ('Vertices\n' + ''.join(' '.join(str(gen.Fraction(a, x[-1])) for a in x[:-1]) + '\n' for x in v) if v else '') + \
                           ('Rays\n' + ''.join(' '.join(map(str, x[:-1])) + '\n' for x in y) if y else '')
        a, l = spell(r, 'k', (kfile, inner))
        opts.append(a)
        used.append(l)
    checked = r.random() < .3 and (inner or not d.maps)
    if checked:
        f = r.choice(['-c', '--check', '--checked'])
        opts.append([f])
        used.append(f)
    r.shuffle(opts)
    pos = r.randint(0, len(opts))
    opts.insert(pos, [infile])
    args = [x for o in opts for x in o]
    s = Scene(c, files)
    x, n = s.run(args)
    s.close()
    if not e2e.ok(c, x, args):
        return
    if e2e.judged(c, args, x, look) is None:
        return
    if is_ad(x) != (method != 'dd') and len(want) > 0:
        report(c, args, x, 'option-method', 'the method %s was not used' % (method or 'ad (default)'))
        return
    if method != 'dd' and n is not None:
        w = threads if threads else len(os.sched_getaffinity(0))
        k = 'v' if inner else 'h'
        if n - OFFSET[k] != w:
            report(c, args, x, 'option-threads', '%d threads instead of %d' % (n - OFFSET[k], w))
            return
        c.stats['thread_counts_compared'] += 1
        c.stats['threads_%s' % (threads or 'default')] += 1
    c.stats['legal'] += 1
    c.stats['method_%s' % method] += 1
    for l in used:
        c.stats['form_' + l] += 1
    c.stats['file_%s' % ('first' if pos == 0 else 'last' if pos == len(opts) - 1 else 'inside')] += 1
    c.nontrivial('legal', args, d.text())
    c.sample = {'args': args, 'input': d.text()[:200]}


# ---------------------------------------------------------------- sort orders

def sort_key(order):
    nz = lambda row: sum(1 for x in row if x)
    return {'lex_asc': (lambda x: x, False), 'lex_desc': (lambda x: x, True), 'nz_asc': (nz, False), 'nz_desc': (nz, True)}[order]


def sorting(r, c):
    """The option is as good as sorting the file."""
    order = r.choice(sorted(SORTS))
    dim = r.randint(3, 6)
    inner = r.random() < .6
    if order.startswith('nz'):  # no two rows with the same number of entries: ties are not documented
        rows = []
        for k in (range(0, dim + 1) if inner else range(1, dim + 1)):
            p = set(r.sample(range(dim), k))
            rows.append(tuple(r.choice([-3, -2, -1, 1, 2, 3]) if i in p else 0 for i in range(dim)))
        if not inner:
            rows = [x + (-r.randint(1, 5),) for x in rows]
    elif inner:
        rows = list({tuple(r.randint(-2, 2) for _ in range(dim)) for _ in range(r.randint(dim + 1, 12))})
    else:
        rows = list({tuple(r.randint(-2, 2) for _ in range(dim)) + (-r.randint(1, 4),) for _ in range(r.randint(dim + 1, 10))} - {(0,) * dim + (-k,) for k in range(9)})
    r.shuffle(rows)
    if not inner and not all(any(x[:-1]) for x in rows):
        return
    if not inner:
        want = poly.poly_vertices(rows)
        if want is None or not judge.feasible(want):
            return
    if order == 'rev':
        srt = rows[::-1]
    else:
        key, down = sort_key(order)
        srt = sorted(rows, key=key, reverse=down)
    text = lambda q: ('Vertices\n' if inner else 'Inequalities\n') + ''.join(' '.join(map(str, x)) + '\n' for x in q)
    m = r.choice(['dd', 'dd', 'ad'])
    base = ['-m', m, '-t', '1']
    if max(abs(x) for q in rows for x in q) > 2:
        base += ['-i', '64']
    opt, label = spell(r, 's', r.choice(SORTS[order]))
    s = Scene(c, {'in': text(rows), 'sorted': text(srt)})
    args = base + ['in']
    k = r.randint(0, 1)
    args = opt + args if k else args + opt
    x, _ = s.run(args)
    y, _ = s.run(base + ['sorted'])
    z, _ = s.run(base + ['in'])
    s.close()
    for run, a in ((x, args), (y, base + ['sorted'])):
        if not e2e.ok(c, run, a):
            return
    if x.out != y.out:
        report(c, args, x, 'option-sorting', 'the output differs from that of the sorted file:\n%s\ninstead of\n%s' % (x.out[:500], y.out[:500]))
        return
    c.stats['sorted_%s' % order] += 1
    c.stats['form_' + label] += 1
    if z.out != y.out:
        c.stats['sorting_visible_%s' % order] += 1
    c.nontrivial('sort', args, rows)
    c.sample = {'args': args, 'rows': rows}


# ---------------------------------------------------------------- integer types

def scene_type(r, kind):
    """Input and result fit int (16 bits would not do), while products of entries need more than 16 / 32 / 64 bits."""
    while True:
        if kind == 'A':
            n = r.randint(33000, 10 ** 6)
            v = gen.V([(0,), (n,)])
            return v, poly.poly_facets(v.gens())
        if kind == 'B':         # polygons
            v = gen.V([(r.randint(-20000, 20000), r.randint(-20000, 20000)) for _ in range(r.randint(4, 9))])
            oracle = poly.poly_facets(v.gens())
            if wide.size(v, oracle) > INT:
                continue
            return v, oracle
        d, oracle = wide.pick(r)
        rows = d.gens() if isinstance(d, gen.V) else d.rows()
        if d.maps or d.names or not wide.fits(d, oracle) or max(abs(x) for row in rows for x in row) < 2 ** 22:
            continue
        if isinstance(d, gen.V) and not oracle[1]:
            continue
        return d, oracle


def types(r, c):
    kind = r.choice(['A', 'B', 'C', 'C'])
    t = r.choice(['16', '32', '64', 'safe', 'inf', None])
    d, oracle = scene_type(r, kind)
    look = wide.judge_exact(d, oracle)
    a, label = spell(r, 'i', t) if t else ([], 'default')
    m, _ = spell(r, 'm', r.choice(['ad', 'dd']))
    parts = [a, m, ['-t', '2'], ['in']]
    r.shuffle(parts)
    args = [x for p in parts for x in p]
    s = Scene(c, {'in': d.text()})
    x, _ = s.run(args, cpu=5, wall=30, idle=5)
    s.close()
    exact = False
    if x.rc == 0 and not x.hang:
        try:
            exact = look(x.out)
        except judge.Bad:
            pass
    must = {'16': '', '32': 'A', None: 'A', '64': 'AB', 'safe': 'AB', 'inf': 'ABC'}[t]
    name = t or 'default'
    if kind in must:
        if not exact:
            if x.hang in ('slow', 'killed'):
                c.inconclusive = x.hang
                return
            report(c, args, x, 'option-integer-type', 'integer type %s has to be sufficient for this input' % name)
            return
        c.stats['type_%s_%s_exact' % (name, kind)] += 1
    elif t == '16' and kind == 'A':
        if exact:
            report(c, args, x, 'option-integer-type', 'a result of more than 16 bits with integers of 16 bits')
            return
        c.stats['type_16_A_inexact'] += 1
    elif t == 'safe':
        if x.rc == 0 and not x.hang and not exact:
            report(c, args, x, 'option-integer-type', 'a wrong result with checked integers')
            return
        c.stats['type_safe_%s_%s' % (kind, 'exact' if exact else 'refused')] += 1
    else:
        # a wrong result is no violation; that there are some shows that the type is in use
        c.stats['type_%s_%s_%s' % (name, kind, 'exact' if exact else 'loud' if x.rc == 1 and 'overflow' in x.err else 'inexact')] += 1
    c.stats['form_' + label] += 1
    c.nontrivial('type', t, d.text())
    c.sample = {'args': args, 'kind': kind, 'exact': exact}


# ---------------------------------------------------------------- prior knowledge and check have an effect

def effects(r, c):
    d, want, look = small(r)
    inner = isinstance(d, gen.V)
    files = {'in': d.text(), 'wrong': r.choice(['nonsense\n', 'Vertices\n' if inner else 'Inequalities\n', '', ('Inequalities\n' + ' '.join(['1'] * (d.dim + 2)) + '\n') if inner else 'Vertices\n' + ' '.join(['1'] * (d.dim + 1)) + '\n'])}
    k = r.random()
    if k < .5:
        f = r.choice(['wrong', 'missing', 'sub/missing'])
        a, label = spell(r, 'k', (f, inner))
        what = 'known data that cannot be read'
    elif k < .6:
        a = [('--known-vertices=' if inner else '--known-facets=') + 'in2']
        files['in2'] = 'Inequalities\n' + ' '.join(['1'] * (d.dim + 1)) + '\n' if inner else 'Vertices\n' + ' '.join(['1'] * d.dim) + '\n'
        label, what = 'other kind', 'known data of the other kind'
    else:
        bad = list(want[0])
        if inner:
            bad[-1] += 1                # cuts off
            files['k'] = 'Inequalities\n' + ' '.join(map(str, bad)) + '\n'
        else:
            bad = [sum(x) for x in zip(*want)]
            if poly.primitive(bad) in want or not any(bad[:-1]):
                return
            files['k'] = ('Vertices\n' + ' '.join(str(gen.Fraction(x, bad[-1])) for x in bad[:-1]) + '\n') if bad[-1] else ''
        a, l = spell(r, 'k', ('k', inner))
        f = r.choice(['-c', '--check', '--checked'])
        a = r.choice([[f] + a, a + [f]])
        label, what = f, 'known data that does not pass the check'
    m, _ = spell(r, 'm', r.choice(['ad', 'dd']))
    parts = [a, m, ['in']]
    r.shuffle(parts)
    args = [x for p in parts for x in p]
    s = Scene(c, files)
    x, _ = s.run(args)
    s.close()
    refused(c, x, args, what)
    c.stats['effect_' + label] += 1
    c.nontrivial('effect', args, files)


# ---------------------------------------------------------------- illegal command lines

def refused(c, x, args, what):
    if x.hang in ('slow', 'killed'):
        c.inconclusive = x.hang
        return
    p = None
    if x.hang:
        p = ('option-hang', 'did not terminate')
    elif x.rc == 0:
        p = ('option-accepted', 'accepted')
    elif x.rc in (-11, -7, -8, -4):
        p = ('option-crash', 'ended with signal %d' % -x.rc)
    elif x.out.strip():
        p = ('option-output', 'printed rows')
    elif not [l for l in x.err.split('\n') if l.strip() and not l.startswith('PANDA')]:
        p = ('option-silent', 'refused without an explanation')
    if p:
        report(c, args, x, p[0], '%s: %s' % (what, p[1]))
    else:
        c.stats['refused'] += 1


BAD = {'m': ['', 'xx', 'd', 'ddd', 'DD', 'AD', 'a', 'double', 'double-descriptionx', 'adjacency', 'dd ', ' dd', '1'],
       'i': ['', '8', '128', '0', '-16', '63', '642', '16 ', 'Safe', 'INF', 'infinite', 'int', 'safeinf', 'saf', 'x', '6'],
       't': ['', '0', '-1', '-4', 'x', '4x', 'x4', '1.5', '1e1', '2 3', '99999999999', '-99999999999', '0x4', '--4', 'one', '2147483648'],
       's': ['', 'x', 'le', 'lexx', 'lex_', 'lex_ascx', 'lex-asc', 'LEX_ASC', 'lexicographicasc', 'lexi_asc', 'nz_', 'nz_x', 'nonzer', 'nonzerox', 'non_asc', 'reve', 'reversed', 'rev_asc', 'revx', 'ascending', 'nonzero_asce', 'lexicographic_asc_', 'n', 'r', 'l', 'nonzero_up_']}
STRANGE = ['-mdd', '-m dd', '--m', '--methods=dd', '--methode=dd', '--meth=dd', '--method', '--method:dd', '-method=dd', '-i64', '--int=64', '--integer=64', '--integertype=64', '--integer_type=64', '--integer-types=64', '--integer-type', '-t4',
           '--thread=4', '--t', '--threads', '--threads:4', '-threads=4', '-slex', '--sort=lex', '--sorted=lex', '--sorting', '-sort=lex', '-kx', '--known=in', '--known', '--knowndata=in', '--known_data=in', '--known-data', '--known-facet=in', '-known=in']


def illegal(r, c):
    d, want, look = small(r)
    k = r.random()
    extra = []
    if k < .6:
        key = r.choice('mits')
        v = r.choice(BAD[key])
        a, label = spell(r, key, v)
        if key != 'm' and key != 't' and r.random() < .5:
            extra.append(['-m', r.choice(['ad', 'dd'])])
        what = 'an illegal value'
    elif k < .85:
        a = [r.choice(STRANGE)]
        if a[0].startswith(('-m', '--m')) is False and not a[0].startswith(('-t', '--t')) and r.random() < .5:
            extra.append(['-m=' + r.choice(['ad', 'dd'])])
        label, what = 'misspelled', 'a misspelled option'
    elif k < .93:
        key = r.choice('mitsk')
        args = [x for o in r.sample([['-c'], ['-m=ad']] if key != 'm' else [['-c'], ['-t=2']], r.randint(0, 2)) for x in o] + ['in', '-' + key]
        a, label, what = None, 'no argument', 'an option without its argument'
    else:
        a, label, what = r.choice([['in2'], ['nofile'], ['in']]), 'two files', 'more than one file'
    if a is not None:
        parts = [a] + extra + [['in']]
        if r.random() < .3:
            parts.append(['-c'])
        if r.random() < .5:
            # single-letter forms with the argument attached would take the file for their argument when it follows
            r.shuffle(parts)
        args = [x for p in parts for x in p]
    s = Scene(c, {'in': d.text(), 'in2': d.text()})
    x, _ = s.run(args)
    s.close()
    refused(c, x, args, what)
    c.stats['illegal_' + label] += 1
    c.nontrivial('illegal', args)
    c.sample = {'args': args, 'verdict': what}


# ---------------------------------------------------------------- help and version

HELP = ['?', '-h', '--h', '-help', '--help']
VERSION = ['-v', '--v', '-version', '--version']
COMMANDS = {'check': ['c', '-c', 'check', '--check'], 'help': ['h', '-h', '--h', 'help', '-help', '--help', '?'], 'integer-type': ['i', '-i', 'integer-type', '--integer-type'],
            'known-data': ['k', '-k', 'known-facets', '--known-facets', 'known-vertices', '--known-vertices', 'known-data', '--known-data'],
            'method': ['m', '-m', 'method', '--method'], 'sorting': ['s', '-s', 'sorting', '--sorting'], 'threads': ['t', '-t', 'threads', '--threads'], 'version': ['v', '-v', 'version', '-version', '--version']}
MENTION = {'check': ['-c', '--check'], 'help': ['--help', '-h'], 'integer-type': ['-i', '--integer-type', 'safe', 'inf', '16', '32', '64'], 'known-data': ['-k', '--known-data', '--known-facets', '--known-vertices'],
           'method': ['-m', '--method', 'dd', 'ad'], 'sorting': ['-s', '--sorting', 'lex_asc', 'lex_desc', 'nz_asc', 'nz_desc', 'rev'], 'threads': ['-t', '--threads'], 'version': ['-v', '--version']}


def helping(r, c):
    d, want, look = small(r)
    rest = r.choice([[], ['in'], ['in', '-m', 'dd'], ['-t', '2', 'in'], ['missing']])
    k = r.random()
    rc = 0
    if k < .3:
        f = r.choice(HELP)
        args, plain = rest + [f], [f]
        if f != '-h' and r.random() < .5:
            args = [f] + rest
        words, label = ['-i', '--integer-type', '-k', '--known-data', '-m', '--method', '-s', '--sorting', '-c', '--check', '-t', '--threads'], 'help'
    elif k < .5:
        f = r.choice(VERSION)
        args, plain = r.choice([rest + [f], [f] + rest]), [f]
        words, label = ['PANDA', 'revision'], 'version'
    elif k < .85:
        cmd = r.choice(sorted(COMMANDS))
        w = r.choice(COMMANDS[cmd])
        a = r.choice([['-h', w], ['-h=' + w], ['--help=' + w], ['--help-command=' + w]])
        args, plain = r.choice([rest + a, a + rest]), ['-h', w]
        words, label = MENTION[cmd], 'command_' + cmd
    elif k < .92:
        w = r.choice(['x', 'thread', 'in', '-x', 'methods', '', 'CHECK'])
        a = r.choice([['-h=' + w], ['--help=' + w], ['--help-command=' + w]])
        args, plain, words, label, rc = a + rest, a, [], 'unknown', 1
    else:
        args, plain, words, label = [], ['--help'], ['-i', '-k', '-m', '-s', '-c', '-t'], 'none'
    s = Scene(c, {'in': d.text()})
    x, n = s.run(args)
    y, _ = s.run(plain)
    s.close()
    text = x.out + x.err
    if x.hang in ('slow', 'killed'):
        c.inconclusive = x.hang
    elif x.hang or (x.rc != 0) != bool(rc) or x.rc < 0:
        report(c, args, x, 'help-exit', 'exit code %d' % x.rc)
    elif text != y.out + y.err:
        report(c, args, x, 'help-differs', 'the text differs from that of %s' % plain)
    elif n or is_ad(x):
        report(c, args, x, 'help-computes', 'the request for help started a computation')
    elif [w for w in words if w not in text]:
        report(c, args, x, 'help-text', 'the text does not mention %s' % [w for w in words if w not in text])
    elif rc and x.out.strip():
        report(c, args, x, 'help-text', 'an unknown command is explained')
    elif not text.strip():
        report(c, args, x, 'help-text', 'no text')
    c.stats['help_' + label] += 1
    c.nontrivial('help', args)


def one(seed, c):
    r = random.Random(seed)
    k = r.random()
    (legal if k < .4 else sorting if k < .52 else types if k < .66 else effects if k < .74 else illegal if k < .88 else helping)(r, c)


def body(chk):
    global PRE
    e2e.setup(chk, 'rel')
    PRE = build.preload('countthreads')
    c = core.Case()
    s = Scene(c, {'v': 'Vertices\n0 0\n1 0\n0 1\n', 'h': 'Inequalities\n1 0 -1\n-1 0 0\n0 1 -1\n0 -1 0\n'})
    for k in 'vh':
        x, n = s.run(['-m', 'ad', '-t', '1', k])
        if n is None or x.rc:
            chk.violation('option-threads', '-t 1 does not work: %s' % x.err[-300:])
            n = 1
        OFFSET[k] = n - 1
    s.close()
    chk.run(one, chk.seeds(chk.scale(16000, 300000), 22), chunk=16, seconds=chk.scale(170, 3000))
    st = chk.stats
    # types that are too narrow must show: otherwise another type is in use
    for t, kind, what in (('32', 'B', 'inexact'), ('default', 'B', 'inexact'), ('64', 'C', 'inexact'), ('safe', 'C', 'refused')):
        seen = {k: v for k, v in st.items() if k.startswith('type_%s_%s_' % (t, kind))}
        if sum(seen.values()) >= 20 and not seen.get('type_%s_%s_%s' % (t, kind, what)):
            chk.violation('option-integer-type', 'with integer type %s none of the results that need more digits was %s: %s' % (t, what, seen))
    chk.rule = ('command lines from all documented options in all spellings, orders and positions, with file names that look like arguments; observed are the exact output, '
                'the progress messages of the method, the number of threads created, the effect of sorting compared with a sorted file, the digits an integer type can hold, '
                'and refusals of illegal values, misspellings and missing arguments; requests for help and version')


core.main('C22', body)

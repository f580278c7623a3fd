"""Running the executable on generated cases inside a check."""
import itertools, os, random
import build, drive, gen, judge, poly

TMP = None
BIN = {}
_n = itertools.count()


def setup(chk, *variants):
    """Builds the variants and fixes the scratch directory; to be called before workers are forked."""
    global TMP
    TMP = chk.tmp
    for v in variants:
        BIN[v] = build.panda(v)


def put(c, name, text):
    """Writes a scratch file, remembers it for the replay."""
    c.files[name] = text
    p = os.path.join(TMP, '%d-%d-%s' % (os.getpid(), next(_n), name))
    with open(p, 'wb') as f:
        f.write(text.encode('latin-1') if isinstance(text, str) else text)
    return p


def run(c, args, files, variant='rel', **kw):
    """files: {name: text}; '@name' in args is replaced by the path of the file."""
    paths = {n: put(c, n, t) for n, t in files.items()}
    real = []
    for a in args:
        for n, p in paths.items():
            a = a.replace('@' + n, p)
        real.append(a)
    x = drive.run(BIN[variant], real, cwd=TMP, **kw)
    for p in paths.values():
        os.unlink(p)
    c.stats['runs'] += 1
    return x


def ok(c, x, args, what=''):
    """True if the run succeeded; records a problem or marks the case inconclusive otherwise."""
    p = judge.run_problem(x)
    if p is None:
        return True
    if p == 'inconclusive':
        c.inconclusive = x.hang
        c.stats['watchdog'] += 1
    else:
        c.bad(p[0], '%s%s: %s' % (what, ' '.join(args), p[1]))
        c.files['args'] = ' '.join(args) + '\n'
        c.files['stdout'], c.files['stderr'] = x.out[-4000:], x.err[-4000:]
    return False


def judged(c, args, x, fn, *a, **kw):
    """fn(out, ...) -> result; a Bad is recorded as problem."""
    try:
        return fn(x.out, *a, **kw)
    except judge.Bad as b:
        c.bad(b.key, '%s: %s' % (' '.join(args), b.msg))
        c.files['args'] = ' '.join(args) + '\n'
        c.files['stdout'], c.files['stderr'] = x.out[-20000:], x.err[-4000:]
        return None


SORTS = ['lex_asc', 'lex_desc', 'nz_asc', 'nz_desc', 'rev', 'lexicographic_ascending', 'lexicographic_descending',
         'nonzero_ascending', 'nonzero_descending', 'reverse']


def types_for(rows):
    """Integer types whose range is certainly sufficient for input with these integer rows."""
    m = max((abs(x) for row in rows for x in row), default=0)
    d = len(rows[0])
    if m <= 8 and d <= 8:
        return ('', '', '32', '64', 'safe', 'inf')
    if m <= 80 or (m <= 10 ** 5 and d <= 3):
        return ('64', 'safe', 'inf')
    return ('inf',)


def int_args(r, types=('', '64', 'safe', 'inf')):
    t = r.choice(types)
    return ['-i', t] if t else []


def canon_rows(rows, eqs):
    """Rows modulo equations and positive scaling: reduced by the echelon form of eqs, primitive."""
    from fractions import Fraction
    E = [[Fraction(x) for x in e] for e in eqs]
    n = len(E[0]) if E else 0
    piv, ech = [], []
    for e in E:
        for p, q in zip(piv, ech):
            if e[p]:
                t = e[p]
                e = [a - t * b for a, b in zip(e, q)]
        p = next((i for i, a in enumerate(e) if a), None)
        if p is None:
            continue
        t = e[p]
        e = [a / t for a in e]
        ech = [[a - q[p] * b for a, b in zip(q, e)] for q in ech]
        piv.append(p)
        ech.append(e)
    out = set()
    for row in rows:
        row = [Fraction(x) for x in row]
        for p, q in zip(piv, ech):
            if row[p]:
                t = row[p]
                row = [a - t * b for a, b in zip(row, q)]
        from math import lcm
        d = 1
        for a in row:
            d = lcm(d, a.denominator)
        out.add(poly.primitive([int(a * d) for a in row]))
    return out

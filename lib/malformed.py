"""Inputs that are malformed by construction, and reference readers for single rows of the documented format."""
import re
from fractions import Fraction
from math import lcm
import gen

MAX = 2 ** 31 - 1
BAD_COORDINATE = ['1.5', 'x', '1e2', '1/0', '0/0', '1/;', '/;2', '1//2', '--1', '+-1', '0x1', '1,2', '#', 'nan', '1/2/3', '2147483648', '-2147483648', '99999999999999999999',
                  '1/2147483648', '-9999999999', '1/x', '1/ x', '3;', '"1"', '1_0', '.', '1:', '\xbd', '2147483647/1.5', '4294967297', '18446744073709551617', '1/4294967297']
BAD_NUMBER = [t for t in BAD_COORDINATE if not re.match(r'^[+-]?\d+$', t) and '/' not in t] + ['2147483648', '-2147483648', '4294967296', '99999999999999999999', '1/2', '1/', '1|2', '-4294967295']


class Text:
    """A file as a list of [keyword, [lines]]."""

    def __init__(self, secs):
        self.secs = secs

    @staticmethod
    def of(text):
        secs = []
        for l in text.split('\n'):
            if not l:
                continue
            if re.match(r'^(Reduced )?(Names|Maps|Vertices|Rays|Equations|Inequalities)$', l):
                secs.append([l, []])
            else:
                secs[-1][1].append(l)
        return Text(secs)

    def get(self, word):
        return next((s for s in self.secs if s[0].endswith(word)), None)

    def render(self, r=None):
        out = []
        for k, ls in self.secs:
            out.append(k)
            out += ls
        t = '\n'.join(out)
        return t + '\n' if r is None or r.random() < .8 else t


def _pick_row(r, sec):
    """A position, often at one of the ends."""
    n = len(sec[1])
    return r.choice([0, n - 1, r.randrange(n), r.randrange(n)])


def malform_rows(r, sec, named, coordinates, names, equation=False):
    """Damages one row of a section; returns the label."""
    i = _pick_row(r, sec)
    w = sec[1][i].split(' ')
    if named:
        op = '=' if equation else r.choice(['<=', '>='])
        x = r.choice(names)
        other = [n for n in names if n != x]
        kinds = {
            'unknown_name': lambda: [r.choice(['', '+', '-', '2', '-3']) + r.choice(['unknown', x + 'q', 'Q' + x, x + '.', x + x + x, x.swapcase() + '_'])] + w,
            'no_relation': lambda: [t for t in w if t not in ('<=', '>=', '=')],
            'no_rhs': lambda: w[:-1],
            'no_rhs_no_relation': lambda: w[:-2],
            'rhs_split': lambda: w[:-1] + ['\n' + w[-1]] if r.random() < .5 else w[:-2] + ['\n' + w[-2]] + w[-1:],
            'two_rhs': lambda: w + [r.choice(['0', '1', '-2'])],
            'variable_right': lambda: w[:-1] + r.choice([[x, w[-1]], [w[-1], '+' + x], [w[-1], '+', x], [x], ['-' + x], ['2' + x, '+1']]),
            'constant_left': lambda: r.choice([[r.choice(['1', '-2', '3'])] + w, w[:-2] + ['+1'] + w[-2:], w[:-2] + ['+', '2'] + w[-2:]]),
            'two_relations': lambda: w[:-1] + [op, w[-1]] if r.random() < .5 else w + [op, '1'],
            'wrong_relation': lambda: w[:-2] + [r.choice(['<', '>', '=<', '=>', '!=', '<>', '~', ':=', '<=>'] + (['<=', '>='] if equation else ['=', '==']))] + w[-1:],
            'bad_rhs': lambda: w[:-1] + [r.choice(BAD_NUMBER)],
            'trailing': lambda: w + [r.choice(['x!', ';', '#comment', '//', '1/2', '"', '?'])],
            'dangling_sign': lambda: w[:-2] + [r.choice(['+', '-'])] + w[-2:],
            'sign_at_end': lambda: w[:-2] + [r.choice(['+', '-'])],
            'two_signs': lambda: [r.choice(['--', '+-', '-+', '++'])+ x] + [t for t in w if x not in t or t in ('<=', '>=', '=')],
            'bad_coefficient': lambda: [r.choice(['1.5', '1/2', '2*', '1e3', '2147483648', '-2147483648', '99999999999999999999', '4294967297', '0x2', '1,', '3-', '1+1']) + x] + [t for t in w if not t.endswith(x) or t in ('<=', '>=', '=')],
            'repeated_variable': lambda: ['2' + x, '+' + x] + [t for t in w if not t.endswith(x)],
            'identifier_open': lambda: ['(' + r.choice(['1', 'a b', ''])] + [t for t in w if ')' not in t],
        }
    else:
        bad = BAD_COORDINATE if coordinates else BAD_NUMBER
        j = r.randrange(len(w))
        kinds = {
            'row_too_long': lambda: w[:j] + [r.choice(['0', '1', '-2'])] + w[j:],
            'bad_token': lambda: w[:j] + [r.choice(bad)] + w[j + 1:],
            'bad_token_appended': lambda: w + [r.choice(['x', '#', ';', '//', '1/0', '%', '"', '=1', '<', '\\'])],
            'identifier_open': lambda: ['(' + r.choice(['1', 'a', ''])] + w,
            'identifier_late': lambda: w[:j + 1] + ['(1)'] + w[j + 1:],
            'row_doubled': lambda: w + w,
        }
        if coordinates:
            kinds['fraction_split'] = lambda: w[:-1] + [w[-1].split('/')[0] + r.choice(['/\n', '\n/', '/ \n']) + r.choice(['1', '2', '3'])]
        if len(w) > 1:
            kinds['row_too_short'] = lambda: w[:j] + w[j + 1:]
            kinds['row_split'] = lambda: [' '.join(w[:max(j, 1)]) + '\n' + ' '.join(w[max(j, 1):])]
            kinds['sign_alone'] = lambda: w[:j] + [r.choice(['+', '-'])] + w[j + 1:]
        if not coordinates:
            op = '=' if equation else r.choice(['<=', '>='])
            kinds.update({
                'no_rhs': lambda: w[:-1] + [op],
                'rhs_split': lambda: w[:-1] + [op + '\n' + w[-1]],
                'two_rhs': lambda: w[:-1] + [op, w[-1], '1'],
                'two_rhs_same_width': lambda: w[:-2] + [op] + w[-2:],
                'two_relations': lambda: w[:-1] + [op, op] + w[-1:],
                'two_relations_apart': lambda: w[:-2] + [op] + w[-2:-1] + [op] + w[-1:],
                'wrong_relation': lambda: w[:-1] + [r.choice(['<', '>', '=<', '=>', '!=', '<>'] + (['<=', '>='] if equation else ['=', '==']))] + w[-1:],
                'too_long_with_relation': lambda: ['1'] + w[:-1] + [op] + w[-1:],
            })
    label = r.choice(sorted(kinds))
    if label in ('variable_right',) and not other:
        label = 'two_rhs'
    sec[1][i] = ' '.join(kinds[label]())
    return label


def malform_map(r, sec, names):
    i = _pick_row(r, sec)
    w = sec[1][i].split(' ')
    j = r.randrange(len(w))
    kinds = {
        'map_too_long': lambda: w + [r.choice(names)],
        'map_unknown_name': lambda: w[:j] + [r.choice(['unknown', '-unknown', 'Q' + names[0], names[0] + '+unknown', '2' + 'unknown'])] + w[j + 1:],
        'map_sign': lambda: w[:j] + [r.choice(['+', '-', w[j] + '+', w[j] + '-', names[0] + '++' + names[-1], '--' + names[0], '-+' + names[0]])] + w[j + 1:],
        'map_bad_number': lambda: w[:j] + [r.choice(['1.5' + names[0], '99999999999' + names[0], '1/2', '2147483648', '2*' + names[0], '#', '4294967297'])] + w[j + 1:],
        'map_doubled': lambda: w + w,
    }
    if len(w) > 1:
        kinds['map_too_short'] = lambda: w[:j] + w[j + 1:]
    label = r.choice(sorted(kinds))
    sec[1][i] = ' '.join(kinds[label]())
    return label


# ---------------------------------------------------------------- reference readers of single rows

def _int(t):
    return int(t) if re.match(r'^[+-]?\d+$', t) else None


def read_coordinates(line, _names=None):
    """('ok', row of Fractions) / ('bad',) / ('grey',)"""
    s = line.strip(' \t\r')
    if not s or '(' in s:
        return ('grey',)
    if re.search(r'\d[+-]', s):
        return ('grey',)
    out, pos = [], 0
    pat = re.compile(r'([+-]?\d+)(?:[ \t]*/[ \t]*([+-]?\d+))?(?=[ \t]|$)[ \t]*')
    while pos < len(s):
        m = pat.match(s, pos)
        if not m:
            return ('bad',)
        p, q = int(m.group(1)), int(m.group(2) or 1)
        if not -MAX - 1 <= p <= MAX or not -MAX - 1 <= q <= MAX or q == 0:
            return ('bad',)
        out.append((p, q))
        pos = m.end()
    l = 1
    for _, q in out:
        l = lcm(l, abs(q))
    if l > MAX or any(abs(p * (l // q)) > MAX for p, q in out):
        return ('bad',)
    return ('ok', [Fraction(p, q) for p, q in out])


def read_numeric(line, equation=False):
    s = line.strip(' \t\r')
    if not s or '(' in s or re.search(r'\d[+-]', s):
        return ('grey',)
    m = re.match(r'^([^<>=]*)(<=|>=|==|=)?([^<>=]*)$', s)
    if not m:
        return ('bad',)
    lhs, op, rhs = m.groups()
    if op:
        if rhs and rhs[0] not in ' \t' and op in ('=',):
            return ('bad',)
        if (op in ('=', '==')) != equation:
            return ('bad',)
    a, b = lhs.split(), rhs.split()
    if op and len(b) != 1 or not op and b:
        return ('bad',)
    v = [_int(t) for t in a + b]
    if any(x is None or abs(x) > MAX for x in v):
        return ('bad',)
    if op:
        v[-1] = -v[-1]
    if op == '>=':
        v = [-x for x in v]
    return ('ok', v)


def read_named(line, names, equation=False):
    """Only for names made of letters; grey wherever the documentation leaves something open."""
    s = line.strip(' \t\r')
    if not s or '(' in s:
        return ('grey',)
    if not any(n in s for n in names):
        return read_numeric(line, equation)
    row = [None] * len(names)
    op = rhs = None
    sign = 0
    for t in s.split():
        if t in ('<=', '>=', '=', '=='):
            if op or sign:
                return ('bad',)
            if (t in ('=', '==')) != equation:
                return ('bad',)
            op = t
            continue
        if re.search(r'[<>=]', t):
            return ('grey',) if re.search(r'^[^<>=]*(<=|>=|==|=)[^<>=]*$', t) else ('bad',)
        if t in ('+', '-'):
            if sign:
                return ('bad',)
            if op:
                return ('grey',)
            sign = -1 if t == '-' else 1
            continue
        m = re.match(r'^([+-]?)(\d*)([^\d+-].*)?$', t)
        if not m or not (m.group(2) or m.group(3)):
            return ('bad',)
        if sign and m.group(1):
            return ('grey',)
        c = int(m.group(2) or 1)
        if c > MAX:
            return ('bad',)
        c *= (-1 if m.group(1) == '-' else 1) * (sign or 1)
        sign = 0
        if m.group(3):
            if op or m.group(3) not in names:
                return ('bad',)
            k = names.index(m.group(3))
            if row[k] is not None:
                return ('grey',) if row[k] == 0 else ('bad',)
            row[k] = c
        else:
            if not op or rhs is not None:
                return ('bad',)
            rhs = c
    if rhs is None or sign:
        return ('bad',)
    v = [x or 0 for x in row] + [-rhs]
    if op == '>=':
        v = [-x for x in v]
    return ('ok', v)


ALPHABET = '0123456789012 -+/ .xyze,<=> \t1;'


def edit(r, s, n=None):
    """Random character edits."""
    s = list(s)
    for _ in range(n or r.choice([1, 1, 1, 2, 3])):
        k = r.random()
        i = r.randrange(len(s) + 1)
        if k < .35 or not s:
            s.insert(i, r.choice(ALPHABET))
        elif k < .6:
            del s[min(i, len(s) - 1)]
        elif k < .85:
            s[min(i, len(s) - 1)] = r.choice(ALPHABET)
        else:
            j = r.randrange(len(s))
            i = min(i, len(s) - 1)
            s[i], s[j] = s[j], s[i]
    return ''.join(s)

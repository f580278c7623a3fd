"""Equivalent ways to write constraints, points and numbers, as documented."""
from fractions import Fraction
from math import gcd
import gen


def scaled(r, row, big=3):
    t = r.choice([1, 1, 1] + list(range(2, big + 1)))
    return tuple(t * x for x in row)


def num(r, x):
    return ('+%d' % x) if x > 0 and r.random() < .1 else str(x)


def fraction(r, x):
    """A rational number, not necessarily in lowest terms."""
    x = Fraction(x)
    t = r.choice([1, 1, 1, 2, 3])
    p, q = x.numerator * t, x.denominator * t
    if q == 1 and r.random() < .8:
        return str(p)
    if r.random() < .1:
        p, q = -p, -q
    return '%d%s/%s%d' % (p, r.choice(['', '', ' ']), r.choice(['', '', ' ']), q)


def gap(r, fancy):
    return r.choice([' ', ' ', '  ', '\t', ' \t ']) if fancy else ' '


def term(r, c, n, first, fancy):
    """One summand; the coefficient directly precedes the name."""
    if abs(c) == 1 and not (fancy and r.random() < .2):
        num_ = ''
    else:
        num_ = str(abs(c))
    sign = '-' if c < 0 else ('+' if not first or (fancy and r.random() < .2) else '')
    if sign and fancy and r.random() < .2:
        sign += gap(r, True)
    return sign + num_ + n


def named(r, row, names, op='<=', fancy=True):
    """row.(x, 1) op 0 in terms of names; with fancy: reordered, zero terms, the other operator, detached signs."""
    coeff = [(c, n) for c, n in zip(row[:-1], names) if c]
    const = -row[-1]
    if fancy:
        rest = [n for c, n in zip(row[:-1], names) if not c]
        if rest and r.random() < .15:
            coeff.append((0, r.choice(rest)))
        r.shuffle(coeff)
        if op != '=' and r.random() < .35:
            coeff = [(-c, n) for c, n in coeff]
            const = -const
            op = {'<=': '>=', '>=': '<='}[op]
        elif op == '=' and r.random() < .5:
            coeff = [(-c, n) for c, n in coeff]
            const = -const
    if op == '=' and fancy and r.random() < .2:
        op = '=='
    lhs = gap(r, fancy).join(term(r, c, n, i == 0, fancy) for i, (c, n) in enumerate(coeff)) or '0' + names[0]
    return lhs + gap(r, fancy) + op + gap(r, fancy) + num(r, const)


def unnamed(r, row, fancy=True, op='<='):
    """Plain coefficients with negated right hand side, or with an operator."""
    row = tuple(row)
    if fancy and r.random() < .3:
        if r.random() < .4:
            row = tuple(-x for x in row)
            op = {'<=': '>=', '>=': '<=', '=': '='}[op]
        return gap(r, True).join([num(r, x) for x in row[:-1]] + [op if op != '=' or r.random() < .8 else '=='] + [num(r, -row[-1])])
    return gap(r, fancy).join(num(r, x) if fancy else str(x) for x in row)

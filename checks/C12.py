#!/usr/bin/env python3
"""-i inf on data of every magnitude: exact whenever the result fits int, loud otherwise."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import random
import build, core, e2e, gen, harn, judge, wide


def one(seed, c):
    r = random.Random(seed)
    d, oracle, files, known = wide.case(r)
    look = wide.judge_exact(d, oracle)
    fits = wide.fits(d, oracle)
    for m in ('dd', 'ad'):
        args = ['-m', m, '-i', 'inf', '-t', str(r.choice([1, 2, 4]))] + known + ['@in']
        x = e2e.run(c, args, files, cpu=90)
        if x.hang:
            e2e.ok(c, x, args)
            return
        if x.rc != 0:
            if x.rc not in (1, -6, 134):
                c.bad('exit-%d' % x.rc, '%s: %s' % (' '.join(args), x.err[-400:]))
            elif fits:
                c.bad('failed-although-fitting', '%s: exit code %d although all numbers fit: %s' % (' '.join(args), x.rc, x.err[-300:]))
                c.files['args'], c.files['stderr'] = ' '.join(args), x.err[-3000:]
            elif not x.err.strip():
                c.bad('silent-failure', '%s: no explanation' % ' '.join(args))
            else:
                e2e.judged(c, args, x, wide.partial, d, oracle)
            if c.problems:
                return
            c.stats['loud_failures'] += 1
            continue
        if fits is False:
            c.bad('unprintable-printed', '%s: the result does not fit int but the run succeeded' % ' '.join(args))
            c.files['args'], c.files['stdout'] = ' '.join(args), x.out[-3000:]
            return
        if e2e.judged(c, args, x, look) is None:
            return
        c.stats['exact_results'] += 1
        if wide.size(d, oracle) > 2 ** 15:
            c.stats['exact_results_with_large_output'] += 1
    big = max(abs(x) for row in (d.gens() if isinstance(d, gen.V) else d.rows()) for x in row)
    c.stats['magnitude_2^%02d' % (big.bit_length() // 4 * 4)] += 1
    c.stats['result_fits' if fits else 'result_depends' if fits is None else 'result_does_not_fit'] += 1
    c.stats['with_maps'] += bool(d.maps)
    c.stats['with_known_data'] += bool(known)
    c.stats['with_reduced_input'] += 'Reduced' in files['in']
    if big > 8:
        c.nontrivial(seed)
        c.sample = {'input': files['in'][:300], 'kind': d.kind, 'fits': str(fits)}


def body(chk):
    e2e.setup(chk, 'rel')
    # operands that hardly appear as intermediate values of a run: the operations themselves against GMP
    b = build.harness('big', 'rel', libs=['-lgmpxx', '-lgmp'], only=['big_integer', 'big_integer_arithmetics', 'big_integer_comparisons', 'big_integer_constructors', 'algorithm_integer_operations'])
    harn.run(chk, [(b, (s, chk.scale(4000, 200000), 1 + i % 6), {}) for i, s in enumerate(chk.seeds(8, 1215))])
    chk.run(one, chk.seeds(chk.scale(6000, 200000), 12), chunk=16, seconds=chk.scale(120, 3000))
    chk.rule = ('inner and outer descriptions with coefficients log-uniform up to the limits of int, their duals (large input, small result), structured and symmetric ones, a part with reduced input or known data; '
                'the result has to be exact if it fits int and the failure loud otherwise; complete lines printed before a failure have to be right; before, the operations on hostile operands are compared with GMP; non-trivial: coefficients above 8')


core.main('C12', body)

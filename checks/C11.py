#!/usr/bin/env python3
"""-i safe on data of every magnitude: exact or a loud failure, never a wrong result."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import random
import build, core, e2e, gen, harn, judge, wide


def one(seed, c):
    r = random.Random(seed)
    d, oracle, files, known = wide.case(r)
    look = wide.judge_exact(d, oracle)
    big = max(abs(x) for row in (d.gens() if isinstance(d, gen.V) else d.rows()) for x in row)
    big = max([big] + [abs(t) for mp in d.maps or [] for im in mp for t in im.values()])
    for m in ('dd', 'ad'):
        args = ['-m', m, '-i', 'safe', '-t', str(r.choice([1, 2, 4]))] + known + ['@in']
        variant = 'ubsan' if r.random() < .2 else 'rel'
        x = e2e.run(c, args, files, variant=variant, cpu=60)
        if 'runtime error' in x.err:
            c.bad('undefined-behaviour', '%s: %s' % (' '.join(args), x.err[x.err.index('runtime error'):][:400]))
            return
        if x.hang:
            e2e.ok(c, x, args)
            return
        if x.rc != 0:
            if x.rc not in (1, -6, 134):
                c.bad('exit-%d' % x.rc, '%s: %s' % (' '.join(args), x.err[-400:]))
                c.files['args'] = ' '.join(args)
                return
            c.stats['loud_failures'] += 1
            # documented: results printed before the failure may be trusted
            if e2e.judged(c, args, x, wide.partial, d, oracle) is None:
                return
            if big <= 8 and wide.size(d, oracle) <= 1000 and d.dim <= 4:
                c.bad('failed-on-small-data', '%s: %s' % (' '.join(args), x.err[-400:]))
                return
            continue
        if e2e.judged(c, args, x, look) is None:
            return
        c.stats['exact_results'] += 1
        if big > 2 ** 15:
            c.stats['exact_results_with_large_input'] += 1
        if wide.size(d, oracle) > 2 ** 15:
            c.stats['exact_results_with_large_output'] += 1
    c.stats['magnitude_2^%02d' % (big.bit_length() // 4 * 4)] += 1
    c.stats['inner' if isinstance(d, gen.V) else 'outer'] += 1
    c.stats['with_maps'] += bool(d.maps)
    c.stats['with_known_data'] += bool(known)
    c.stats['with_reduced_input'] += 'Reduced' in files['in']
    if big > 8:
        c.nontrivial(seed)
        c.sample = {'input': files['in'][:300], 'kind': d.kind}


def body(chk):
    e2e.setup(chk, 'rel', 'ubsan')
    # operands that hardly appear as intermediate values of a run: the operations themselves against 128 bit arithmetic
    b = build.harness('safe', 'rel', only=['algorithm_integer_operations', 'safe_integer', 'safe_integer_arithmetics', 'safe_integer_comparisons', 'safe_integer_constructors'], flags=['-O2'])
    harn.run(chk, [(b, (s, chk.scale(40000, 2000000)), {}) for s in chk.seeds(8, 1114)])
    chk.run(one, chk.seeds(chk.scale(16000, 300000), 11), chunk=16, seconds=chk.scale(120, 3000))
    chk.rule = ('inner and outer descriptions with coefficients log-uniform up to the limits of int, their duals (large input, small result), structured and symmetric ones, a part with reduced input or known data; '
                'every successful run is compared with the exact result, a part runs with signed overflow trapped; before, the operations on operands at the limits are compared with 128 bit arithmetic; non-trivial: coefficients above 8')


core.main('C11', body)

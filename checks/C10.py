import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import random, re
import build, core, e2e, gen, judge, mutate

ENV = {'ASAN_OPTIONS': 'detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:hard_rss_limit_mb=3000:exitcode=77:allocator_may_return_null=0',
       'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=78'}
REPORTS = ['AddressSanitizer', 'LeakSanitizer', 'runtime error:', 'Assertion `', 'UndefinedBehaviorSanitizer', '__glibcxx_assert', 'Assertion \'']


def report(x):
    """(key, excerpt) when the run shows a defect."""
    for s in REPORTS:
        p = x.err.find(s)
        if p >= 0:
            if 'hard rss limit' in x.err or 'out-of-memory' in x.err:
                return None
            line = x.err[x.err.rfind('\n', 0, p) + 1:][:800]
            what = re.sub(r'[^A-Za-z]+', '-', s).strip('-')
            return 'sanitizer-' + what, line
    if x.rc in (-11, -7, -8, -4):
        return 'signal%d' % x.rc, x.err[-500:]
    if x.rc == -6 and 'terminate called after throwing' not in x.err:
        return 'abort', x.err[-500:]
    return None


def tiny(r):
    """The smallest and most degenerate inputs: a few rows of zeros and ones in dimension 1 to 3, of any kinds, with and without maps."""
    n = r.choice([1, 1, 2, 2, 3])
    names = ['x', 'y', 'z'][:n]
    zeros = r.random() < .5
    val = lambda: 0 if zeros and r.random() < .85 else r.choice([-1, 0, 0, 1, 2])
    rows = lambda w: ''.join(' '.join(str(val()) for _ in range(w)) + '\n' for _ in range(r.choice([1, 1, 2, 3])))
    secs = []
    if r.random() < .55:
        k = r.choice(['v', 'r', 'r', 'vr'])
        if 'v' in k:
            secs.append('Vertices\n' + rows(n))
        if 'r' in k:
            secs.append('Rays\n' + rows(n))
    else:
        k = r.choice(['i', 'i', 'ei', 'e'])
        if 'e' in k:
            secs.append('Equations\n' + rows(n + 1))
        if 'i' in k:
            secs.append('Inequalities\n' + rows(n + 1))
    r.shuffle(secs)
    if r.random() < .5:
        secs.insert(0, 'Maps\n' + ''.join(' '.join(r.choice([names[i], names[-1 - i], names[0], '-' + names[i], '0']) if r.random() < .3 else names[-1 - i] for i in range(n)) + '\n'
                                          for _ in range(r.choice([1, 1, 2]))))
        secs.insert(0, 'Names\n' + ' '.join(names) + '\n')
    elif r.random() < .3:
        secs.insert(0, 'Names\n' + ' '.join(names) + '\n')
    return ''.join(secs)


def one(item, c):
    kind, seed = item
    r = random.Random(seed)
    t = mutate.seeds(r)
    k = mutate.seeds(r)
    mutated = r.random() < .9 and kind != 'tiny'
    if kind == 'tiny':
        t = tiny(r)
        if r.random() < .5:
            k = tiny(r)
        c.stats['tiny_inputs'] += 1
    # maps of rows which are all zero are no doubt correct
    doubtful = mutated or kind == 'tiny' and re.search('[12]|\n.*0.*\n(?s:.*)(Vert|Ray|Ineq|Equ)', t)
    if mutated:
        t = mutate.mutate(r, t)
    if r.random() < .5:
        k = mutate.mutate(r, k)
    maps = 'map' in t.lower()
    args = mutate.command_line(r)
    known = any('known' in a or a.startswith('-k') for a in args)
    files = {'in': t, 'known': k}
    real = [a.replace('@missing', '/nonexistent/file').replace('@dir', '/') for a in args]
    if kind == 'vg':
        if 'map' in t.lower() and r.random() < .8:
            maps = True
        x = e2e.run(c, ['-q', '--error-exitcode=79', '--leak-check=full', '--errors-for-leak-kinds=definite', '--num-callers=12', e2e.BIN['rel']] + real, files, 'valgrind',
                    cpu=60, wall=150, idle=20)
        bad = ('memcheck', x.err[-1500:]) if x.rc == 79 else None
        if bad is None and x.rc in (-11, -7, -8, -4):
            bad = ('signal%d' % x.rc, x.err[-500:])
    else:
        x = e2e.run(c, real, files, 'asan', env=ENV, cpu=12, wall=100, idle=15)
        bad = report(x)
    c.files['args'] = ' '.join(args)
    if x.hang in ('cpu', 'slow', 'killed', 'output'):
        # maps which are no bijections may never end, as documented, and known data which are wrong may mislead the rotation
        if x.hang == 'cpu' and not maps and not known and not re.search(r'\d{4}', t):
            c.bad('hang-cpu', 'no end within the limit: %s' % ' '.join(args))
        c.inconclusive = x.hang
        c.stats['limit_' + x.hang] += 1
        if c.problems:
            c.inconclusive = None
        return
    if x.hang == 'deadlock':
        c.bad('hang-deadlock', 'all threads asleep: %s' % ' '.join(args))
        return
    if bad:
        if (doubtful and maps or known) and bad[0].startswith('sanitizer-Assertion') and 'PANDA --' in x.err:
            # rows that are no facets, because the maps are no bijections or the known data are wrong: documented to lead to garbage
            c.stats['assertion_with_wrong_maps_or_known_data_skipped'] += 1
            return
        fixed = not any(a in ('safe', 'inf') or a.endswith(('=safe', '=inf')) for a in args)
        if fixed and re.search(r'\d{3}', t + k) or fixed and any('16' in a for a in args):
            # a consequence of an overflow of an unchecked type is not covered
            c.stats['unchecked_type_skipped'] += 1
            return
        c.bad(bad[0], '%s: %s' % (' '.join(args), bad[1]))
        c.files['stderr'] = x.err[-20000:]
        return
    c.stats['exit_0' if x.rc == 0 else 'exit_nonzero'] += 1
    c.stats['mode_' + kind] += 1
    m = re.search(r'(?:Exception caught: |what\(\):\s+)([A-Za-z ]{0,30})', x.err)
    if m:
        c.stats['error: ' + m.group(1).strip()] += 1
    c.nontrivial(t, k if '@known' in ' '.join(args) else '', args)
    c.sample = {'args': ' '.join(args), 'input': t[:400], 'exit': x.rc}


def body(chk):
    e2e.setup(chk, 'asan', 'rel')
    e2e.BIN['valgrind'] = '/usr/bin/valgrind'
    chk.run(one, [('vg', s) for s in chk.seeds(chk.scale(200, 6000), 110)], chunk=2, seconds=chk.scale(60, 1500))
    chk.run(one, [('tiny', s) for s in chk.seeds(chk.scale(1500, 40000), 1010)], chunk=16)
    chk.run(one, [('asan', s) for s in chk.seeds(chk.scale(6000, 300000), 10)], chunk=16, seconds=chk.scale(120, 3000))
    chk.rule = ('well-formed files of all kinds and their mutations (tokens, lines, bytes, splices, truncations, line endings), mutated known data files and arbitrary command '
                'lines, run under AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, assertions and partly valgrind memcheck; non-trivial: the run ended by itself')


core.main('C10', body)

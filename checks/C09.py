import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import random, re
import build, core, e2e, gen, judge, poly, sym

SO = None
OPTS = 'halt_on_error=0:exitcode=66:detect_deadlocks=1:second_deadlock_stack=1:history_size=4:die_after_fork=0'


def known_text(r, d):
    """Some true rows as known data; '' if there are none."""
    if isinstance(d, gen.V):
        _, f, _ = poly.poly_facets(d.gens())
        if not f:
            return ''
        f = r.sample(f, r.randint(1, len(f)))
        g = (lambda x: gen.named_text(x, d.names)) if d.names and all(any(x[:-1]) for x in f) else (lambda x: ' '.join(map(str, x)))
        return 'Inequalities\n' + ''.join(g(x) + '\n' for x in f)
    w = sorted(poly.poly_vertices(d.rows()))
    w = r.sample(w, r.randint(1, len(w)))
    vs = [x for x in w if x[-1]]
    rs = [x for x in w if not x[-1]]
    t = ''
    if vs:
        t += 'Vertices\n' + ''.join(' '.join('%d/%d' % (y, x[-1]) for y in x[:-1]) + '\n' for x in vs)
    if rs:
        t += 'Rays\n' + ''.join(' '.join(map(str, x[:-1])) + '\n' for x in rs)
    return t


def pick(r):
    k = r.random()
    if k < .35:
        return gen.rnd_v(r, budget=24)
    if k < .6:
        return sym.symmetric_v(r)
    if k < .7:
        return r.choice([lambda: gen.cube(r.randint(3, 5)), lambda: gen.cross(r.randint(3, 6)), lambda: gen.cut(4), lambda: gen.rnd_01(r, 5, 14),
                         lambda: gen.V([(1, 2)]), lambda: sym.cut(5), lambda: gen.cut(5)])()
    while True:
        h = sym.symmetric_h(r) if r.random() < .5 else gen.rnd_h(r)
        want = poly.poly_vertices(h.rows())
        if want is not None and judge.feasible(want):
            return h


def one(item, c):
    seed, n = item
    r = random.Random(seed)
    d = pick(r)
    if getattr(d, 'maps', None) and not d.names:
        d.names = gen.names_for(r, d.dim)
    files = {'in': d.text()}
    for _ in range(n):
        args = (['-m', 'dd'] if r.random() < .05 else []) + ['-t', str(r.choice([2, 3, 4, 8, 8, 16]))]
        args += e2e.int_args(r, ('', '64', 'safe', 'inf'))
        if r.random() < .25:
            args += ['-s', r.choice(e2e.SORTS)]
        fs = dict(files)
        if r.random() < .4:
            t = known_text(r, d)
            if t:
                fs['known'] = t
                args += ['-k', '@known']
                c.stats['with_known_data'] += 1
        args += ['@in']
        log = os.path.join(e2e.TMP, 'log-%d' % os.getpid())
        if os.path.exists(log):
            os.unlink(log)
        env = {'TSAN_OPTIONS': OPTS}
        if r.random() < .8:
            env.update({'LD_PRELOAD': SO, 'PERTURB_SEED': str(r.randrange(10 ** 9)), 'PERTURB_LOG': log})
            c.files['environment'] = 'PERTURB_SEED=%s LD_PRELOAD=perturb.so\n' % env['PERTURB_SEED']
        x = e2e.run(c, args, fs, 'tsan', env=env, cpu=200, wall=300, idle=15)
        m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]*)', x.err)
        if m:
            w = re.findall(r'#\d+ (\S+?)[(<]', x.err)
            c.bad('tsan-' + m.group(1).strip().replace(' ', '-'), x.err[x.err.index('WARNING'):][:1500])
            c.files['args'], c.files['stderr'] = ' '.join(args), x.err[-20000:]
            return
        if not e2e.ok(c, x, args):
            if c.problems and x.rc in (1, 134, -6) and 'overflow' in x.err.lower():
                c.problems = []     # the range of the integer type was left: nothing to do with races
                c.stats['range_left'] += 1
                continue
            return
        c.stats['executions'] += 1
        if 'LD_PRELOAD' in env:
            with open(log) as f:
                h, ev, th, cont, waits, spur = f.read().split()
            os.unlink(log)
            c.stats['events'] += int(ev)
            c.stats['contended_locks'] += int(cont)
            c.stats['condition_waits'] += int(waits)
            c.hashes = getattr(c, 'hashes', []) + [h]
    c.nontrivial(seed)
    c.sample = {'input': files['in'][:300], 'args': args}


def body(chk):
    global SO
    e2e.setup(chk, 'tsan')
    SO = build.preload('perturb')
    seen = set()
    absorb = chk.absorb

    def take(c):
        seen.update(getattr(c, 'hashes', []))
        absorb(c)
    chk.absorb = take
    chk.run(one, [(s, chk.scale(3, 8)) for s in chk.seeds(chk.scale(900, 20000), 9)], chunk=4, seconds=chk.scale(120, 3000))
    chk.extra['distinct_schedules'] = len(seen)
    chk.rule = ('the program instrumented by ThreadSanitizer (happens-before races and lock order inversions) on all kinds of input with 2 to 16 threads, with and '
                'without maps, known data and sorting, under seeded schedule perturbation; any report is a violation')


core.main('C09', body)

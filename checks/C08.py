import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import random, re
import build, core, e2e, gen, judge, poly, sym

SO = None


def trace(err, rows):
    """The progress trace, if there is one: every printed row is started once and completed once."""
    started, done = {}, {}
    for line in err.split('\n'):
        for what, seen in ((r'^Processing #(\d+) of', started), (r'^Done processing #(\d+)', done)):
            m = re.match(what, line)
            if m:
                k = int(m.group(1))
                seen[k] = seen.get(k, 0) + 1
    if not started and not done:
        return
    for name, seen in (('started', started), ('completed', done)):
        if any(n > 1 for n in seen.values()):
            raise judge.Bad('trace-%s-twice' % name, 'class #%d is %s more than once' % (next(k for k, n in seen.items() if n > 1), name))
        if len(seen) != rows:
            raise judge.Bad('trace-not-%s' % name, '%d rows printed but %d %s' % (rows, len(seen), name))


def pick(r):
    """(description, judge function, size)"""
    k = r.random()
    if k < .35:
        v = gen.rnd_v(r, budget=24)
    elif k < .6:
        v = sym.symmetric_v(r)
    elif k < .75:
        v = r.choice([lambda: gen.cube(r.randint(3, 5)), lambda: gen.cross(r.randint(3, 6)), lambda: gen.cut(4), lambda: gen.rnd_01(r, 5, 14),
                      lambda: gen.hypersimplex(5, 2), lambda: gen.simplex(r.randint(2, 9)), lambda: gen.V([(1, 2)])])()
    else:
        while True:
            h = sym.symmetric_h(r) if r.random() < .5 else gen.rnd_h(r)
            want = poly.poly_vertices(h.rows())
            if want is not None and judge.feasible(want):
                return h, lambda out: len(judge.vertices(out, h, want))
    oracle = poly.poly_facets(v.gens())
    perms = gen.perms_of(v) if v.maps else None
    return v, lambda out: len(judge.facets(out, v, oracle, perms=perms)[1])


def watched(c, r, d, look):
    """A window of a few instructions is no target for delays: unsynchronised accesses to the pool are reported by the race detector."""
    args = ['-i', '64', '-t', str(r.choice([2, 3, 4, 8])), '@in']
    env = {'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:history_size=4:die_after_fork=0', 'LD_PRELOAD': SO, 'PERTURB_SEED': str(r.randrange(10 ** 9))}
    x = e2e.run(c, args, {'in': d.text()}, 'tsan', env=env, cpu=200, wall=300, idle=15)
    for t in x.err.split('==================')[1::2]:
        if 'data race' in t and re.search(r'panda::(List|JobManager)<', t):
            c.bad('pool-unsynchronised', t.strip()[:1500])
            c.files['args'], c.files['stderr'] = ' '.join(args), x.err[-20000:]
            return
    if x.rc == 66:
        return    # other reports are the matter of C09
    if e2e.ok(c, x, args) and e2e.judged(c, args, x, look) is not None:
        c.stats['watched_executions'] += 1


def one(item, c):
    seed, nsched = item
    r = random.Random(seed)
    d, look = pick(r)
    if nsched < 0:
        watched(c, r, d, look)
        return
    for k in range(nsched):
        args = ['-i', 'inf'] if r.random() < .1 else ['-i', '64']
        args += ['-t', str(r.choice([1, 2, 2, 3, 4, 8, 16, 32]))] + ['@in']
        log = os.path.join(e2e.TMP, 'log-%d' % os.getpid())
        if os.path.exists(log):
            os.unlink(log)
        env = {'LD_PRELOAD': SO, 'PERTURB_SEED': str(r.randrange(10 ** 9)), 'PERTURB_LOG': log}
        x = e2e.run(c, args, {'in': d.text()}, env=env, cpu=60, wall=150, idle=12)
        c.files['environment'] = 'PERTURB_SEED=%s LD_PRELOAD=perturb.so\n' % env['PERTURB_SEED']
        if not e2e.ok(c, x, args):
            return
        rows = e2e.judged(c, args, x, look)
        if rows is None:
            return
        if e2e.judged(c, args, x, lambda out: (trace(x.err, rows), True)[1]) is None:
            return
        try:
            with open(log) as f:
                h, ev, th, cont, waits, spur = f.read().split()
            os.unlink(log)
        except (OSError, ValueError):
            c.stats['no_log'] += 1
            continue
        c.stats['schedules'] += 1
        c.stats['schedules_with_contention'] += int(cont) > 0
        c.stats['events'] += int(ev)
        c.stats['threads'] += int(th)
        c.stats['contended_locks'] += int(cont)
        c.stats['condition_waits'] += int(waits)
        c.stats['spurious_wakeups'] += int(spur)
        c.stats['rows_started_and_completed'] += rows
        c.hashes = getattr(c, 'hashes', []) + [h]
    c.nontrivial(seed)
    c.sample = {'input': d.text()[:300], 'args': args, 'rows': rows, 'schedules': nsched}


def body(chk):
    global SO
    e2e.setup(chk, 'rel', 'tsan')
    SO = build.preload('perturb')
    seen = set()
    absorb = chk.absorb

    def take(c):
        seen.update(getattr(c, 'hashes', []))
        absorb(c)
    chk.absorb = take
    chk.run(one, [(s, -1) for s in chk.seeds(chk.scale(250, 5000), 88)], chunk=2, seconds=chk.scale(60, 600))
    chk.run(one, [(s, chk.scale(6, 10)) for s in chk.seeds(chk.scale(3000, 40000), 8)], chunk=4, nproc=2 * core.NPROC, seconds=chk.scale(100, 3000))
    chk.extra['distinct_schedules'] = len(seen)
    chk.rule = ('each input runs under several seeded perturbations (delays around lock operations, notifications, thread starts and output, slow threads, '
                'spurious wake-ups); distinct_schedules counts distinct orders of synchronisation events; output and progress trace are checked for every run; some runs are watched by the race detector for accesses to the pool')


core.main('C08', body)

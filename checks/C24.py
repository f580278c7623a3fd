#!/usr/bin/env python3
"""Distributed runs: the exact set, once, by the root node only, and every node ends."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import json, random, shutil
import build, core, e2e, gen, judge, malformed, poly, sym, wide

SO = {}
MPIRUN = ['mpirun', '--allow-run-as-root', '--oversubscribe', '--quiet', '--mca', 'btl_vader_single_copy_mechanism', 'none', '--mca', 'btl', 'self,vader']
WALL = 60


def distributed(c, r, n, args, files, monitor=True, perturb=True):
    """(run, [report per node])."""
    d = os.path.join(e2e.TMP, 'mpi-%d' % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    pre, env = [], {'TMPDIR': d}
    if monitor:
        pre.append(SO['mpimon'])
        env['MPIMON_DIR'] = d
        if r.random() < .8:
            env['MPIMON_SEED'] = str(r.randrange(10 ** 9))
            c.stats['delayed_messages'] += 1
    if perturb and r.random() < .5:
        pre.insert(0, SO['perturb'])
        env['PERTURB_SEED'] = str(r.randrange(10 ** 9))
        c.stats['perturbed_schedules'] += 1
    cmd = MPIRUN + ['--mca', 'btl_vader_backing_directory', d, '-np', str(n)]
    if pre:
        cmd += ['-x', 'LD_PRELOAD=' + ':'.join(pre)]
    for k in sorted(env):
        if k != 'TMPDIR':
            cmd += ['-x', k]
    c.files['environment'] = repr(env) + '\nnodes %d\n' % n
    for attempt in range(3):
        e2e.BIN['run'] = cmd[0]
        x = e2e.run(c, cmd[1:] + [e2e.BIN['mpi']] + args, files, 'run', env=env, cpu=60, wall=WALL, idle=10 ** 6)
        if not x.hang:
            break
        c.stats['hangs'] += 1
    rep = []
    for i in range(n):
        try:
            with open(os.path.join(d, str(i))) as f:
                rep.append(json.load(f))
        except (OSError, ValueError):
            pass
    shutil.rmtree(d, ignore_errors=True)
    if attempt and not x.hang:
        # one run did not end, a repetition did
        c.stats['single_hangs'] += 1
    return x, rep


def problem(c, x, args, n):
    """Records hangs; True if the case is over."""
    if x.hang in ('slow', 'deadlock', 'cpu'):
        c.bad('mpi-hang', '%s on %d nodes: no end within %d s, three times' % (' '.join(args), n, WALL))
        c.files['args'], c.files['stdout'], c.files['stderr'] = ' '.join(args), x.out[-3000:], x.err[-3000:]
        return True
    if x.hang:
        c.inconclusive = x.hang
        return True
    return False


def observed(c, rep, n, args):
    """Judges the reports of the monitor of a successful run."""
    if len(rep) != n:
        c.bad('node-not-finalized', '%s: only %d of %d nodes reached the end' % (' '.join(args), len(rep), n))
        return
    for i, m in enumerate(rep):
        for k in ('modified', 'pending', 'unreceived'):
            if m[k]:
                c.bad('mpi-' + k, '%s, node %d of %d: %s' % (' '.join(args), i, n, m))
        if m['overlaps'] and not m['multiple']:
            c.bad('mpi-overlap', '%s, node %d of %d: calls of several threads overlap: %s' % (' '.join(args), i, n, m))
        for k in ('sent', 'received', 'deferred', 'late'):
            c.stats['messages_' + k] += m[k]
    if any(m['received'] for m in rep[1:]):
        c.stats['runs_with_remote_work'] += 1
    c.stats['remote_nodes_with_jobs'] += sum(m['sent'] > 0 for m in rep[1:])
    return rep[0]['order']


def known(r, d, oracle):
    rows = r.sample(sorted(oracle), r.randint(1, len(oracle)))
    if isinstance(d, gen.V):
        return 'Inequalities\n' + ''.join(' '.join(map(str, x)) + '\n' for x in rows)
    vs, rs = [x for x in rows if x[-1]], [x for x in rows if not x[-1]]
    return (('Vertices\n' + ''.join(' '.join(str(gen.Fraction(y, x[-1])) for y in x[:-1]) + '\n' for x in vs) if vs else '')
            + ('Rays\n' + ''.join(' '.join(map(str, x[:-1])) + '\n' for x in rs) if rs else ''))


def pick(r):
    while True:
        k = r.random()
        if k < .3:
            v = gen.rnd_v(r, budget=22)
        elif k < .6:
            v = sym.symmetric_v(r)
            if len(v.gens()) > 40:
                continue
        if k < .6:
            oracle = poly.poly_facets(v.gens())
            if not oracle[1] or len(oracle[1]) > 200:
                continue
            perms = gen.perms_of(v) if v.maps else None
            return v, lambda out: judge.facets(out, v, oracle, perms=perms) is not None, oracle[1]
        h = sym.symmetric_h(r) if k > .85 else gen.rnd_h(r) if k < .75 else gen.structured_h(r)
        want = poly.poly_vertices(h.rows())
        if want is None or not judge.feasible(want) or len(want) > 200:
            continue
        return h, lambda out: judge.vertices(out, h, want) is not None, want


def one(seed, c):
    r = random.Random(seed)
    n = r.choice([2, 2, 3, 3, 4, 5, 6, 1])
    t = r.choice([1, 1, 2, 2, 3, 4, 6])
    k = r.random()
    if k < .72:
        d, look, want = pick(r)
        args = ['-t', str(t)] + e2e.int_args(r, e2e.types_for(d.gens() if isinstance(d, gen.V) else d.rows()))
        files = {'in': d.text()}
        dd = not d.maps and r.random() < .15
        if dd:
            args += ['-m', 'dd']
        elif r.random() < .25:
            files['known'] = known(r, d, want)
            args += ['-k', '@known']
            c.stats['known_data'] += 1
        if r.random() < .2:
            args += ['-s', r.choice(e2e.SORTS)]
        if r.random() < .15 and not d.maps:
            args.append('-c')
        args.append('@in')
        x, rep = distributed(c, r, n, args, files)
        if problem(c, x, args, n) or not e2e.ok(c, x, args) or e2e.judged(c, args, x, look) is None:
            return
        order = observed(c, rep, n, args)
        c.stats['judged_runs'] += 1
        c.stats['nodes_%d' % n] += 1
        c.stats['threads_%d' % t] += 1
        c.stats['double_description' if dd else 'adjacency_decomposition'] += 1
        c.stats['maps' if d.maps else 'no_maps'] += 1
        c.stats['inner' if isinstance(d, gen.V) else 'outer'] += 1
        c.nontrivial(order or seed, files)
        c.sample = {'input': d.text()[:300], 'nodes': n, 'args': args, 'monitor': rep[:2]}
        return
    if k < .86:
        # the result may not fit: a failure of one node ends all of them
        d, oracle = wide.pick(r)
        if r.random() < .75:
            # the interesting ones are rare
            for _ in range(200):
                if wide.fits(d, oracle) is False:
                    break
                d, oracle = wide.pick(r)
        files = {'in': d.text()}
        args = ['-t', str(t), '-i', 'inf'] + (['-m', 'dd'] if not d.maps and r.random() < .15 else []) + ['@in']
        if r.random() < .3:
            rows = [x for x in (oracle[1] if isinstance(d, gen.V) else oracle) if max(map(abs, x)) <= wide.INT]
            if rows:
                files['known'] = known(r, d, rows)
                args = ['-k', '@known'] + args
        x, rep = distributed(c, r, n, args, files)
        if problem(c, x, args, n):
            return
        fits = wide.fits(d, oracle)
        if x.rc == 0:
            if fits is False:
                c.bad('unprintable-printed', '%s on %d nodes: the result does not fit int but the run succeeded' % (' '.join(args), n))
            elif e2e.judged(c, args, x, wide.judge_exact(d, oracle)) is not None:
                c.stats['wide_exact'] += 1
        elif fits:
            c.bad('failed-although-fitting', '%s on %d nodes: exit code %d although all numbers fit: %s' % (' '.join(args), n, x.rc, x.err[-300:]))
        else:
            e2e.judged(c, args, x, wide.partial, d, oracle)
            c.stats['wide_loud'] += 1
        c.nontrivial(seed)
        return
    while True:
        d, look, want = pick(r)
        t_ = malformed.Text.of(d.text())
        sec = t_.get('Vertices' if isinstance(d, gen.V) else 'Inequalities')
        if sec and len(sec[1]) > 1:    # a single row may be a correct row of another width after the damage
            break
    what = malformed.malform_rows(r, sec, bool(d.names) and not isinstance(d, gen.V), isinstance(d, gen.V), d.names or [])
    args = ['-t', str(t), '@in']
    x, rep = distributed(c, r, n, args, {'in': t_.render(r)}, monitor=False)
    if problem(c, x, args, n):
        return
    if x.rc == 0:
        c.bad('malformed-accepted', '%s on %d nodes: exit code 0 for malformed input (%s)' % (' '.join(args), n, what))
    elif x.out.strip():
        c.bad('malformed-output', '%s on %d nodes: rows printed for malformed input (%s): %s' % (' '.join(args), n, what, x.out[:200]))
    else:
        c.stats['malformed_refused'] += 1
        c.nontrivial(seed)


def body(chk):
    e2e.setup(chk, 'mpi')
    SO['perturb'] = build.preload('perturb')
    SO['mpimon'] = build.preload('mpimon', 'mpicc')
    chk.run(one, chk.seeds(chk.scale(4000, 60000), 24), chunk=2, seconds=chk.scale(120, 3000), stop_after=3)
    if chk.stats['single_hangs'] > 1:
        chk.violation('mpi-hang', '%d runs did not end within %d s' % (chk.stats['single_hangs'], WALL))
    chk.rule = ('the build with message passing on 1 to 6 nodes with 1 to 6 threads each: inner and outer descriptions with and without maps, equations and known data judged by the exact '
                'oracle, results that do not fit and malformed input; a monitor at the interface of the message passing library delays sends, completion and arrival and '
                'watches for overlapping calls, buffers modified in flight, requests not completed and messages not received; non-trivial: distinct orders of messages at the root')


core.main('C24', body)

"""Runs harness executables in parallel and absorbs what they report.

Lines of a harness: 'S key n' counters, 'H hash' distinct cases, 'X text' sample, 'B key message' violation, 'E' regular end.
An end without 'E' is a crash (assertion, sanitizer report, exception): a violation as well, unless it was a watchdog."""
import os, re
import drive, e2e

ENV = {'ASAN_OPTIONS': 'detect_leaks=1:abort_on_error=0:exitcode=77', 'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
       'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:detect_deadlocks=1:second_deadlock_stack=1:history_size=4'}


def one(item, c):
    binary, args, kw = item
    env = dict(ENV)
    env.update(kw.get('env', {}))
    kw = {k: v for k, v in kw.items() if k != 'env'}
    kw.setdefault('cpu', 300 if os.environ.get('VERIF_TIER') != 'thorough' else 2000)
    kw.setdefault('wall', 400 if os.environ.get('VERIF_TIER') != 'thorough' else 2400)
    kw.setdefault('idle', 30)
    x = drive.run(binary, [str(a) for a in args], env=env, cwd=e2e.TMP, **kw)
    name = os.path.basename(binary).rsplit('-', 2)[0]
    where = '%s %s' % (os.path.basename(binary), ' '.join(map(str, args)))
    c.hashes = []
    ended = False
    c.files = {'command': where + '\n', 'stdout': '', 'stderr': x.err[-8000:]}
    for t in x.out.splitlines():
        k, _, v = t.partition(' ')
        if k == 'S':
            a, n = v.rsplit(' ', 1)
            c.stats[a] += int(n)
        elif k == 'H':
            c.hashes.append(name + v)
        elif k == 'X':
            c.sample = v
        elif k == 'B':
            key, _, msg = v.partition(' ')
            c.bad(key, '%s: %s' % (where, msg))
            c.files['stdout'] += t + '\n'
        elif k == 'E':
            ended = True
    if x.hang in ('slow', 'killed'):
        c.inconclusive = x.hang
        return
    m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]*)', x.err)
    if m:
        c.bad('tsan-' + m.group(1).strip().replace(' ', '-'), x.err[x.err.index('WARNING'):][:1500])
    elif x.hang:
        c.bad('hang-' + x.hang, '%s did not end (%s)' % (where, x.hang))
    elif not ended or x.rc != 0:
        m = re.search(r'(runtime error|AddressSanitizer|LeakSanitizer|Assertion|terminate called)[^\n]*', x.err)
        c.bad('harness-abort', '%s ended with %d: %s' % (where, x.rc, m.group(0) if m else x.err[-300:]))
    c.stats['processes'] += 1


def run(chk, items, **kw):
    """items: (binary, args, {options}); distinct hashes and samples go to the evidence."""
    absorb = chk.absorb

    def take(c):
        if not c.inconclusive:
            chk.sigs.update(getattr(c, 'hashes', []))
            if c.sample and len(chk.samples) < 6:
                chk.samples.append(c.sample[:1500])
        absorb(c)
    chk.absorb = take
    kw.setdefault('chunk', 1)
    chk.run(one, items, **kw)
    chk.absorb = absorb
    chk.evaluations = max(chk.evaluations, chk.stats.get('evaluations', 0))

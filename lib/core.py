"""Frame of every check: seeds, worker pool, verdicts, known findings, evidence, replay files."""
import collections, glob, hashlib, json, multiprocessing, os, queue, shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import build, drive  # noqa: E402

NPROC = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Case:
    """Result of one case, returned by workers.

    problems: list of (key, message); stats: Counter of what was observed; sig: hash of the case when it counts as
    non-trivial; sample: written-out case; files: {name: text} for the replay; inconclusive: reason."""

    def __init__(self):
        self.problems = []
        self.stats = collections.Counter()
        self.sig = None
        self.sample = None
        self.files = {}
        self.inconclusive = None

    def bad(self, key, msg):
        self.problems.append((key, msg))

    def nontrivial(self, *what):
        self.sig = hashlib.sha256(repr(what).encode()).hexdigest()[:16]


_FN = None   # inherited by the forked workers, so that closures can be used


def _guarded(item):
    c = Case()
    try:
        r = _FN(item, c)
        return r if isinstance(r, Case) else c
    except Exception:  # an error of the machinery, never a verdict
        c.inconclusive = 'error'
        c.stats['machinery_error'] += 1
        c.sample = traceback.format_exc()
        return c


def _several(items, end):
    res = []
    for i in items:
        if res and time.time() > end:
            break
        res.append(_guarded(i))
    return res


class Check:
    def __init__(self, pid, level='exploration'):
        self.pid, self.level = pid, level
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.start = time.time()
        self.stats = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.violations = []   # (key, message, files)
        self.evaluations = 0
        self.errors = []
        self.inconclusive = collections.Counter()
        self.extra = {}
        self.assumptions = []
        self.rule = ''
        self.min_nontrivial = 2
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.known = self._load_known()
        for old in glob.glob(os.path.join(VERIF, 'build', 'replay', pid + '-*')):
            shutil.rmtree(old, ignore_errors=True)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def _load_known(self):
        try:
            with open(KNOWN) as f:
                return [k for k in json.load(f)['known'] if k['property'] == self.pid]
        except FileNotFoundError:
            return []

    def seeds(self, n, salt=0):
        return [(self.seed * 1000003 + salt * 7919 + 1) * 100000 + i for i in range(n)]

    def absorb(self, c):
        self.evaluations += 1
        self.stats.update(c.stats)
        if c.inconclusive:
            self.inconclusive[c.inconclusive] += 1
            if c.inconclusive == 'error':
                self.errors.append(c.sample)
            return
        if c.sig:
            if c.sig not in self.sigs and c.sample and len(self.samples) < 4 and len(str(c.sample)) < 1500:
                self.samples.append(c.sample)
            self.sigs.add(c.sig)
        for key, msg in c.problems:
            self.violations.append((key, msg, c.files))

    def run(self, fn, items, stop_after=8, chunk=4, nproc=None, seconds=None):
        """Runs fn(item, case) over items in worker processes; stops early after some violations or when time is up."""
        global _FN
        items = list(items)
        if not items:
            return
        if seconds is None:
            seconds = self.scale(240, 3000)
        now = time.time()
        end = now + seconds
        # cases under way when the time is up are waited for: one that hangs is what the check looks for
        last = max(end, min(end + self.scale(240, 600), self.start + self.scale(780, 10 ** 6)))
        _FN = fn
        ctx = multiprocessing.get_context('fork')
        n = nproc or NPROC
        pool = ctx.Pool(n, initializer=signal.signal, initargs=(signal.SIGTERM, signal.SIG_DFL))
        done = queue.SimpleQueue()
        pending, pos, bad = 0, 0, 0
        try:
            while True:
                while pending < 2 * n and pos < len(items) and time.time() < end:
                    pool.apply_async(_several, (items[pos:pos + chunk], end), callback=done.put, error_callback=done.put)
                    pos += chunk
                    pending += 1
                if not pending:
                    break
                try:
                    cases = done.get(timeout=max(.1, last - time.time()))
                except queue.Empty:
                    self.stats['cases_abandoned'] += pending
                    break
                pending -= 1
                if isinstance(cases, BaseException):
                    self.errors.append(repr(cases))
                    cases = []
                for c in cases:
                    self.absorb(c)
                    bad += bool(c.problems)
                if bad >= stop_after:
                    self.stats['stopped_early'] += 1
                    break
                if len(self.errors) > 5:
                    break
            if pos < len(items) or time.time() > end:
                self.stats['time_budget_reached'] += time.time() > end
        finally:
            pool.terminate()
            pool.join()

    def violation(self, key, msg, files=None):
        self.violations.append((key, msg, files or {}))

    def _replay(self, n, key, msg, files):
        d = os.path.join(VERIF, 'build', 'replay', '%s-%d' % (self.pid, n))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, 'README'), 'w') as f:
            f.write('property %s, key %s, VERIF_SEED=%d VERIF_TIER=%s\n%s\n' % (self.pid, key, self.seed, self.tier, msg))
        for name, text in files.items():
            with open(os.path.join(d, name), 'w') as f:
                f.write(text)
        return d

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        wall = time.time() - self.start
        shown = 0
        real = []
        seen_known = {}
        for key, msg, files in self.violations:
            k = next((k for k in self.known if k['key'] == key), None)
            if k is not None:
                seen_known[k['key']] = k
            else:
                real.append((key, msg, files))
        for k in seen_known.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.sigs), 'rule': self.rule,
               'samples': self.samples or ['(none)'], 'observed': dict(sorted(self.stats.items()))}
        if self.inconclusive:
            cov['inconclusive'] = dict(self.inconclusive)
        cov.update(self.extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump({'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
                       'assumptions': self.assumptions, 'wall_s': round(wall, 2), 'violations': len(real)}, f, indent=1, default=str)
            f.write('\n')
        seen = set()
        for key, msg, files in real:
            if key in seen or shown >= 5:
                continue
            seen.add(key)
            shown += 1
            path = self._replay(shown, key, msg, files)
            print('%s: %s' % (key, msg[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1f s'
              % (self.pid, self.tier, self.seed, self.evaluations, len(self.sigs), len(real), wall))
        if self.inconclusive:
            print('inconclusive: %s' % dict(self.inconclusive))
            if self.errors:
                print(self.errors[0][-1500:])
        sys.stdout.flush()
        if real:
            sys.exit(1)
        if self.errors:
            print('ERROR: the check itself failed\n%s' % self.errors[0])
            sys.exit(2)
        if len(self.sigs) < self.min_nontrivial:
            print('ERROR: nothing observed')
            sys.exit(2)
        sys.exit(0)


def main(pid, body, level='exploration'):
    """Runs body(check); machinery failures exit with 2."""
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))
    chk = Check(pid, level)
    try:
        body(chk)
    except build.BuildError as e:
        shutil.rmtree(chk.tmp, ignore_errors=True)
        print('ERROR: build failed\n%s' % e)
        sys.exit(2)
    chk.finish()

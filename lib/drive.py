"""Running the panda executable and parsing what it prints."""
import os, re, resource, select, signal, subprocess, tempfile, time
from fractions import Fraction


class Run:
    """rc: exit code (negative: signal); hang: None, 'deadlock' (all threads asleep, no progress),
    'cpu' (CPU limit exceeded), 'output' (output limit exceeded); inconclusive are 'slow' (wall clock watchdog while still
    making progress) and 'killed' (memory pressure)."""
    __slots__ = ('rc', 'out', 'err', 'hang', 'args')

    def __init__(self, rc, out, err, hang, args):
        self.rc, self.out, self.err, self.hang, self.args = rc, out, err, hang, args


def _progress(pid):
    """(all threads asleep?, consumed clock ticks)."""
    asleep, ticks = True, 0
    base = '/proc/%d/task' % pid
    try:
        for t in os.listdir(base):
            with open('%s/%s/stat' % (base, t)) as f:
                s = f.read().rsplit(')', 1)[1].split()
            if s[0] not in 'SZX':
                asleep = False
            ticks += int(s[11]) + int(s[12])
    except (OSError, IndexError, ValueError):
        return False, -1
    return asleep, ticks


def _kill_session(sid):
    """Kills every process of a session (mpirun puts its processes into groups of their own)."""
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                with open('/proc/%s/stat' % d) as f:
                    if int(f.read().rsplit(')', 1)[1].split()[3]) == sid:
                        os.kill(int(d), signal.SIGKILL)
            except (OSError, IndexError, ValueError):
                pass


def run(binary, args, cpu=20, wall=120, env=None, cwd=None, mem=None, idle=8.0):
    e = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD',)}
    e['LC_ALL'] = 'C'
    if env:
        e.update(env)

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 26, 1 << 26))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    cmd = ([binary] if isinstance(binary, str) else list(binary)) + list(args)
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe,
                             env=e, cwd=cwd, preexec_fn=pre, start_new_session=True)
        hang = None
        start = time.monotonic()
        still_since, last = None, None
        fd = os.pidfd_open(p.pid)
        poller = select.poll()
        poller.register(fd, select.POLLIN)
        while not poller.poll(2000):
            now = time.monotonic()
            asleep, ticks = _progress(p.pid)
            if asleep and ticks == last:
                if still_since is None:
                    still_since = now
                if now - still_since >= idle:
                    hang = 'deadlock'
            else:
                still_since = None
            last = ticks
            if hang is None and now - start > wall:
                hang = 'slow'
            if hang:
                _kill_session(p.pid)
                break
        os.close(fd)
        rc = p.wait()
        fo.seek(0)
        fe.seek(0)
        out, err = fo.read(), fe.read()
    if hang is None:
        if rc == -signal.SIGXCPU:
            hang = 'cpu'
        elif rc == -signal.SIGXFSZ:
            hang = 'output'
        elif rc == -signal.SIGKILL:
            hang = 'killed'
    return Run(rc, out.decode('latin-1'), err.decode('latin-1'), hang, cmd)


class ParseError(Exception):
    pass


SECTIONS = {'Equations', 'Inequalities', 'Vertices', 'Rays', 'Vertices / Rays'}


def sections(out):
    """[(reduced?, section name, [lines])] of a panda standard output.  Blank lines are separators."""
    res = []
    cur = None
    for line in out.split('\n'):
        s = line.strip()
        if not s:
            continue
        m = re.match(r'^(Reduced )?([A-Z][A-Za-z/ ]*):$', s)
        if m and m.group(2) in SECTIONS:
            cur = (bool(m.group(1)), m.group(2), [])
            res.append(cur)
            continue
        if cur is None:
            raise ParseError('line outside any section: %r' % line)
        cur[2].append(s)
    return res


def parse_named(line, names):
    """'x +2y <= 3' -> (row with negated right hand side, operator)."""
    m = re.match(r'^(.*?)\s*(<=|>=|=)\s*([+-]?\d+)$', line)
    if not m:
        raise ParseError('not a constraint: %r' % line)
    lhs, op, rhs = m.group(1).strip(), m.group(2), int(m.group(3))
    row = [0] * (len(names) + 1)
    byname = {n: i for i, n in enumerate(names)}
    toks = lhs.split()
    if toks == ['0']:
        toks = []
    for t in toks:
        m = re.match(r'^([+-]?)(\d*)(.*)$', t)
        sign, num, name = m.groups()
        if name not in byname:
            raise ParseError('unknown variable in %r' % line)
        c = int(num) if num else 1
        row[byname[name]] += -c if sign == '-' else c
    row[-1] = -rhs
    return tuple(row), op


def parse_row(line):
    try:
        return tuple(int(x) for x in line.split())
    except ValueError:
        raise ParseError('not an integer row: %r' % line)


def parse_constraint(line, names, op):
    if names:
        row, o = parse_named(line, names)
        if o != op:
            raise ParseError('operator %s expected in %r' % (op, line))
        return row
    return parse_row(line)


def parse_fraction_row(line):
    out = []
    for t in line.split():
        if not re.match(r'^-?\d+(/\d+)?$', t):
            raise ParseError('not a fraction: %r' % line)
        out.append(Fraction(t))
    return tuple(out)

"""Builds the code under test (from the current working tree) outside of it, one object cache per variant.

Everything is keyed by content hashes: a changed translation unit is recompiled, a changed header recompiles
everything.  Nothing of /repo/_build is used."""
import contextlib, fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
OUT = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))


class BuildError(Exception):
    pass


def _cxx():
    for c in ('/usr/bin/g++-11', '/usr/bin/g++'):
        if os.path.exists(c):
            return c
    raise BuildError('no C++ compiler')


# slow[tu] replaces the flags of translation units whose instrumented optimisation takes minutes
VARIANTS = {
    'rel': dict(cxx=None, flags=['-O1', '-DNDEBUG'], link=[]),
    # the assertions of the sources stay enabled in the sanitizer build
    'asan': dict(cxx=None, flags=['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                                  '-fno-sanitize=signed-integer-overflow', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
                 link=['-fsanitize=address,undefined'], slow={'algorithm_fourier_motzkin_elimination.cpp': '-O0'}),
    # additionally traps on signed overflow: used where no overflow is allowed to happen
    'ubsan': dict(cxx=None, flags=['-O1', '-g1', '-fsanitize=undefined', '-fno-sanitize-recover=all', '-DNDEBUG'],
                  link=['-fsanitize=undefined'], slow={'algorithm_fourier_motzkin_elimination.cpp': '-O0'}),
    'tsan': dict(cxx=None, flags=['-O1', '-g1', '-fsanitize=thread', '-DNDEBUG'], link=['-fsanitize=thread']),
    'mpi': dict(cxx='mpicxx', flags=['-O1', '-DNDEBUG', '-DMPI_SUPPORT'], link=[]),
}


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def _header_hash():
    h = hashlib.sha256()
    files = []
    for ext in ('h', 'hpp', 'tpp', 'eti', 'beti', 'inc'):
        files += glob.glob(os.path.join(SRC, '*.' + ext))
    for f in sorted(files):
        h.update(os.path.basename(f).encode())
        h.update(_read(f))
    return h.hexdigest()


@contextlib.contextmanager
def _lock(name):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, name + '.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def _run(cmd, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode('latin-1')[-4000:]))


def _env():
    e = dict(os.environ)
    e['OMPI_CXX'] = _cxx()
    e['LC_ALL'] = 'C'
    return e


def _compile_flags(variant, tu=None):
    v = VARIANTS[variant]
    flags = ['--std=c++11', '-pthread', '-w', '-I' + SRC] + v['flags']
    slow = v.get('slow', {}).get(tu)
    if slow:
        flags = [slow if f.startswith('-O') else f for f in flags]
    return [v['cxx'] or _cxx()] + flags


def objects(variant, only=None):
    """Object files of all translation units (or of those named in only); the one of main.cpp is the first."""
    with _lock(variant):
        d = os.path.join(OUT, 'obj', variant)
        os.makedirs(d, exist_ok=True)
        hh = _header_hash()
        todo, objs = [], []
        tus = sorted(glob.glob(os.path.join(SRC, '*.cpp')), key=lambda p: (os.path.basename(p) != 'main.cpp', p))
        if only is not None:
            tus = [t for t in tus if os.path.basename(t)[:-4] in only]
        if not tus:
            raise BuildError('no sources in ' + SRC)
        for tu in tus:
            b = os.path.basename(tu)
            cmd = _compile_flags(variant, b)
            key = hashlib.sha256((hh + '\0' + ' '.join(cmd) + '\0').encode() + _read(tu)).hexdigest()[:20]
            o = os.path.join(d, '%s-%s.o' % (b[:-4], key))
            objs.append(o)
            if not os.path.exists(o):
                todo.append((os.path.getsize(tu) + (10 ** 9 if 'fourier' in b else 0), tu, o, cmd))
        keep = set(objs)
        for f in glob.glob(os.path.join(d, '*.o')) if only is None else ():
            if f not in keep and time.time() - os.path.getmtime(f) > 3600:
                os.unlink(f)

        def one(t):
            _, tu, o, cmd = t
            tmp = o + '.tmp.o'
            _run(cmd + ['-c', tu, '-o', tmp], env=_env())
            os.replace(tmp, o)
        todo.sort(reverse=True)
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            list(ex.map(one, todo))
        return objs


def _link(variant, out, inputs, libs=()):
    if os.path.exists(out):
        return out
    v = VARIANTS[variant]
    tmp = out + '.tmp'
    _run([v['cxx'] or _cxx(), '-pthread'] + v['link'] + inputs + list(libs) + ['-o', tmp], env=_env())
    os.replace(tmp, out)
    return out


def _prune(pattern, keep):
    for f in glob.glob(pattern):
        if f != keep and time.time() - os.path.getmtime(f) > 3600:
            with contextlib.suppress(OSError):
                os.unlink(f)


def panda(variant):
    objs = objects(variant)
    key = hashlib.sha256('\0'.join(objs).encode()).hexdigest()[:16]
    d = os.path.join(OUT, 'bin')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'panda-%s-%s' % (variant, key))
    with _lock(variant + '-link'):
        _link(variant, out, objs)
        _prune(os.path.join(d, 'panda-%s-*' % variant), out)
    return out


def harness(name, variant, libs=(), flags=(), only=None):
    """Compiles /verif/harness/<name>.cpp and links it with everything of the repository but main.cpp.

    only: translation units that suffice normally (saves time); if the program does not link with them, all are taken."""
    if only is not None:
        try:
            return _harness(name, variant, libs, flags, only)
        except BuildError:
            pass
    return _harness(name, variant, libs, flags, None)


def _harness(name, variant, libs, flags, only):
    objs = [o for o in objects(variant, only) if not os.path.basename(o).startswith('main-')]
    src = os.path.join(VERIF, 'harness', name + '.cpp')
    cmd = _compile_flags(variant) + ['-I' + os.path.join(VERIF, 'harness')] + list(flags)
    h = hashlib.sha256(('\0'.join(objs) + _header_hash() + ' '.join(cmd) + ' '.join(libs)).encode() + _read(src))
    for f in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.h'))):
        h.update(_read(f))
    d = os.path.join(OUT, 'bin')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, '%s-%s-%s' % (name, variant, h.hexdigest()[:16]))
    with _lock('%s-%s' % (name, variant)):
        if not os.path.exists(out):
            o = out + '.o'
            _run(cmd + ['-c', src, '-o', o], env=_env())
            _link(variant, out, [o] + objs, libs)
            os.unlink(o)
        _prune(os.path.join(d, '%s-%s-*' % (name, variant)), out)
    return out


def preload(name, cc='gcc'):
    """Compiles /verif/harness/<name>.c to a shared object for LD_PRELOAD."""
    src = os.path.join(VERIF, 'harness', name + '.c')
    key = hashlib.sha256(_read(src)).hexdigest()[:16]
    d = os.path.join(OUT, 'bin')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, '%s-%s.so' % (name, key))
    with _lock(name):
        if not os.path.exists(out):
            _run([cc, '-O1', '-fPIC', '-shared', src, '-o', out + '.tmp', '-ldl', '-pthread'])
            os.replace(out + '.tmp', out)
    return out

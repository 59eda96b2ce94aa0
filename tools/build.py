#!/usr/bin/env python3
"""Content-addressed builds of liburkel (from /repo's working tree) and of the
monitors, in /verif/build.  Nothing is written under /repo."""
import fcntl, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('URKEL_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
MON = os.path.join(VERIF, 'mon')
ENV = dict(os.environ, LC_ALL='C.UTF-8')
for k in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'CC', 'CXX'):
    ENV.pop(k, None)

WRAP = '''open open64 openat creat close read pread pread64 write pwrite pwrite64 writev
ftruncate ftruncate64 truncate unlink unlinkat remove rename link symlink mkdir rmdir chmod mmap munmap
fcntl fcntl64 fstat stat lstat opendir closedir readdir fsync fdatasync malloc calloc realloc free
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_rwlock_destroy pthread_mutex_lock pthread_mutex_unlock pthread_mutex_destroy __asan_memcpy'''.split()

COMMON = '-g -fno-omit-frame-pointer -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -DURKEL_VERIF'
VARIANTS = {
    # address + undefined, uninitialised locals filled with a pattern
    'asan': dict(cc='clang', cflags=COMMON + ' -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern',
                 ld=['-fsanitize=address,undefined']),
    # the same, syncing every commit (the library's own URKEL_FSYNC)
    'fsync': dict(cc='clang', cflags=COMMON + ' -DURKEL_FSYNC -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern',
                 ld=['-fsanitize=address,undefined']),
    'tsan': dict(cc='clang', cflags=COMMON + ' -O1 -fsanitize=thread', ld=['-fsanitize=thread']),
    # uninitialised memory; the monitors are compiled with it too, but neither
    # report nor poison (ignore list), so only the library's own reads are judged
    'msan': dict(cc='clang', cflags=COMMON + ' -O1 -fsanitize=memory -fsanitize-memory-track-origins -fsanitize-memory-param-retval',
                 ld=['-fsanitize=memory'], obj=['-fsanitize=memory', '-fsanitize-ignorelist=' + os.path.join(VERIF, 'tools', 'ignore_all.txt')]),
    'plain': dict(cc='clang', cflags=COMMON + ' -O2', ld=[]),
    'fuzz': dict(cc='clang', cflags=COMMON + ' -O1 -fsanitize=address,undefined,fuzzer-no-link -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern',
                 ld=['-fsanitize=address,undefined,fuzzer']),
}


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout


def hash_files(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_files():
    out = [os.path.join(REPO, 'CMakeLists.txt')]
    for f in ('liburkel.pc.in',):
        if os.path.exists(os.path.join(REPO, f)):
            out.append(os.path.join(REPO, f))
    for d in ('src', 'include', 'cmake'):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in files]
    return out


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def prune(parent, keep):
    """Drop old builds; another run may be doing the same."""
    def age(e):
        try:
            return time.time() - os.path.getmtime(e)
        except OSError:
            return -1
    try:
        ents = [os.path.join(parent, e) for e in os.listdir(parent)]
    except FileNotFoundError:
        return
    ents = sorted(((age(e), e) for e in ents if os.path.isdir(e)))
    for t, e in ents[keep:]:
        if t > 1800:
            shutil.rmtree(e, ignore_errors=True)


def lib(variant):
    """-> (directory, hash); holds liburkel.a, liburkel_w.a and cli.o"""
    v = VARIANTS[variant]
    h = hash_files(repo_files(), variant + v['cflags'] + 'v5')
    d = os.path.join(BUILD, 'lib', variant + '-' + h)
    with Lock('lib-' + variant):
        if os.path.exists(os.path.join(d, 'ok')):
            os.utime(d)
            return d, h
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        b = os.path.join(d, 'b')
        run(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DBUILD_TESTING=OFF', '-DURKEL_ENABLE_DEBUG=ON',
             '-DCMAKE_BUILD_TYPE=None', '-DCMAKE_C_COMPILER=' + v['cc'], '-DCMAKE_C_FLAGS=' + v['cflags']])
        run(['ninja', '-C', b, 'urkel_static'])
        a = os.path.join(b, 'liburkel.a')
        shutil.copy(a, os.path.join(d, 'liburkel.a'))
        syms = os.path.join(d, 'wrap.syms')
        with open(syms, 'w') as f:
            for w in WRAP:
                f.write('%s __wrap_%s\n' % (w, w))
        run(['objcopy', '--redefine-syms=' + syms, a, os.path.join(d, 'liburkel_w.a')])
        # the command-line front end
        run([v['cc'], '-c'] + v['cflags'].split() + ['-I' + os.path.join(REPO, 'include'), os.path.join(REPO, 'src/urkel.c'), '-o', os.path.join(d, 'cli0.o')])
        run(['objcopy', '--redefine-syms=' + syms, os.path.join(d, 'cli0.o'), os.path.join(d, 'cli.o')])
        shutil.rmtree(b, ignore_errors=True)
        open(os.path.join(d, 'ok'), 'w').close()
    prune(os.path.join(BUILD, 'lib'), 16)
    return d, h


def mon_objs(extra=()):
    """The monitors' objects: never instrumented, the same for every variant (but msan)."""
    extra = list(extra)
    tag = '-m' if extra else ''
    srcs = [f for f in sorted(os.listdir(MON)) if f.endswith('.cpp')]
    allf = [os.path.join(MON, f) for f in os.listdir(MON)]
    hdr = [f for f in allf if f.endswith('.h')] + [os.path.join(REPO, 'include/urkel.h')]
    objs = {}
    flags = ['-std=c++17', '-O2', '-g1', '-fno-omit-frame-pointer', '-I' + os.path.join(REPO, 'include'), '-pthread', '-Wall', '-U_FORTIFY_SOURCE'] + extra
    odir = os.path.join(BUILD, 'obj')
    with Lock('obj'):
        os.makedirs(odir, exist_ok=True)

        def one(s):
            p = os.path.join(MON, s)
            h = hash_files([p] + hdr, ' '.join(flags) + 'v2')
            o = os.path.join(odir, s[:-4] + tag + '-' + h + '.o')
            if not os.path.exists(o):
                for old in os.listdir(odir):
                    if old.startswith(s[:-4] + tag + '-'):
                        q = os.path.join(odir, old)
                        if time.time() - os.path.getmtime(q) > 1800:
                            os.unlink(q)
                tmp = o + '.tmp.o'
                run(['clang++', '-c'] + flags + [p, '-o', tmp])
                if s == 'ip.cpp':
                    sy = os.path.join(odir, 'real.syms')
                    with open(sy, 'w') as f:
                        for w in WRAP:
                            f.write('__real_%s %s\n' % (w, w))
                    run(['objcopy', '--redefine-syms=' + sy, tmp])
                os.rename(tmp, o)
            objs[s] = o
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, srcs))
    return objs


NOT_IN_MON = ('fuzz.cpp', 'cli_main.cpp')


def mon(variant):
    """-> path of the monitor binary linked with the current library"""
    with ThreadPoolExecutor(2) as ex:
        fl = ex.submit(lib, variant)
        fo = ex.submit(mon_objs, VARIANTS[variant].get('obj', ()))
        d, h = fl.result()
        objs = fo.result()
    use = [o for s, o in sorted(objs.items()) if s not in NOT_IN_MON]
    key = hashlib.sha256(('|'.join(use) + h + 'v1').encode()).hexdigest()[:24]
    bd = os.path.join(BUILD, 'bin', variant + '-' + key)
    out = os.path.join(bd, 'mon')
    with Lock('bin-' + variant):
        if not os.path.exists(out):
            os.makedirs(bd, exist_ok=True)
            run(['clang++', '-g1', '-pthread'] + VARIANTS[variant]['ld'] + use + [os.path.join(d, 'liburkel_w.a'), '-ldl', '-o', out + '.tmp'])
            os.rename(out + '.tmp', out)
        else:
            os.utime(bd)
    prune(os.path.join(BUILD, 'bin'), 16)
    return out


def cli():
    """-> path of the CLI linked with the sanitized library and the interposer"""
    d, h = lib('asan')
    objs = mon_objs()
    use = [objs['ip.cpp'], objs['ref.cpp'], objs['cli_main.cpp']]
    key = hashlib.sha256(('|'.join(use) + h + 'cli1').encode()).hexdigest()[:24]
    bd = os.path.join(BUILD, 'bin', 'cli-' + key)
    out = os.path.join(bd, 'urkel')
    with Lock('bin-cli'):
        if not os.path.exists(out):
            os.makedirs(bd, exist_ok=True)
            run(['clang++', '-g1', '-pthread'] + VARIANTS['asan']['ld'] + use + [os.path.join(d, 'cli.o'), os.path.join(d, 'liburkel_w.a'), '-ldl', '-o', out + '.tmp'])
            os.rename(out + '.tmp', out)
    return out


def fuzz():
    d, h = lib('fuzz')
    objs = mon_objs()
    use = [objs['ref.cpp'], objs['fuzz.cpp']]
    key = hashlib.sha256(('|'.join(use) + h + 'fz1').encode()).hexdigest()[:24]
    bd = os.path.join(BUILD, 'bin', 'fuzz-' + key)
    out = os.path.join(bd, 'fuzz')
    with Lock('bin-fuzz'):
        if not os.path.exists(out):
            os.makedirs(bd, exist_ok=True)
            run(['clang++', '-g1', '-pthread'] + VARIANTS['fuzz']['ld'] + use + [os.path.join(d, 'liburkel.a'), '-o', out + '.tmp'])
            os.rename(out + '.tmp', out)
    return out


if __name__ == '__main__':
    t = time.time()
    todo = sys.argv[1:] or ['asan', 'tsan', 'msan', 'plain', 'cli']
    for v in todo:
        print(v, {'cli': cli, 'fuzz': fuzz}.get(v, lambda: mon(v))(), '%.1fs' % (time.time() - t))

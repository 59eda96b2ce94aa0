#!/usr/bin/env python3
"""check.py Pxx: build the monitors against /repo's working tree, run the
workloads of one property, judge, write evidence/Pxx.json.
exit 0: held on everything explored; 1: VIOLATION line; 3: no verdict."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
from props import PROPS

VERIF = build.VERIF
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
STALL = 100        # no progress of a shard for so long: rerun that case alone
HANG_ALONE = 150

ENV = dict(os.environ,
           ASAN_OPTIONS='detect_leaks=0:handle_abort=1:exitcode=77:detect_stack_use_after_return=1:strict_string_checks=1',
           MSAN_OPTIONS='poison_in_malloc=0:poison_in_free=0:handle_abort=1:exitcode=77',
           UBSAN_OPTIONS='print_stacktrace=1:exitcode=77',
           TSAN_OPTIONS='halt_on_error=1:exitcode=66:detect_deadlocks=0:report_signal_unsafe=0:history_size=4')


def say(*a):
    print(*a, flush=True)


class Inconclusive(Exception):
    pass


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def is_known(prop, key, detail):
    for f in load_known():
        if f['property'] == prop and f['key'] == key and (not f.get('match') or re.search(f['match'], detail)):
            return f
    return None


def crash_key(log):
    """(key, detail) from a sanitizer report or abort, or None"""
    kind = None
    m = re.search(r'(?:ERROR|WARNING): (\w+Sanitizer): ([^\n]*)', log)
    if m:
        kind = m.group(2)
        kind = re.sub(r'\(pid=\d+\)', '', kind)
        kind = re.sub(r'(0x[0-9a-f]+|\d{3,})', '', kind).strip()
        kind = ' '.join(kind.split()[:3])
        tool = m.group(1)
        start = m.start()
    else:
        m = re.search(r'^(\S+?):\d+:\d+: runtime error: ([^\n]*)', log, re.M)
        if not m:
            return None
        tool = 'UndefinedBehaviorSanitizer'
        kind = ' '.join(re.sub(r"0x[0-9a-f]+|'[^']*'|\d+", '', m.group(2)).split()[:8])
        start = m.start()
    fn = []
    for f in re.finditer(r'#\d+ (?:0x[0-9a-f]+ in )?(\S+) (\S+)', log[start:start + 20000]):
        if build.REPO + '/src' in f.group(2) or f.group(1).startswith('urkel_'):
            n = f.group(1)
            if n not in ('__urkel_abort', '__urkel_assert_fail') and n not in fn:
                fn.append(n)
        if len(fn) == 3:
            break
    return ('%s:%s@%s' % (tool, kind.strip(), '<'.join(fn)), log[start:start + 3000])


class Shard:
    def __init__(self, run, exe, scratch, idx):
        self.run, self.exe, self.scratch, self.idx = run, exe, scratch, idx

    def cmd(self, a, b, out, prog, extra=()):
        c = [self.exe, self.run['mode'], '--prop', PROP, '--seed', str(SEED), '--from', str(a), '--to', str(b),
             '--dir', os.path.join(self.scratch, 's%d' % self.idx), '--out', out, '--progress', prog]
        if TIER == 'thorough':
            c.append('--thorough')
        for k, v in self.run.get('opts', {}).items():
            c += ['--opt', '%s=%s' % (k, str(v).replace('@', build.VERIF + '/'))]
        return c + list(extra)

    def exec(self, a, b, timeout, extra=(), stall=0):
        out = os.path.join(self.scratch, 'o%d.json' % self.idx)
        prog = os.path.join(self.scratch, 'p%d' % self.idx)
        log = os.path.join(self.scratch, 'l%d' % self.idx)
        for f in (out, prog):
            if os.path.exists(f):
                os.unlink(f)
        with open(log, 'wb') as lf:
            p = subprocess.Popen(self.cmd(a, b, out, prog, extra), stdin=subprocess.DEVNULL, stdout=lf, stderr=lf, env=ENV, start_new_session=True)
            with plock:
                procs.add(p)
            t_end, last, t_last, rc = time.time() + timeout, None, time.time(), None
            while rc is None:
                try:
                    rc = p.wait(1 if time.time() - t_last < 10 else 3)
                except subprocess.TimeoutExpired:
                    try:
                        cur = open(prog).read()
                    except OSError:
                        cur = None
                    now = time.time()
                    if cur != last:
                        last, t_last = cur, now
                    if now > t_end or now - t_last > max(STALL, stall):
                        rc = 'timeout'
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            with plock:
                procs.discard(p)
        with open(log, 'rb') as lf:
            lf.seek(0, 2)
            n = lf.tell()
            if n > 400000:
                lf.seek(0)
                text = lf.read(200000) + b'\n...\n'
                lf.seek(n - 200000)
                text += lf.read()
            else:
                lf.seek(0)
                text = lf.read()
        text = text.decode('utf8', 'replace')
        cas = a
        if os.path.exists(prog):
            s = open(prog).read().split()
            if s:
                cas = int(s[0])
        data = None
        if os.path.exists(out):
            try:
                data = json.load(open(out))
            except ValueError:
                data = None
        return rc, cas, data, text


procs = set()
plock = threading.Lock()
stop = threading.Event()


def kill_all():
    with plock:
        for p in list(procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


def run_shard(run, exe, scratch, idx, a, b, agg, results):
    sh = Shard(run, exe, scratch, idx)
    limit = 540 if TIER == 'quick' else 7000
    t_end = time.time() + limit
    while a < b and not stop.is_set():
        rc, cas, data, text = sh.exec(a, b, max(30, min(run.get('shard_timeout', limit), t_end - time.time())), stall=run.get('stall', 0))
        if stop.is_set():
            return
        if data:
            with plock:
                for k, v in data['stats'].items():
                    if k.startswith('max_'):
                        agg['stats'][k] = max(agg['stats'].get(k, 0), v)
                    else:
                        agg['stats'][k] = agg['stats'].get(k, 0) + v
                for k, v in data['distinct'].items():
                    agg['distinct'].setdefault(k, set()).update(v)
                if len(agg['samples']) < 8:
                    agg['samples'] += data['samples'][:2]
        viol = None
        if rc == 0 and data:
            return
        if rc == 1 and data and data['viols']:
            v = data['viols'][0]
            viol = (v['key'], v['detail'], v['case'])
        elif rc == 'timeout':
            rc2, cas2, data2, text2 = sh.exec(cas, cas + 1, HANG_ALONE, stall=HANG_ALONE)
            if rc2 == 'timeout':
                if run.get('hang_is_violation', True):
                    viol = ('hang', 'case %d did not terminate: twice stuck, the second time alone for %d s' % (cas, HANG_ALONE), cas)
                else:
                    results.append(('inconclusive', 'case %d of %s did not finish twice' % (cas, run['mode'])))
                    return
            elif rc2 == 0:
                agg['slow'] = agg.get('slow', 0) + 1
                if time.time() > t_end - 60:
                    results.append(('inconclusive', 'shard %d of %s out of time at case %d' % (idx, run['mode'], cas)))
                    return
                a = cas + 1
                continue
            else:
                rc, cas, data, text = rc2, cas2, data2, text2
                if rc == 1 and data and data['viols']:
                    v = data['viols'][0]
                    viol = (v['key'], v['detail'], v['case'])
        if viol is None:
            ck = crash_key(text)
            if ck:
                viol = (ck[0], ck[1], cas)
            elif rc == 5:   # several-thread workload found a proven deadlock
                m = re.search(r'DEADLOCK ([^\n]*)', text)
                viol = ('deadlock', m.group(1) if m else 'deadlock', cas)
            elif isinstance(rc, int) and rc < 0 and -rc in (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGTRAP):
                viol = ('signal-%d' % -rc, 'killed by signal %d\n%s' % (-rc, text[-2000:]), cas)
            else:
                results.append(('inconclusive', 'mode %s shard %d case %d: exit %s: %s' % (run['mode'], idx, cas, rc, text[-1500:])))
                return
        key, detail, cas = viol
        f = is_known(PROP, key, detail)
        if f:
            results.append(('known', f))
            a = cas + 1
            continue
        results.append(('violation', run, key, detail, cas, sh))
        stop.set()
        kill_all()
        return


def replay(run, key, detail, cas, sh):
    d = os.path.join(VERIF, 'out')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d.txt' % (PROP, run['mode'], cas))
    try:
        rc, _, data, text = sh.exec(cas, cas + 1, 20 if key == 'hang' else 90, ['--trace'])
    except Exception as e:  # the verdict stands without the trace
        rc, text = None, str(e)
    again = rc not in (0, None, 'timeout')
    with open(path, 'w') as f:
        f.write('property %s\nkey %s\ndetail %s\n\nreproduced in a second run: %s\nreplay: VERIF_SEED=%d; %s\n\n%s\n' %
                (PROP, key, detail, again, SEED, ' '.join(sh.cmd(cas, cas + 1, '/dev/null', '/dev/null', ['--trace'])).replace(sh.scratch, '/tmp/scratch'), text[-60000:]))
    return path


def main():
    global PROP
    PROP = sys.argv[1]
    if len(sys.argv) > 2:
        global TIER
        TIER = sys.argv[2]
    spec = PROPS[PROP]
    t0 = time.time()
    agg = {'stats': {}, 'distinct': {}, 'samples': []}
    results = []
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > (4 << 30) else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix='urkel-%s-' % PROP, dir=base)
    rc = 3
    try:
        os.chmod(scratch, 0o755)
        def one(ri, run):
            if stop.is_set():
                return
            if 'py' in run:
                mod = __import__(run['py'])
                mod.run(PROP, TIER, SEED, scratch, agg, results, ENV, run)
                if any(r[0] == 'violation' for r in results):
                    stop.set()
                return
            exe = build.mon(run['variant'])
            n = run[TIER]
            k = run.get('jobs', NPROC)
            per = (n + k - 1) // k
            with ThreadPoolExecutor(k) as ex:
                fs = []
                for i in range(k):
                    a, b = i * per, min(n, (i + 1) * per)
                    if a < b:
                        fs.append(ex.submit(run_shard, run, exe, scratch, ri * 100 + i, a, b, agg, results))
                for f in fs:
                    f.result()

        todo = [(i, r) for i, r in enumerate(spec['runs']) if r.get('tier', TIER) == TIER]
        # runs marked 'par' go on beside the others
        with ThreadPoolExecutor(16) as ex:
            fs = [ex.submit(one, i, r) for i, r in todo if r.get('par')]
            for i, r in todo:
                if not r.get('par'):
                    one(i, r)
            for f in fs:
                f.result()
        viols = [r for r in results if r[0] == 'violation']
        inc = [r for r in results if r[0] == 'inconclusive']
        for f in {r[1]['key']: r[1] for r in results if r[0] == 'known'}.values():
            say('KNOWN-FINDING: property=%s %s' % (PROP, f['what']))
        st = agg['stats']
        dk = spec.get('distinct', 'cases')
        ev = {
            'property': PROP, 'tier': TIER, 'seed': SEED, 'level': spec.get('level', 'exploration'),
            'coverage': {
                'evaluations': st.get(spec.get('evaluations', 'cases'), 0),
                'distinct_nontrivial': len(agg['distinct'].get(dk, ())),
                'rule': spec['rule'],
                'samples': agg['samples'][:8],
                'observed': dict(sorted(st.items())),
                'distinct_observed': {k: len(v) for k, v in sorted(agg['distinct'].items())},
            },
            'assumptions': spec.get('assumptions', []),
            'wall_s': round(time.time() - t0, 2),
            'violations': len(viols),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', PROP + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if viols:
            _, run, key, detail, cas, sh = viols[0]
            path = replay(run, key, detail, cas, sh) if sh is not None else cas
            say('%s: %s\n%s' % (PROP, key, detail[:1500]))
            say('VIOLATION property=%s replay=%s' % (PROP, path))
            rc = 1
        elif inc:
            for r in inc:
                say('INCONCLUSIVE', r[1])
            rc = 3
        else:
            for k, least in spec.get('floor', {}).items():
                if st.get(k, 0) < least:
                    say('INCONCLUSIVE: the run observed only %d %s (at least %d expected)' % (st.get(k, 0), k, least))
                    return 3
            say('%s held: %d evaluations, %d distinct, %.1f s' % (PROP, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
            rc = 0
    except build.BuildError as e:
        say('BUILD FAILED\n%s' % e)
        rc = 3
    finally:
        kill_all()
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())

"""Running backpak under observation: builds, scratch places, processes, verdicts and evidence."""
import fcntl
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BPV_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
NOBODY = 65534
PATH = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
TRIPLE = 'x86_64-unknown-linux-gnu'


class Violation(Exception):
    """The property is broken: an execution was seen that refutes it."""

    def __init__(self, msg, **info):
        super().__init__(msg)
        self.info = info


class Inconclusive(Exception):
    """This execution says nothing about the property."""


# ---------------------------------------------------------------- building

def _sources():
    for top in ('src', 'b2/src'):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                yield os.path.join(d, f)
    for f in ('Cargo.toml', 'Cargo.lock', 'b2/Cargo.toml'):
        yield os.path.join(REPO, f)


def source_hash():
    h = hashlib.sha256()
    for p in _sources():
        h.update(p.encode() + b'\0')
        try:
            with open(p, 'rb') as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            h.update(b'absent')
    return h.hexdigest()


def _cargo(args, env, timeout, log):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO', 'RUST'))}
    e.update(HOME='/root', PATH=PATH, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
    e.update(env)
    with open(log, 'wb') as f:
        r = subprocess.run(['cargo'] + args, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=BUILD)
    if r.returncode:
        with open(log, errors='replace') as f:
            tail = f.read()[-3000:]
        raise RuntimeError('build failed: cargo %s\n%s' % (' '.join(args), tail))


CFG = '--cfg rustix_use_libc --cfg backpak_verif -Awarnings'
FLAVORS = {
    # name: (manifest, toolchain args, extra cargo args, env, products)
    'main': (REPO + '/Cargo.toml', [], ['--bins'],
             dict(RUSTFLAGS=CFG, CARGO_PROFILE_DEV_OPT_LEVEL='1', CARGO_PROFILE_DEV_DEBUG='0',
                  RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu'), 'debug/backpak'),
    'tsan': (REPO + '/Cargo.toml', ['+nightly'], ['--bins', '-Zbuild-std', '--target', TRIPLE],
             dict(RUSTFLAGS='-Zsanitizer=thread ' + CFG, CARGO_PROFILE_DEV_OPT_LEVEL='1', CARGO_PROFILE_DEV_DEBUG='1'),
             TRIPLE + '/debug/backpak'),
    'asan': (REPO + '/Cargo.toml', ['+nightly'], ['--bins', '--target', TRIPLE],
             dict(RUSTFLAGS='-Zsanitizer=address ' + CFG, CARGO_PROFILE_DEV_OPT_LEVEL='1', CARGO_PROFILE_DEV_DEBUG='1'),
             TRIPLE + '/debug/backpak'),
    'probe': (VERIF + '/harness/Cargo.toml', [], ['--bins'],
              dict(RUSTFLAGS=CFG, CARGO_PROFILE_DEV_OPT_LEVEL='1', CARGO_PROFILE_DEV_DEBUG='0',
                   RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu'), 'debug/probe'),
    'probe-tsan': (VERIF + '/harness/Cargo.toml', ['+nightly'], ['--bins', '-Zbuild-std', '--target', TRIPLE],
                   dict(RUSTFLAGS='-Zsanitizer=thread ' + CFG, CARGO_PROFILE_DEV_OPT_LEVEL='1', CARGO_PROFILE_DEV_DEBUG='1'),
                   TRIPLE + '/debug/probe'),
    'probe-asan': (VERIF + '/harness/Cargo.toml', ['+nightly'], ['--bins', '--target', TRIPLE],
                   dict(RUSTFLAGS='-Zsanitizer=address ' + CFG, CARGO_PROFILE_DEV_OPT_LEVEL='1', CARGO_PROFILE_DEV_DEBUG='1'),
                   TRIPLE + '/debug/probe'),
}
# flavors that share dependencies share a target directory
TARGETS = {'main': 'main', 'probe': 'main', 'tsan': 'tsan', 'probe-tsan': 'tsan', 'asan': 'asan', 'probe-asan': 'asan'}


class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + '.lock')

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(flavor='main', timeout=1500):
    """Builds /repo's working tree and returns the binary's path."""
    manifest, tool, extra, env, product = FLAVORS[flavor]
    tdir = os.path.join(BUILD, 'target-' + TARGETS[flavor])
    with _Lock(TARGETS[flavor]):
        stamp = os.path.join(tdir, flavor + '.srchash')
        h = source_hash()
        if manifest.startswith(VERIF):
            for f in ('harness/src/main.rs', 'harness/Cargo.toml'):
                with open(os.path.join(VERIF, f), 'rb') as fh:
                    h += hashlib.sha256(fh.read()).hexdigest()
        out = os.path.join(tdir, product)
        try:
            with open(stamp) as f:
                same = f.read() == h
        except OSError:
            same = False
        if same and os.path.exists(out):
            return out
        # Cargo goes by modification times, which copies of the tree may not keep: rebuild our crates for certain.
        for pkg in ('backpak', 'backpak-b2'):
            pdir = os.path.join(tdir, *([TRIPLE] if '--target' in extra else []), 'debug', '.fingerprint')
            if os.path.isdir(pdir):
                for d in os.listdir(pdir):
                    if d.startswith(('backpak-', 'probe-')):
                        shutil.rmtree(os.path.join(pdir, d), ignore_errors=True)
        os.makedirs(tdir, exist_ok=True)
        _cargo(tool + ['build', '--offline', '--locked', '--manifest-path', manifest, '--target-dir', tdir] + extra,
               env, timeout, os.path.join(BUILD, 'build-%s.log' % flavor))
        with open(stamp, 'w') as f:
            f.write(h)
        return out


MIRIFLAGS = '-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-permissive-provenance -Zmiri-ignore-leaks'


def miri(args, lo, hi, timeout=600):
    """Runs the probe in the interpreter, with the schedules of seeds lo..hi. Returns (exit, output)."""
    tdir = os.path.join(BUILD, 'target-miri')
    with _Lock('miri'):
        stamp = os.path.join(tdir, 'miri.srchash')
        h = source_hash()
        try:
            with open(stamp) as f:
                same = f.read() == h
        except OSError:
            same = False
        if not same:
            for d in (os.path.join(tdir, 'miri', TRIPLE, 'debug', '.fingerprint'), ):
                for x in os.listdir(d) if os.path.isdir(d) else ():
                    if x.startswith(('backpak-', 'probe-')):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
        e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO', 'RUST', 'MIRI'))}
        e.update(HOME='/root', PATH=PATH, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTFLAGS=CFG, XDG_CACHE_HOME=os.path.join(BUILD, 'cache'))

        def go(a, flags, t):
            p = subprocess.Popen(['cargo', '+nightly', 'miri', 'run', '--offline', '--locked', '--target-dir', tdir, '--'] + [str(x) for x in a],
                                 env=dict(e, MIRIFLAGS=MIRIFLAGS + flags), cwd=os.path.join(VERIF, 'miri'), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                out = p.communicate(timeout=t)[0].decode('utf-8', 'replace')
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                out = p.communicate()[0].decode('utf-8', 'replace')
                return None, out
            return p.returncode, out
        if not same:
            rc, out = go(['nothing'], '', 1500)
            if rc:
                raise RuntimeError('build for miri failed:\n' + out[-3000:])
            with open(stamp, 'w') as f:
                f.write(h)
        return go(args, ' -Zmiri-many-seeds=%d..%d' % (lo, hi), timeout)


def build_filt():
    out = os.path.join(BUILD, 'filt')
    src = os.path.join(VERIF, 'shim', 'filt.c')
    with _Lock('filt'):
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            subprocess.run(['gcc', '-O2', '-w', '-o', out, src], check=True, env=dict(PATH=PATH))
        return out


def build_shim():
    so = os.path.join(BUILD, 'shim.so')
    src = os.path.join(VERIF, 'shim', 'shim.c')
    with _Lock('shim'):
        if os.path.exists(so) and os.path.getmtime(so) >= os.path.getmtime(src):
            return so
        subprocess.run(['gcc', '-O1', '-w', '-fPIC', '-shared', '-o', so, src, '-ldl', '-lpthread'], check=True, env=dict(PATH=PATH))
        return so


# ---------------------------------------------------------------- processes

class Result:
    __slots__ = ('args', 'rc', 'out', 'err', 'hung', 'wall', 'cpu', 'why')

    def __init__(self, args, rc, out, err, hung, wall, cpu, why=''):
        self.args, self.rc, self.out, self.err, self.hung, self.wall, self.cpu, self.why = args, rc, out, err, hung, wall, cpu, why

    @property
    def stdout(self):
        return self.out.decode('utf-8', 'surrogateescape')

    @property
    def stderr(self):
        return self.err.decode('utf-8', 'surrogateescape')

    @property
    def panicked(self):
        return b'panicked at' in self.err or self.rc in (101, 134, -6, -11, -4, -8)

    def brief(self, n=2500):
        return 'exit %s of `%s`\nstdout: %s\nstderr: %s' % (self.rc, ' '.join(map(str, self.args)), self.stdout[-1200:], self.stderr[-n:])


def _threads_idle(pid):
    """No thread of the process is running or in an uninterruptible wait."""
    try:
        for t in os.listdir('/proc/%d/task' % pid):
            with open('/proc/%d/task/%s/stat' % (pid, t)) as f:
                if f.read().rsplit(')', 1)[1].split()[0] in 'RD':
                    return False
    except OSError:
        return False
    return True


def _cpu(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            p = f.read().rsplit(')', 1)[1].split()
        return (int(p[11]) + int(p[12]) + int(p[13]) + int(p[14])) / os.sysconf('SC_CLK_TCK')
    except OSError:
        return 0.0


def _wait(p, args, quiet_s=40, cpu_s=150, wall_s=600):
    """Waits for p, watching for a process that can never end: one whose threads all sleep while it makes no progress
    (blocked for quiet_s), or one that has burnt cpu_s seconds on a job that takes well under one."""
    start = time.monotonic()
    last_busy, last_cpu = start, -1.0
    delay = 0.002
    while True:
        try:
            p.wait(timeout=delay)
            return ''
        except subprocess.TimeoutExpired:
            pass
        delay = min(delay * 1.7, 0.5)
        now = time.monotonic()
        if now - start < 5:
            continue
        c = _cpu(p.pid)
        kids = _kids(p.pid)
        if not _threads_idle(p.pid) or c - last_cpu > 0.3 or any(not _threads_idle(k) for k in kids):
            last_busy, last_cpu = now, c
        if now - last_busy > quiet_s:
            return 'blocked'
        if c > cpu_s:
            return 'spinning'
        if now - start > wall_s:
            return 'timeout'


def _kids(pid):
    try:
        out = []
        for t in os.listdir('/proc/%d/task' % pid):
            with open('/proc/%d/task/%s/children' % (pid, t)) as f:
                out += [int(x) for x in f.read().split()]
        return out
    except OSError:
        return []


class Proc:
    """A running backpak."""

    def __init__(self, args, cwd, env, stdout=None):
        self.args = args
        self.o = stdout or tempfile.TemporaryFile()
        self.e = tempfile.TemporaryFile()
        self.start = time.monotonic()
        self.p = subprocess.Popen(args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=self.o, stderr=self.e, start_new_session=True)

    def poll(self):
        return self.p.poll()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def wait(self, **kw):
        why = _wait(self.p, self.args, **kw)
        if why:
            self.kill()
            self.p.wait()
        else:
            self.kill()     # whatever it left behind
        self.o.seek(0)
        self.e.seek(0)
        out, err = self.o.read(), self.e.read()
        self.o.close()
        self.e.close()
        return Result(self.args, self.p.returncode, out, err, bool(why), time.monotonic() - self.start, 0, why)


# ---------------------------------------------------------------- the check's context

class Ctx:
    """One run of one check: its seed, tier, time budget, binaries, scratch place, counters and verdicts."""

    def __init__(self, prop, level, quick_s, thorough_s):
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.quick = self.tier == 'quick'
        self.start = time.monotonic()
        self.budget = float(os.environ.get('BPV_BUDGET', 0)) or (quick_s if self.quick else thorough_s)
        self.hard = 780 if self.quick else max(3600, thorough_s * 3)
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
        self.scratch = tempfile.mkdtemp(prefix='bpv-', dir=base)
        os.chmod(self.scratch, 0o755)
        self.disk = tempfile.mkdtemp(prefix='bpv-', dir='/tmp')     # another file system than the scratch place, usually
        os.chmod(self.disk, 0o755)
        self.counts = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known = []
        self.inconclusive = []
        self.errors = []
        self.evaluations = 0
        self.rule = ''
        self.assumptions = []
        self.bins = {}
        self.shim = None

    def use(self, *flavors):
        for f in flavors:
            b = build(f)
            dst = os.path.join(self.scratch, 'bin-' + f)
            os.makedirs(dst)
            os.chmod(dst, 0o755)
            shutil.copy(b, dst)
            self.bins[f] = os.path.join(dst, os.path.basename(b))
            os.chmod(self.bins[f], 0o755)
        self.shim = os.path.join(self.scratch, 'shim.so')
        shutil.copy(build_shim(), self.shim)
        os.chmod(self.shim, 0o755)
        self.filt = os.path.join(self.scratch, 'filt')
        shutil.copy(build_filt(), self.filt)
        os.chmod(self.filt, 0o755)
        self.start_work = time.monotonic()

    def rng(self, *key):
        return random.Random('%s/%s/%s' % (self.seed, self.prop, '/'.join(map(str, key))))

    def time_left(self):
        return self.budget - (time.monotonic() - self.start_work)

    def cases(self, fn, items, workers=7, must=0, stop_after=4):
        """Runs fn(case, item) for each item in child processes that have dropped their privileges. Items after the
        first `must` are begun only while there is time left. Stops soon after a few violations."""
        items = list(itertools.islice(items, 100000))
        todo = list(enumerate(items))
        if os.environ.get('BPV_ONLY'):
            todo = [x for x in todo if str(x[0]) in os.environ['BPV_ONLY'].split(',')]
            must = len(items)
        running = {}
        nviol = 0
        while todo or running:
            while todo and len(running) < workers and nviol < stop_after:
                i, item = todo[0]
                if i >= must and self.time_left() <= 0:
                    todo = []
                    break
                if time.monotonic() - self.start > self.hard:
                    todo = []
                    break
                todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    code = 0
                    try:
                        self._child(fn, i, item, w)
                    except BaseException:
                        traceback.print_exc()
                        code = 1
                    finally:
                        os._exit(code)
                os.close(w)
                running[r] = (pid, i, item, [])
            if nviol >= stop_after:
                todo = []
            if not running:
                break
            import select
            ready, _, _ = select.select(list(running), [], [], 1.0)
            for r in ready:
                pid, i, item, buf = running[r]
                b = os.read(r, 1 << 20)
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                try:
                    res = json.loads(b''.join(buf))
                except ValueError:
                    res = dict(error='case %s ended without a result' % (item,))
                nviol += self._take(i, item, res)
        return nviol

    def _child(self, fn, i, item, w):
        os.setsid()
        name = '%s-%d-%d' % (fn.__name__, i, os.getpid())
        place = os.path.join(self.scratch, name)
        os.mkdir(place)
        os.mkdir(os.path.join(self.disk, name))
        for d in (place, os.path.join(self.disk, name)):
            os.chown(d, NOBODY, NOBODY)
            os.chmod(d, 0o755)
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
        os.umask(0o022)
        os.environ['HOME'] = place
        signal.alarm(int(max(120, self.hard)))
        case = Case(self, place, os.path.join(self.disk, name), self.rng(fn.__name__, i, json.dumps(item, default=str)))
        res = {}
        try:
            fn(case, item)
        except Violation as v:
            res['violation'] = dict(msg=str(v), info={k: repr(x)[:3000] for k, x in v.info.items()}, steps=case.steps[-60:])
        except Inconclusive as v:
            res['inconclusive'] = str(v)
        except Exception:
            res['error'] = traceback.format_exc()[-3000:] + '\nsteps: %s' % case.steps[-5:]
        res.update(counts=case.counts, distinct=sorted(case.distinct), samples=case.samples[:2], evaluations=case.evaluations,
                   known=case.known, incs=case.incs)
        data = json.dumps(res, default=str).encode('utf-8', 'surrogateescape')
        while data:
            n = os.write(w, data)
            data = data[n:]
        case.clean()

    def _take(self, i, item, res):
        for k, v in res.get('counts', {}).items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.distinct.update(res.get('distinct', []))
        self.evaluations += res.get('evaluations', 0)
        for s in res.get('samples', []):
            if len(self.samples) < 6:
                self.samples.append(s)
        for k in res.get('known', []):
            if k not in self.known:
                self.known.append(k)
        self.inconclusive += res.get('incs', [])
        if 'error' in res:
            self.errors.append((str(item)[:300], res['error']))
        if 'inconclusive' in res:
            self.inconclusive.append(res['inconclusive'])
        if 'violation' in res:
            v = res['violation']
            v['case'] = str(item)[:500]
            self.violations.append(v)
            return 1
        return 0

    # -------------------------------------------------- verdict

    def finish(self):
        for d in (self.scratch, self.disk):
            _rmtree(d)
        wall = time.monotonic() - self.start
        cov = dict(self.counts)
        cov.update(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples or [dict(note='no sample')], inconclusive=len(self.inconclusive),
                   inconclusive_why=sorted(set(self.inconclusive))[:5], harness_errors=len(self.errors))
        if self.level == 'other':
            cov['explanation'] = self.rule
        if self.known:
            cov['known_findings_seen'] = self.known
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        edir = os.path.join(VERIF, 'evidence')
        os.makedirs(edir, exist_ok=True)
        tmp = os.path.join(edir, '.%s.tmp' % self.prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        os.replace(tmp, os.path.join(edir, self.prop + '.json'))
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if self.violations:
            rdir = os.path.join(edir, 'replay')
            os.makedirs(rdir, exist_ok=True)
            for n, v in enumerate(self.violations[:8]):
                path = os.path.join(rdir, '%s-%s-%d-%d.json' % (self.prop, self.tier, self.seed, n))
                v.update(property=self.prop, seed=self.seed, tier=self.tier,
                         replay='VERIF_SEED=%d VERIF_TIER=%s python3 mon/run.py %s' % (self.seed, self.tier, self.prop))
                with open(path, 'w') as f:
                    json.dump(v, f, indent=1, default=str)
                print('%s: %s' % (v['case'], v['msg'][:5000].encode('utf-8', 'replace').decode()))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        for item, e in self.errors[:3]:
            print('harness error in %s:\n%s' % (item, e), file=sys.stderr)
        if self.errors:
            return 3
        if self.evaluations == 0 or len(self.inconclusive) > max(3, self.evaluations // 3):
            print('inconclusive: %d of %d: %s' % (len(self.inconclusive), self.evaluations, self.inconclusive[:3]), file=sys.stderr)
            return 3
        print('%s held on %d evaluations (%d distinct), %.1f s' % (self.prop, self.evaluations, len(self.distinct), wall))
        return 0


def _rmtree(d):
    if not d.startswith(('/dev/shm/bpv-', '/tmp/bpv-')):
        return
    shutil.rmtree(d, ignore_errors=True)


SANITIZED = re.compile(rb'(WARNING|ERROR): (Thread|Address|Leak|Memory)Sanitizer|runtime error: ')


class Case:
    """One case's place on disk and what it has seen."""

    def __init__(self, ctx, place, disk, rng):
        self.ctx, self.place, self.disk, self.rng = ctx, place, disk, rng
        self.counts, self.distinct, self.samples, self.steps = {}, set(), [], []
        self.evaluations = 0
        self.known, self.incs = [], []
        self.quick = ctx.quick
        self._n = 0
        self.flavor, self.wrap = None, []       # for every command of the case
        self.env0 = dict(PATH='/usr/bin:/bin', HOME=os.path.join(place, 'home'), LANG='C.UTF-8', RUST_BACKTRACE='0')
        os.makedirs(self.env0['HOME'], exist_ok=True)

    def clean(self):
        for d in (self.place, self.disk):
            for root, dirs, _ in os.walk(d):
                for x in dirs:
                    try:
                        if not os.path.islink(os.path.join(root, x)):
                            os.chmod(os.path.join(root, x), 0o700)
                    except OSError:
                        pass
            _rmtree(d)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def see(self, *key):
        """Records a distinct thing that was observed."""
        self.distinct.add('|'.join(map(str, key))[:200])

    def eval(self, n=1):
        self.evaluations += n

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(kw)

    def path(self, *p):
        return os.path.join(self.place, *p)

    def mkdir(self, *p):
        d = os.path.join(self.place, *p)
        os.makedirs(d, exist_ok=True)
        return d

    def fresh(self, stem):
        self._n += 1
        return self.mkdir('%s%d' % (stem, self._n))

    def step(self, s):
        self.steps.append(s)

    # -------------------------------------------------- running backpak

    def env(self, extra=None, shim=None):
        e = dict(self.env0)
        if shim is not None:
            e['LD_PRELOAD'] = self.ctx.shim
            e['BPV_EXE'] = 'backpak'
            e.update({k: str(v) for k, v in shim.items()})
        if extra:
            e.update(extra)
        return e

    def argv(self, repo, args, config='', flavor='main', glob=()):
        a = [self.ctx.bins[flavor]]
        if config is not None:
            a += ['--config', config]
        return a + list(glob) + ['-r', str(repo)] + [str(x) for x in args]

    def start(self, repo, *args, cwd=None, env=None, shim=None, config='', flavor='main', glob=(), stdout=None):
        a = self.wrap + self.argv(repo, args, config, self.flavor or flavor, glob)
        self.step('%s (in %s)%s' % (' '.join(a[1:]), cwd or 'wd', ' shim=%s' % shim if shim else ''))
        self.count('commands run')
        return Proc(a, cwd or self.mkdir('wd'), self.env(env, shim), stdout)

    def run(self, repo, *args, **kw):
        """Runs a command to its end. A hang is a violation whatever the property."""
        wait = kw.pop('wait', {})
        r = self.start(repo, *args, **kw).wait(**wait)
        if SANITIZED.search(r.err) or self.wrap and r.rc == 77:
            raise Violation('a sanitizer reports: ' + r.brief(6000))
        if r.hung and r.why != 'timeout':
            raise Violation('the command never ends (%s): %s' % (r.why, r.brief()))
        if r.hung:
            raise Inconclusive('timeout of %s' % (r.args,))
        return r

    def ok(self, repo, *args, **kw):
        """Runs a command that has to succeed."""
        r = self.run(repo, *args, **kw)
        if r.rc != 0:
            raise Violation('command failed that had to succeed: ' + r.brief())
        return r

    def fails(self, repo, *args, **kw):
        """Runs a command that has to fail, with an error rather than a panic."""
        r = self.run(repo, *args, **kw)
        if r.rc == 0:
            raise Violation('command succeeded that had to fail: ' + r.brief())
        if r.panicked or r.rc != 1 and not kw.get('anyrc'):
            if not (r.rc == 2 and b'Usage' in r.err or b'error:' in r.err):
                raise Violation('command crashed rather than report an error: ' + r.brief())
        return r

    def clean_fail(self, r):
        """r may fail, but only with an error."""
        if r.panicked or r.rc < 0:
            raise Violation('command crashed: ' + r.brief())


def known_finding(prop, sig):
    """Whether known-findings.txt lists this signature as an open finding of this property."""
    try:
        with open(os.path.join(VERIF, 'known-findings.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('open: property=%s ' % prop) and ('[%s]' % sig) in line:
                    return True
    except OSError:
        pass
    return False

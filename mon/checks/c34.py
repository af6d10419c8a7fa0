"""C34: what a command uses of memory, descriptors, threads, processes and temporary space does not grow with the data."""
import errno
import os
import re
import time

import fmt
import tree
from core import Violation, build_filt
from world import World, freeze_atimes

LEVEL = 'exploration'
BUDGET = (50, 500)
RULE = ('Repositories with much data, big files, many files and directories, hundreds of packs, hundreds of snapshots, and with filters and storage slower than the rest, go through every command; meanwhile /proc is '
        'looked at every few milliseconds: memory of its own, open descriptors, threads, children (dead ones not waited for too), size and number of files in the working directory. Each has a bound '
        'that depends on the number of CPUs and the pack size, not on the data (which is several times more). After each command, failed ones too, no process of its may be left. Reads of packs '
        'are counted from a log of the calls: restoring or verifying what one backup stored opens each pack once or few times. Distinct: (command, kind of repository, peaks in classes).')
CPUS = os.cpu_count() or 8
MB = 1 << 20


class Peak:
    def __init__(self):
        self.v = dict(memory=0, descriptors=0, threads=0, children=0, space=0, files=0)
        self.samples = 0

    def up(self, k, n):
        if n > self.v[k]:
            self.v[k] = n


def look(pid, cwd, peak, deep):
    try:
        with open('/proc/%d/status' % pid) as f:
            s = f.read()
        m = re.search(r'RssAnon:\s+(\d+)', s)
        if not m:
            return
        peak.up('memory', int(m.group(1)) * 1024)
        peak.up('threads', int(re.search(r'Threads:\s+(\d+)', s).group(1)))
        peak.up('descriptors', len(os.listdir('/proc/%d/fd' % pid)))
        if deep:
            n = 0
            for t in os.listdir('/proc/%d/task' % pid):
                try:
                    with open('/proc/%d/task/%s/children' % (pid, t)) as f:
                        n += len(f.read().split())
                except OSError:
                    pass
            peak.up('children', n)
        peak.samples += 1
    except (OSError, AttributeError):
        pass
    total = n = 0
    try:
        for x in os.scandir(cwd):
            try:
                total += x.stat().st_size
                n += 1
            except OSError:
                pass
    except OSError:
        pass
    peak.up('space', total)
    peak.up('files', n)


def left_behind(pgrp):
    out = []
    for p in os.listdir('/proc'):
        if not p.isdigit():
            continue
        try:
            with open('/proc/%s/stat' % p) as f:
                a, b = f.read().rsplit(')', 1)
            b = b.split()
            if int(b[2]) == pgrp and int(p) != pgrp and b[0] != 'Z':
                out.append(a)
        except (OSError, IndexError, ValueError):
            pass
    return out


class Watched:
    def __init__(self, c, w, kind, target):
        self.c, self.w, self.kind = c, w, kind
        self.bound = dict(memory=180 * MB + 6 * target, descriptors=64 + 8 * CPUS, threads=64 + 4 * CPUS, children=16 + 2 * CPUS,
                          # Packs being written, finished and sent, each up to a chunk over, in the works of two packers
                          space=6 * target + 40 * MB, files=24)

    def __call__(self, *args, ok=True, w=None, shim=None, data=0, env=None):
        c, w = self.c, w or self.w
        peak = Peak()
        p = c.start(w.repo, *args, cwd=w.cwd, config=w.config, shim=shim, env=env)
        t = 0
        end = time.monotonic() + 300
        while p.poll() is None and time.monotonic() < end:
            look(p.p.pid, w.cwd, peak, t % 3 == 0)
            t += 1
            time.sleep(0.002)
        for _ in range(150):
            left = left_behind(p.p.pid)
            if not left:
                break
            time.sleep(0.03)
        if left and p.poll() is not None:
            raise Violation('%s has ended and left processes behind: %s' % (args[0], left))
        r = p.wait()
        if r.panicked or r.hung:
            raise Violation('command crashed: ' + r.brief())
        if ok and r.rc:
            raise Violation('command failed that had to succeed: ' + r.brief())
        for k, n in peak.v.items():
            if n > self.bound[k]:
                raise Violation('%s used %d of %s; %d is plenty for a repository like this (%s)' % (args[0], n, k, self.bound[k], self.kind), peaks=peak.v)
        c.count('looks at running commands', peak.samples)
        c.count('most %s of %s: ' % ('memory', args[0]) + ('below 32 MB' if peak.v['memory'] < 32 * MB else 'below 100 MB' if peak.v['memory'] < 100 * MB else 'above'))
        c.see(args[0], self.kind, 'memory %d' % (peak.v['memory'] // (32 * MB)), 'descriptors %d' % (peak.v['descriptors'] // 16), 'children %d' % (peak.v['children'] // 4), r.rc)
        c.eval()
        self.peak = peak
        return r


def opens(log):
    """How often each pack was opened for reading, in the repository or in the cache."""
    n = {}
    with open(log, errors='replace') as f:
        for l in f:
            l = l.split('\t')
            if l[4] == 'open_r' and int(l[5]) >= 0:
                m = re.search(r'([0-9a-v]{45})\.pack$', l[8])
                if m:
                    n[m.group(1)] = n.get(m.group(1), 0) + 1
    return n


def fill(c, kind, d):
    r = c.rng
    big = 1 if c.quick else 2
    if kind == 'data':
        for i in range(140 * big):
            tree.write(os.path.join(d, 'd%d' % (i % 7), 'f%03d' % i) if os.path.isdir(os.path.join(d, 'd%d' % (i % 7))) or not os.makedirs(os.path.join(d, 'd%d' % (i % 7))) else '', r.randbytes(r.randrange(MB, 3 * MB)))
    elif kind == 'big':
        with open(os.path.join(d, 'big'), 'wb') as f:
            for i in range(420 * big):
                f.write(r.randbytes(MB))
        tree.write(os.path.join(d, 'small'), b'x')
    elif kind == 'packs':
        for i in range(450 * big):
            tree.write(os.path.join(d, 'f%04d' % i), r.randbytes(r.randrange(20000, 26000)))
    elif kind == 'files':
        for i in range(60 * big):
            e = os.path.join(d, 'd%02d' % i)
            os.makedirs(e)
            for k in range(50):
                tree.write(os.path.join(e, 'f%d' % k), b'%d %d' % (i, k))
            os.symlink('x', os.path.join(e, 'l'))


def case(c, item):
    kind, filt, k = item
    if kind == 'linger':
        return linger(c, item)
    r = c.rng
    target, size = dict(data=(5 * 10 ** 6, '5MB'), big=(5 * 10 ** 6, '5MB'), packs=(20000, '20KB'), files=(20000, '20KB'), snapshots=(20000, '20KB'))[kind]
    filters = None
    if filt == 'cat':
        filters = ('cat', 'cat', 'cat')
    elif filt == 'slow':
        # Storing is much slower than reading and compressing.
        filters = ('slow', 'sleep 0.03; cat', 'cat')
    cached = r.random() < 0.3
    w = World(c, pack_size=size, filt=filters, cached=cached)
    run = Watched(c, w, kind, target)
    d = c.mkdir('s', 'top')
    if kind == 'snapshots':
        many(c, w, run, d)
        return
    fill(c, kind, d)
    freeze_atimes(d)
    slow = dict(BPV_DELAY='%d:%d:%d' % (r.getrandbits(30), 3000, 30)) if filt == 'delayed' else None
    run('backup', '-n', d)
    run('backup', d, shim=slow)
    c.count('peak of files in the working directory of backups', run.peak.v['files'])
    packs = [fmt.name_of(p) for p in w.open(streams=False).packs]
    c.count('packs stored', len(packs))
    c.count('megabytes backed up', sum(os.path.getsize(os.path.join(a, f)) for a, _, fs in os.walk(d) for f in fs if not os.path.islink(os.path.join(a, f))) // MB)
    out = c.mkdir('out')
    log = c.path('log')
    run('restore', '-t', '-p', '-o', out, 'LAST', shim=dict(BPV_LOG=log, BPV_LOG_READS='1', BPV_SCOPE=w.repo + ':' + os.path.join(c.env0['HOME'], '.cache')))
    n = opens(log)
    if set(n) != set(packs):
        raise Violation('a restore of all there is opens %d packs of %d' % (len(n), len(packs)))
    worst = max(n.values())
    if worst > (5 if filt or cached else 3):
        raise Violation('a restore of what one backup stored opens a pack %d times' % worst)
    c.count('packs whose reads were counted', len(n))
    c.count('most often one was opened in a restore: %d' % worst)
    tree.wipe(out)
    os.unlink(log)
    run('check', '-r')
    run('ls', 'LAST')
    run('backup', d)
    run('snapshots', '-s')
    run('snapshots', '-f')
    run('snapshots', '--stat')
    run('diff', 'LAST')
    names = sorted(os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs)
    if kind == 'big':
        run('dump', '-o', c.path('dumped'), 'LAST', 'top/big')
        os.unlink(c.path('dumped'))
    else:
        run('dump', '-o', c.path('dumped'), 'LAST', 'top')
        for f in names[::2]:
            os.unlink(f)
    run('backup', '--allow-repeat', d)
    run('diff', '-m', 'LAST', 'LAST~')
    dst = World(c, name='dst', pack_size=size)
    run('copy', '-t', dst.repo, 'LAST')
    tree.wipe(dst.repo)
    run('filter-snapshot', '-s', '[13]$', 'LAST')
    run('rebuild-index')
    run('usage')
    run('forget', 'DUPLICATES')
    if len(w.snap_files()) > 1:
        run('forget', 'LAST~')
    run('prune', '-n')
    run('prune', shim=slow)
    run('check', '-r')
    # Commands that fail midway.
    R = w.open(streams=False)
    p = os.path.join(w.repo, 'packs', fmt.name_of(sorted(R.packs)[len(R.packs) // 2]) + '.pack')
    with open(p, 'r+b') as f:
        f.seek(12)
        f.write(b'\0\0\0\0garbage')
    for a in (['check', '-r'], ['restore', '-o', c.mkdir('out2'), 'LAST'], ['rebuild-index']):
        res = run(*a, ok=False)
        c.count('commands that failed midway', res.rc != 0)
    tree.wipe(c.path('out2'))
    c.sample(kind=kind, filter=filt, packs=len(packs), peaks=run.peak.v)


LINGER = 'x=$(mktemp); cat > $x; if head -c 8 $x | grep -q $LINGER; then cat $x; rm $x; exec sleep 8; fi; cat $x; rm $x'


def linger(c, item):
    """A filter that gives all there is but takes its time to end: whoever has what it wants must not leave it behind."""
    r = c.rng
    w = World(c, pack_size='1MB', filt=('linger', 'cat', 'cat'))
    run = Watched(c, w, 'linger', 10 ** 6)
    d = c.mkdir('s', 'top')
    for k in range(4):
        tree.write(os.path.join(d, 'f%d' % k), r.randbytes(r.choice([10, 5000, 60000])))
    freeze_atimes(d)
    run('backup', d)
    p = os.path.join(w.repo, 'config.toml')
    s = open(p).read()
    assert "unfilter = '''cat'''" in s
    with open(p, 'w') as f:
        f.write(s.replace("unfilter = '''cat'''", "unfilter = '''%s'''" % LINGER))
    tree.wipe(os.path.join(c.env0['HOME'], '.cache')) if os.path.exists(os.path.join(c.env0['HOME'], '.cache')) else None
    R = w.open(streams=False)
    i = fmt.name_of(r.choice(sorted(R.blobs)))
    cmds = [('dump', '-o', c.path('o'), 'LAST', 'top/f0'), ('cat', 'blob', i), ('ls', 'LAST'), ('restore', '-o', c.mkdir('out'), 'LAST'), ('diff', 'LAST'), ('backup', '--allow-repeat', d)]
    cache = os.path.join(c.env0['HOME'], '.cache')
    for k, a in enumerate(r.sample(cmds, 4 if c.quick else 6)):
        # Nobody waits for the rest when what they do with it fails.
        if k != 1:
            tree.wipe(cache) if os.path.exists(cache) else None
            res = run(*a, ok=False, env=dict(LINGER='MKBAK'), shim=dict(BPV_SCOPE=cache, BPV_FAIL_FUNC='write', BPV_FAIL_SUB='.part', BPV_FAIL_ERR=errno.ENOSPC, BPV_FAIL_NTH=r.choice([1, 1, 2]), BPV_FAIL_PERSIST='1'))
            c.count('commands that gave up on a filter' if res.rc else 'commands that did not need a filter')
        else:
            run(*a, env=dict(LINGER='MKBAKPAK'))
            c.count('commands with filters that linger')
    c.sample(kind='linger')


def many(c, w, run, d):
    """Hundreds of snapshots and indexes."""
    r = c.rng
    tree.write(os.path.join(d, 'f'), b'start')
    run('backup', d)
    R = w.open()
    (s,) = R.snaps.values()
    enc = (lambda b: fmt.run_filter(w.filt[1], b)) if w.filt else (lambda b: b)
    packs = {}
    for i in range(300 if c.quick else 1200):
        b = r.randbytes(30)
        g, data, man = fmt.make_pack([('chunk', b)])
        fmt.put(w.repo, 'pack', g, enc(data) if w.filt else data)
        x, data = fmt.make_index({g: man})
        fmt.put(w.repo, 'index', x, enc(data) if w.filt else data)
        x, data = fmt.make_snapshot_v1('2019-05-06T%02d:%02d:%02d+00:00' % (i // 3600, i // 60 % 60, i % 60), 'a%d' % i, [], s.paths, s.tree)
        fmt.put(w.repo, 'snapshot', x, enc(data) if w.filt else data)
    for a in (['snapshots'], ['snapshots', '--stat'], ['snapshots', '-s'], ['snapshots', '-f'], ['usage'], ['check'], ['check', '-r'], ['ls', 'LAST~7'], ['diff', 'LAST~7', 'LAST'], ['backup', '--allow-repeat', d], ['rebuild-index'],
              ['forget', 'DUPLICATES'], ['prune'], ['check', '-r']):
        run(*a)
    dst = World(c, name='dst', pack_size='20KB')
    run('copy', '--all', '-t', dst.repo)
    c.sample(kind='snapshots')


def run(ctx):
    items = [('big', None, 0), ('data', 'slow', 0), ('packs', 'cat', 0), ('packs', 'slow', 0), ('snapshots', 'cat', 0), ('files', 'cat', 0), ('data', 'delayed', 0), ('linger', None, 0), ('packs', None, 0), ('snapshots', None, 0)]
    items += [(('data', 'packs', 'files', 'snapshots', 'packs', 'data', 'big', 'linger')[k % 8], (None, 'cat', 'slow', 'delayed', 'cat')[k % 5], k) for k in range(1, 200)]
    ctx.cases(case, items, must=9)

"""C12: an I/O failure is reported and leaves the repository consistent."""
import errno
import os

import c05
import c06
import crash
import fmt
import tree
from core import Violation
from ops import filtered
from world import World, sources

LEVEL = 'fault_enumeration'
BUDGET = (45, 1200)
RULE = ('For each scenario (a command on a repository with a history) its file-system calls are recorded, then it is rerun from the same state with one of them made to fail '
        '(each mutation, and a sample of the reads, directory listings, stats and maps; no space, I/O error, permission, cross-device; once or from there on; writes possibly half done). '
        'If the command reports success its result is compared with the full result, else with the state before; then it is repeated without the fault and the result compared again. '
        'Distinct: (command, call and kind of file, error, outcome).')
ASSUMES = ['failures of standard output are not injected', 'errors are those a file system gives; ENOENT for what exists is not']

COMMANDS = ['backup', 'prune', 'restore', 'copy', 'backup', 'rebuild-index', 'backup', 'filter-snapshot', 'forget', 'restore', 'backup']
ERRS = {'write': ['ENOSPC', 'EIO'], 'open_w': ['EACCES', 'ENOSPC', 'EMFILE'], 'open_r': ['EACCES', 'EIO', 'EMFILE'], 'rename': ['EXDEV', 'EIO', 'EACCES', 'ENOSPC'], 'fsync': ['EIO', 'ENOSPC'],
        'link': ['EACCES', 'EPERM'], 'unlink': ['EACCES', 'EIO'], 'mkdir': ['ENOSPC', 'EACCES'], 'symlink': ['ENOSPC', 'EACCES'], 'stat': ['EACCES', 'EIO'],
        'read': ['EIO'], 'readdir': ['EIO'], 'opendir': ['EACCES', 'EMFILE'], 'mmap': ['ENOMEM'], 'ftruncate': ['EIO'], 'chmod': ['EPERM'], 'utimens': ['EPERM', 'EIO']}


class Job:
    """A command to be repeated with faults, the places it works on, and what it has to have done."""

    def dirs(self):
        return [self.w.repo, self.w.cwd, self.c.env0['HOME']]


class Backup(Job):
    def __init__(self, c, seed):
        self.c = c
        self.w, self.paths, self.flags = c05.setup(c, seed)
        self.args = ['backup'] + self.flags + self.paths
        self.want = tree.source(self.paths)
        self.scope = [self.w.repo, self.w.cwd] + self.paths

    def check(self, done):
        R, new = crash.holds(self.w, may=lambda i, got, R: not tree.differences(self.want, got))
        if done and not new:
            raise Violation('the backup reports success but there is no snapshot of the sources')
        if not done and False:
            raise Violation('')
        return R


class C06Job(Job):
    def __init__(self, c, seed, cmd):
        self.c = c
        s = [k for k in range(400) if c06.COMMANDS[k % len(c06.COMMANDS)] == cmd][seed]
        self.cmd, self.w, self.dst, src, self.args, self.named = c06.setup(c, s)
        w, m = self.w, self.w.model
        self.scope = [w.repo, w.cwd] + ([self.dst.repo] if self.dst else [])
        self.keep, self.keepd = dict(m), None
        self.src_want, self.dst_want = list(m.values()), None
        if cmd == 'forget':
            self.keep = {i: e for i, e in m.items() if i not in self.named}
            self.src_want = list(self.keep.values())
        elif cmd == 'filter-snapshot':
            (i, pats), = self.named
            new = filtered(m[i], pats)
            self.src_want += [new] if new != m[i] else []
        elif cmd == 'copy':
            self.keepd = dict(self.dst.model)
            self.dst_want = list(self.keepd.values()) + [filtered(m[i], pats) for i, pats in self.named]

    def dirs(self):
        return Job.dirs(self) + ([self.dst.repo] if self.dst else [])

    def check(self, done):
        R, new, D, dnew = c06.state(self.w, self.dst, self.cmd, self.keep, self.src_want, self.keepd, self.dst_want)
        if not done:
            return R
        if R is None:
            raise Violation('the index was to be rebuilt, but blobs are in no index')
        c06.same_snaps(R, self.src_want, self.cmd)
        if self.cmd == 'prune':
            need = R.reach_all()
            junk = [b for m in R.indexed.values() for _, _, b in m if b not in need]
            if junk:
                raise Violation('prune reports success, but %d blobs no snapshot needs are indexed' % len(junk))
            if self.first and (set(R.packs) != set(R.indexed) or R.superseded):
                raise Violation('prune reports success, but packs or indexes it replaced are left')
        if self.cmd == 'rebuild-index' and (set(R.indexed) != set(R.packs) or self.first and len(R.indexes) != 1):
            raise Violation('rebuild-index reports success, but left %d indexes, %d of %d packs indexed' % (len(R.indexes), len(R.indexed), len(R.packs)))
        if D:
            c06.same_snaps(D, self.dst_want, 'copy')
        return R


class Restore(Job):
    def __init__(self, c, seed):
        self.c = c
        self.w, self.paths, self.flags = c05.setup(c, seed)
        r = c.ctx.rng('restore', seed)
        w = self.w
        i = r.choice(sorted(w.model))
        self.i = i
        R = w.open()
        self.out = c.mkdir('out')
        if r.random() < 0.6:
            j = r.choice(sorted(w.model))
            if R.snaps[j].paths == R.snaps[i].paths:
                w.restored(j, into=self.out)
                for d, ds, fs in os.walk(self.out):
                    os.chmod(d, 0o755)
                    for f in fs:
                        if not os.path.islink(os.path.join(d, f)):
                            os.chmod(os.path.join(d, f), 0o644)
        self.args = ['restore', '-d', '-t', '-p', '-o', self.out, fmt.name_of(i)]
        self.base = os.path.basename(R.snaps[i].paths[0])
        self.many = len(R.snaps[i].paths) > 1
        self.scope = [w.repo, w.cwd, self.out]
        self.shared = tree.hardlinked(self.out)

    def dirs(self):
        return Job.dirs(self) + [self.out]

    def check(self, done):
        R = self.w.verify(R=self.w.open())
        if done:
            got = {}
            if self.many:
                for n in sorted(os.listdir(self.out)):
                    tree.capture(os.path.join(self.out, n), into=got, prefix=n)
            else:
                tree.capture(self.out, into=got, prefix=self.base)
            d = tree.differences(self.w.model[self.i], got, mode=not self.shared, mtime=not self.shared)
            if d:
                raise Violation('the restore reports success, but %s' % d)
        return R


def job(c, seed):
    cmd = COMMANDS[seed % len(COMMANDS)]
    n = seed // len(COMMANDS) + COMMANDS[:seed % len(COMMANDS)].count(cmd) * 3
    if cmd == 'backup':
        return cmd, Backup(c, n)
    if cmd == 'restore':
        return cmd, Restore(c, n)
    return cmd, C06Job(c, n % 30, cmd)


def scenario(c, item):
    seed, part, parts = item
    r0 = c.ctx.rng('points', seed)
    cmd, j = job(c, seed)
    w = j.w
    T = crash.Template(c, j.dirs())
    log = c.path('log')
    scope = ':'.join(j.scope + ([c.env0['HOME']] if seed % 4 == 3 else []))
    j.first = True
    w.ok(*j.args, shim=dict(BPV_LOG=log, BPV_SCOPE=scope, BPV_LOG_READS='1'))
    j.check(True)
    ops = crash.read_log(log)
    c.count('operations in recorded runs', len(ops))
    ws = [(k, m) for k, m in crash.points([o for o in ops if o.kind == 'W'], r0) if m != 'after']
    byw = {o.idx: o for o in ops if o.kind == 'W'}
    byr = {o.idx: o for o in ops if o.kind == 'R'}
    pts = []
    for k, m in ws:
        e = ERRS.get(byw[k].fn, ['EIO'])
        if m == 'partial':
            pts.append(('w', k, 'ENOSPC', True))
        else:
            pts.append(('w', k, r0.choice(e), False))
            if byw[k].fn in ('rename', 'unlink'):
                pts.append(('w', k, r0.choice(e), False))
    # Reads: the first of each kind of file by each call, and a sample of the rest.
    seen, rest = set(), []
    for k in sorted(byr):
        o = byr[k]
        key = (o.fn, crash.kind_of(o.p1), os.path.basename(o.p1) if o.fn == 'open_r' else '')
        (rest.append(k) if key in seen else pts.append(('r', k, r0.choice(ERRS.get(o.fn, ['EIO'])), False)))
        seen.add(key)
    r0.shuffle(rest)
    for k in rest[:25 if c.quick else 400]:
        pts.append(('r', k, r0.choice(ERRS.get(byr[k].fn, ['EIO'])), False))
    for n, (rw, k, e, partial) in enumerate(pts):
        if n % parts != part:
            continue
        if n // parts > 2 and c.ctx.time_left() < 0:
            break
        T.back()
        o = (byw if rw == 'w' else byr)[k]
        persist = (seed + n) % 5 == 0
        sh = dict(BPV_LOG=log + str(n), BPV_SCOPE=scope, BPV_FAIL_AT='%s:%d' % (rw, k), BPV_FAIL_ERR=getattr(errno, e))
        if partial:
            sh['BPV_FAIL_PARTIAL'] = '1'
        if persist:
            sh['BPV_FAIL_PERSIST'] = '1'
        if cmd in ('prune', 'rebuild-index') or n % 4 == 0:
            # The thread that fails takes its time to end the others.
            sh['BPV_EXIT_DELAY'] = '30'
        c.steps.clear()
        c.step('scenario %d (%s), %s:%d fails with %s%s (%s)' % (seed, cmd, rw, k, e, ' and all like it after' if persist else '', o))
        p = w.run(*j.args, shim=sh)
        wl = crash.read_log(log + str(n))
        fl = [x for x in wl if x.kind in ('WF', 'RF')]
        os.unlink(log + str(n))
        if p.rc < 0:
            raise Violation('%s crashed when %s failed with %s: %s' % (cmd, fl[:1], e, p.brief()))
        if p.panicked:
            c.count('faults reported by a panic')
            c.see('panic', cmd, crash.situation(fl[0]) if fl else '', e)
        c.count('faults injected', len(fl))
        c.count('faults coped with' if p.rc == 0 and fl else 'faults reported')
        if fl:
            c.see(cmd, crash.situation(fl[0]), e, 'coped' if p.rc == 0 else 'failed')
        j.first = True
        if p.rc == 0:
            for x in fl:
                if x.fn == 'fsync' and not x.p1.startswith(c.env0['HOME']) and not any(y.fn == 'fsync' and y.ino == x.ino and y.seq > x.seq and not y.err for y in wl):
                    raise Violation('%s reports success though %s was never on disk: %s' % (cmd, x.p1, p.brief()))
            if cmd != 'restore':
                crash.cwd_ok(w.cwd, empty=True)
        try:
            j.check(p.rc == 0)
        except Violation as v:
            raise Violation('%s when %s failed with %s and the command ended with %d: %s\n%s' % (cmd, fl[:1], e, p.rc, v, p.brief()))
        # Without the fault.
        j.first = False
        if cmd == 'forget':
            left = [a for a in j.args[1:] if a in w.snap_files()]
            p2 = w.run('forget', *left) if left else p
            p2rc = p2.rc if left else 0
        elif cmd == 'filter-snapshot' and len(w.snap_files()) == len(j.src_want):
            p2, p2rc = p, 0
        else:
            p2 = w.run(*j.args)
            p2rc = p2.rc
        if p2rc:
            raise Violation('%s cannot be repeated after %s failed with %s: %s' % (cmd, fl[:1], e, p2.brief()))
        try:
            R = j.check(True)
        except Violation as v:
            raise Violation('%s repeated after %s failed with %s: %s' % (cmd, fl[:1], e, v))
        if c.rng.random() < 0.1:
            w.ok('check', '-r')
        c.eval()
    c.sample(command=j.args, points=len(pts))


def unreadable(c, item):
    """A source that really cannot be read."""
    r = c.rng
    w = World(c, pack_size='20KB')
    src = os.path.join(c.mkdir('s'), 'top')
    tree.Gen(r, src, size='small', modes=False)
    i = w.backup([src])
    fs, ds, ls = tree._all(src)
    kind = item[0]
    extra = os.path.join(src, 'zz')
    tree.write(extra, r.randbytes(r.choice([0, 10, 600000, 11 << 20])))
    victim = extra
    if kind == 'file':
        os.chmod(extra, 0o000)
    elif kind == 'dir':
        victim = os.path.join(src, 'locked')
        os.mkdir(victim)
        os.chmod(victim, 0o000)
    elif kind == 'dir-x':
        victim = os.path.join(src, 'locked')
        os.mkdir(victim)
        tree.write(os.path.join(victim, 'f'), b'x')
        os.chmod(victim, 0o600)
    elif kind == 'dangling':
        os.symlink('/nonexistent/x', os.path.join(src, 'dangling'))
    elif kind == 'loop':
        os.symlink('loop', os.path.join(src, 'loop'))
    elif kind == 'missing':
        pass
    args = ['backup'] + (['-L'] if kind in ('dangling', 'loop') else []) + [src]
    if kind == 'missing':
        args.append(os.path.join(src, 'no such'))
    p = w.run(*args)
    c.clean_fail(p)
    if p.rc == 0:
        raise Violation('the backup reports success though %s cannot be read: %s' % (victim, p.brief()))
    R, new = crash.holds(w)
    # The same when it is skipped, or put right.
    if kind in ('file', 'dir', 'dir-x', 'dangling', 'loop') and kind != 'missing':
        name = {'file': 'zz', 'dir': 'locked', 'dir-x': 'locked', 'dangling': 'dangling', 'loop': 'loop'}[kind]
        os.chmod(victim, 0o755) if kind not in ('dangling', 'loop') else os.unlink(os.path.join(src, name))
        if kind in ('dangling', 'loop'):
            want = None
        w.backup([src])
    w.verify(unindexed=True)
    c.see('unreadable', kind)
    c.eval()


def run(ctx):
    q = ctx.quick
    ctx.cases(unreadable, [(k,) for k in ('file', 'dir', 'dir-x', 'dangling', 'loop', 'missing')], must=6)
    parts = 7
    items = [(s, p, parts) for s in range(22 if q else 250) for p in range(parts)]
    off = 0 if q else ctx.seed * 55
    ctx.cases(scenario, [(s + off, p, n) for s, p, n in items], must=parts * (7 if q else 11))

"""C10: dry runs and read-only commands change nothing anywhere, and dry runs tell what the real run then does."""
import hashlib
import os
import re
import stat

import fmt
import show
import tree
from core import Violation
from ops import SKIPS
from world import World, FILTERS, freeze_atimes, sources

LEVEL = 'exploration'
BUDGET = (30, 700)
RULE = ('Random worlds (histories, filters, caches, leftovers of killed backups, copies, prunes and index rebuilds, stray and damaged files) whose every file, directory and link in the '
        'repositories, sources, restore targets and working directories is fingerprinted (contents, mode, size, inode, modification and change time) before and after each read-only command or dry run, '
        'also when it is killed or one of its file-system calls fails. Then the real command is run from the same state, and its outcome (exit status, figures, listed changes, '
        'refusals) has to be that the dry run told. Distinct: (command, flags, state of the world, outcome).')
ASSUMES = ['access times are not compared', 'the cache in the home directory may change', 'a working directory\'s own times may change, and killed or failed runs may leave temporary files there']


def prints(dirs, loose=()):
    """{path: what can be seen of it}; of the directories in loose, not their own times."""
    out = {}

    def one(p):
        st = os.lstat(p)
        m = st.st_mode
        if stat.S_ISREG(m):
            try:
                with open(p, 'rb') as f:
                    h = hashlib.blake2b(f.read(), digest_size=12).hexdigest()
            except PermissionError:
                h = 'unreadable'
        else:
            h = os.readlink(p) if stat.S_ISLNK(m) else ''
        t = (st.st_mtime_ns, st.st_ctime_ns) if p not in loose else ()
        out[p] = (oct(m), st.st_size if not stat.S_ISDIR(m) else 0, st.st_ino, st.st_nlink, h) + t

    for d in dirs:
        if not os.path.lexists(d):
            out[d] = None
            continue
        one(d)
        for r, ds, fs in os.walk(d):
            for n in ds + fs:
                one(os.path.join(r, n))
    return out


def compare(a, b, what, temps=False):
    new = [p for p in b if p not in a and not (temps and os.path.basename(p).startswith('temp-backpak-'))]
    gone = [p for p in a if p not in b]
    diff = [(p, a[p], b[p]) for p in a if p in b and a[p] != b[p]]
    if new or gone or diff:
        raise Violation('%s changed things: new %s, gone %s, changed %s' % (what, new[:4], gone[:4], diff[:3]))


# ------------------------------------------------------------------ what a run told

FIG = re.compile(r'P ([^|]*) \| R ([^|]*) \| Z')


def figures(res):
    t = res.stdout
    f = FIG.findall(t)
    n = re.findall(r'(?m)^. (\d+) packs indexed', t)
    keep = re.findall(r'(?m)^(Keep .*|All .* Nothing to do.*)$', t)
    return dict(figures=f[-1] if f else None, indexed=n[-1] if n else None, plan=keep)


def told(cmd, res):
    """What a run of a command told of its outcome, dry or not."""
    both = res.stdout + res.stderr
    o = dict(ok=res.rc == 0)
    if res.rc:
        return o
    if cmd in ('backup', 'copy', 'prune'):
        o.update(figures(res))
    if cmd == 'backup':
        o['same'] = 'Snapshot is the same as the last' in both
        o['nothing'] = 'Nothing backed up' in both
        o['done'] = bool(re.search(r'Snaphsot \w+ done', both))
    elif cmd == 'forget':
        o['ids'] = re.findall(r'(?:Would remove|Forgetting) (\w+)', both)
    elif cmd == 'restore':
        o['lines'] = sorted(res.stdout.split('\n')[:])
        o['lines'] = sorted(l for l in o['lines'] if not l.startswith(('Opening', 'Building', 'Comparing')))
    return o


def agree(cmd, args, dry, real, w):
    a, b = told(cmd, dry), told(cmd, real)
    if cmd == 'forget' and not a['ok']:
        a, b = dict(ok=a['ok']), dict(ok=b['ok'])
    if a != b:
        raise Violation('the dry run of %s told %s, the real run %s\n%s\n%s' % (args, a, b, dry.brief(), real.brief()))


# ------------------------------------------------------------------ the world

class Place:
    def __init__(self, c):
        self.c, self.r = c, c.rng
        r = c.rng
        self.w = World(c, pack_size=r.choice(['8KB', '30KB', None]), filt=r.choice(FILTERS) if r.random() < 0.1 else None, cached=r.random() < 0.2)
        self.dst = World(c, name='dst', pack_size=r.choice(['8KB', '200KB']))
        self.src = sources(c, n=r.choice([1, 1, 2]), size=r.choice(['tiny', 'small']))
        for k in range(r.choice([0, 3, 9])):
            d = self.src[0]
            if os.path.isdir(d) and os.access(d, os.W_OK):
                with tree.Writable(d):
                    tree.write(os.path.join(d, 'extra%d' % k), r.randbytes(r.choice([3000, 12000])))
        self.freeze()
        w = self.w
        for _ in range(r.choice([1, 2, 3])):
            w.backup(self.src, '--allow-repeat', '--allow-empty')
            for p in self.src:
                if os.path.isdir(p):
                    tree.mutate(r, p, r.choice([0, 2, 4]))
            self.freeze()
        if r.random() < 0.5:
            w.backup(self.src, '--allow-repeat', '--allow-empty')
        if len(w.model) > 1 and r.random() < 0.5:
            i = r.choice(sorted(w.model))
            w.ok('forget', fmt.name_of(i))
            del w.model[i]
        if r.random() < 0.3:
            w.ok('copy', '-t', self.dst.repo, '--all')
        self.out = c.mkdir('out')
        i = r.choice(sorted(w.model))
        if r.random() < 0.6:
            w.run('restore', '-o', self.out, '-t', fmt.name_of(i))
            tree.mutate(r, self.out, 4)
        R = w.open(leftovers=True)
        self.blobs = [fmt.name_of(b) for b in sorted(R.blobs)]
        self.paths = {i: [p for p, e in R.entries(s).items() if e[0] != 'd'] for i, s in R.snaps.items()}
        self.left = r.choice(['', '', 'backup', 'prune', 'copy', 'rebuild-index', 'prune', 'backup', 'stray', 'foreign'])
        self.leave()
        self.freeze()

    def freeze(self):
        for p in self.src:
            freeze_atimes(p)

    def leave(self):
        """Puts leftovers into the working directory."""
        c, r, w = self.c, self.r, self.w
        scope = ':'.join([w.repo, w.cwd, self.dst.repo])
        if self.left == 'stray':
            for n in ['a.pack', 'notes.txt', 'temp-backpak-x', 'f.index.bak', 'x.snapshot', '.backpak.old', 'packs']:
                if r.random() < 0.6:
                    tree.write(os.path.join(w.cwd, n), r.randbytes(20))
            return
        if self.left == 'foreign':
            tree.write(os.path.join(w.cwd, 'backpak-wip.index'), r.randbytes(r.choice([0, 4, 100])))
            return
        if not self.left:
            return
        if self.left == 'prune':
            # Something to repack.
            d = c.mkdir('junk', 'j%d' % r.randrange(10 ** 6))
            for k in range(6):
                tree.write(os.path.join(d, 'j%d' % k), r.randbytes(9000))
            i = w.backup([d])
            for k in range(0, 6, 2):
                os.unlink(os.path.join(d, 'j%d' % k))
            w.backup([d])
            w.ok('forget', fmt.name_of(i))
            del w.model[i]
            args = ['prune']
        elif self.left == 'copy':
            args = ['copy', '-t', self.dst.repo, '--all']
        elif self.left == 'rebuild-index':
            args = ['rebuild-index']
        else:
            d = self.src[0]
            if os.path.isdir(d):
                with tree.Writable(d):
                    for k in range(6):
                        tree.write(os.path.join(d, 'more%d' % k), r.randbytes(9000))
            args = ['backup'] + self.src
        w.run(*args, shim=dict(BPV_SCOPE=scope, BPV_KILL_AT=r.randrange(5, 90), BPV_KILL_MODE=r.choice(['before', 'after', 'partial'])))
        w.model = dict.fromkeys(fmt.raw_of(n) for n in w.snap_files())

    def dirs(self):
        return [self.w.repo, self.dst.repo, self.out, self.w.cwd, self.c.path('elsewhere')] + self.src


def reads(x):
    """A random read-only command."""
    r, w = x.r, x.w
    ids = [fmt.name_of(i) for i in sorted(w.model)] or ['0' * 45]
    s = lambda: r.choice(ids + ['LAST', 'LAST~1', r.choice(ids)[:9]])
    k = r.choice(['cat', 'cat', 'check', 'check -r', 'diff', 'dump', 'ls', 'snapshots', 'snapshots', 'usage'])
    if k == 'cat':
        kind = r.choice(['pack', 'index', 'snapshot', 'blob'])
        if kind == 'blob':
            ids = x.blobs or ids
        elif kind != 'snapshot':
            d = dict(pack='packs', index='indexes')[kind]
            ids = [f.split('.')[0] for f in sorted(os.listdir(os.path.join(w.repo, d)))] or ids
        return 'cat ' + kind, ['cat', kind, r.choice(ids)]
    if k.startswith('check'):
        return k, k.split()
    if k == 'diff':
        return k, ['diff'] + r.choice([[], ['-m']]) + r.choice([[s()], [s(), s()]])
    if k == 'dump':
        i = r.choice(sorted(w.model)) if w.model else None
        ps = x.paths.get(i)
        return k, ['dump', fmt.name_of(i) if i else 'LAST', r.choice(ps) if ps else 'none']
    if k == 'ls':
        return k, ['ls', s()]
    if k == 'snapshots':
        return k, ['snapshots'] + r.sample(['-r', '--stat', '-m', '-s'], r.randrange(4))
    return k, ['usage']


def dries(x):
    """A random command to be run dry: (name, args after the name, without -n)."""
    r, w = x.r, x.w
    ids = [fmt.name_of(i) for i in sorted(w.model)] or ['0' * 45]
    k = r.choice(['backup', 'backup', 'backup', 'copy', 'copy', 'filter-snapshot', 'forget', 'prune', 'prune', 'rebuild-index', 'restore', 'restore'])
    some = r.sample(ids, r.randrange(1, len(ids) + 1))
    if k == 'backup':
        a = r.choice([[], ['--allow-repeat'], ['-s', r.choice(SKIPS)], ['-t', 'x', '-a', 'me']])
        p = r.choice([x.src, x.src, x.src[:1]])
        if r.random() < 0.1:
            p = p + [x.c.path('no such')]
        return k, a + p
    if k == 'copy':
        a = r.choice([[], ['-s', r.choice(SKIPS)]])
        return k, a + ['-t', x.dst.repo] + r.choice([['--all'], some])
    if k == 'filter-snapshot':
        return k, r.choice([['-k'], []]) + ['-s', r.choice(SKIPS), r.choice(ids)]
    if k == 'forget':
        return k, r.choice([some, ['DUPLICATES'], some + ['zzzz'], ['LAST']])
    if k == 'restore':
        return k, r.sample(['-d', '-t', '-p'], r.randrange(4)) + ['-o', r.choice([x.out, x.out, x.c.path('elsewhere')]), r.choice(ids)]
    return k, []


def case(c, item):
    r = c.rng
    x = Place(c)
    w = x.w
    c.mkdir('elsewhere')
    if r.random() < 0.12:
        # Damage, for commands that fail.
        d = os.path.join(w.repo, r.choice(['packs', 'packs', 'indexes', 'snapshots']))
        fs = sorted(os.listdir(d))
        if fs:
            p = os.path.join(d, r.choice(fs))
            b = open(p, 'rb').read()
            tree.write(p, b[:r.randrange(len(b) + 1)] + r.choice([b'', b'xx']))
            c.see('damaged', os.path.basename(d))
        damaged = True
    else:
        damaged = False
    dirs = x.dirs()
    loose = {w.cwd}
    state = (x.left or 'plain') + (' damaged' if damaged else '')
    for n in range(5 if c.quick else 8):
        a = prints(dirs, loose)
        name, args = reads(x)
        p = w.run(*args)
        c.clean_fail(p)
        compare(a, prints(dirs, loose), '%s' % args)
        c.see(name, state, p.rc)
        c.count('read-only runs')
        c.eval()
    for n in range(5 if c.quick else 8):
        name, args = dries(x)
        a = prints(dirs, loose)
        how = r.choice(['', '', '', 'kill', 'fault'])
        sh = None
        if how:
            scope = ':'.join([w.repo, w.cwd, x.dst.repo, x.out] + x.src)
            if how == 'kill':
                log = c.fresh('log')
                sh = dict(BPV_SCOPE=scope, BPV_DELAY='%d:3000:0.3' % r.randrange(10 ** 6), BPV_LOG_READS='1', BPV_KILL_AT=r.randrange(1, 12), BPV_KILL_MODE=r.choice(['before', 'after']))
            else:
                sh = dict(BPV_SCOPE=scope, BPV_LOG_READS='1', BPV_FAIL_AT=r.choice(['r:%d', 'r:%d', 'w:%d']) % r.randrange(1, 60))
        p = w.run(name, '-n', *args, shim=sh)
        if p.rc < 0 and how != 'kill':
            raise Violation('the dry run crashed: %s' % p.brief())
        compare(a, prints(dirs, loose), 'the dry run of %s %s' % (name, args), temps=bool(how) or p.rc != 0)
        for f in os.listdir(w.cwd):
            if f.startswith('temp-backpak-') and os.path.join(w.cwd, f) not in a:
                os.unlink(os.path.join(w.cwd, f))
        c.see('dry ' + name, state, how, p.rc)
        c.count('dry runs')
        c.eval()
    # And for real.
    for n in range(3 if c.quick else 4):
        name, args = dries(x)
        if name == 'filter-snapshot' and damaged:
            continue
        if name == 'restore':
            # A dry run cannot foretell permissions.
            for d, ds, fs in os.walk(x.out):
                for f in [d] + [os.path.join(d, f) for f in fs]:
                    if not os.path.islink(f):
                        os.chmod(f, os.lstat(f).st_mode & 0o7777 | 0o700)
        a = prints(dirs, loose)
        dry = w.run(name, '-n', *args)
        c.clean_fail(dry)
        compare(a, prints(dirs, loose), 'the dry run of %s %s' % (name, args), temps=dry.rc != 0)
        real = w.run(name, *args)
        c.clean_fail(real)
        if damaged and real.rc:
            # What a dry run has no need to read, the real one may find damaged.
            c.see('real ' + name, state, 'damaged')
            continue
        agree(name, args, dry, real, w)
        if name == 'forget' and dry.rc == 0:
            gone = {p for p in a if p.startswith(os.path.join(w.repo, 'snapshots', ''))} - set(prints([w.repo]))
            if sorted(os.path.basename(p).split('.')[0] for p in gone) != sorted(told('forget', dry)['ids']):
                raise Violation('forget removed other snapshots than it told: %s' % gone)
        w.model = dict.fromkeys(fmt.raw_of(s) for s in w.snap_files())
        x.freeze()
        c.see('real ' + name, state, real.rc, str(told(name, dry))[:60])
        c.count('dry runs compared with real ones')
        c.eval()
    c.sample(leftovers=x.left, steps=c.steps[-6:])


def run(ctx):
    ctx.cases(case, range(4000), must=70)

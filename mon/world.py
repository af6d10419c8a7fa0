"""A repository, the sources backed up into it, and what each snapshot is known to hold."""
import os
import re
import shutil

import fmt
import tree
from core import Violation, Inconclusive

FILTERS = [
    # (name, filter, unfilter)
    ('gzip', 'gzip -nc1', 'gzip -dc'),
    ('b64', 'base64 -w0', 'base64 -d'),
    ('tr', "tr '\\000-\\377' '\\200-\\377\\000-\\177'", "tr '\\000-\\377' '\\200-\\377\\000-\\177'"),
    ('pad', "printf HEAD; cat", "tail -c +5"),
]


class World:
    def __init__(self, c, name='repo', pack_size=None, filt=None, cached=False, init=True, config=''):
        self.c = c
        self.rng = c.rng
        self.repo = c.path(name)
        self.cwd = c.mkdir('wd')
        self.filt = filt
        self.cached = cached
        self.config = config
        self.shim = None        # monitor settings for every command
        self.model = {}         # snapshot id -> {path: entry} it has to hold
        self.facts = {}         # snapshot id -> facts
        if init:
            self.init(pack_size)

    def init(self, pack_size=None):
        args = ['init']
        if pack_size:
            args += ['-p', str(pack_size)]
        self.c.ok(self.repo, *args, 'filesystem', *(['--force-cache'] if self.cached else []), config=self.config)
        if self.filt:
            p = os.path.join(self.repo, 'config.toml')
            with open(p) as f:
                t = f.read()
            with open(p, 'w') as f:
                f.write("filter = '''%s'''\nunfilter = '''%s'''\n%s" % (self.filt[1], self.filt[2], t))

    # -------------------------------------------------- running

    def _kw(self, kw):
        kw.setdefault('cwd', self.cwd)
        kw.setdefault('config', self.config)
        kw.setdefault('shim', self.shim)

    def run(self, *args, **kw):
        self._kw(kw)
        return self.c.run(self.repo, *args, **kw)

    def ok(self, *args, **kw):
        self._kw(kw)
        return self.c.ok(self.repo, *args, **kw)

    def fails(self, *args, **kw):
        self._kw(kw)
        return self.c.fails(self.repo, *args, **kw)

    def snap_files(self):
        d = os.path.join(self.repo, 'snapshots')
        return {f.split('.')[0] for f in os.listdir(d) if f.endswith('.snapshot')}

    def backup(self, paths, *args, deref=False, skip=None, want=None, expect_new=True, **kw):
        """Backs up; returns the new snapshot's ID, or None if there is none."""
        if want is None:
            want = tree.source(paths, deref=deref, skip=skip)
        before = self.snap_files()
        a = ['backup'] + list(args) + (['-L'] if deref else []) + list(paths)
        r = self.ok(*a, **kw)
        return self.note_new(before, want, expect_new, r)

    def note_new(self, before, want, expect_new=True, r=None):
        new = self.snap_files() - before
        gone = before - self.snap_files()
        if gone:
            raise Violation('a backup removed snapshots %s' % gone)
        if len(new) > 1 or (expect_new and len(new) != 1):
            raise Violation('a backup made %d snapshots: %s' % (len(new), r.brief() if r else ''))
        if not new:
            return None
        i = fmt.raw_of(new.pop())
        self.model[i] = want
        return i

    def open(self, **kw):
        return fmt.open_repo(self.repo, **kw)

    # -------------------------------------------------- what has to hold

    def verify(self, model=None, audit=True, exact=True, R=None, **kw):
        """Decodes the repository and compares each snapshot with what it has to hold."""
        R = R or self.open(leftovers=kw.pop('leftovers', False))
        if audit:
            R.audit(**kw)
        model = self.model if model is None else model
        if exact and set(R.snaps) != set(model):
            raise Violation('snapshots are %s, not %s' % (sorted(fmt.name_of(i)[:8] for i in R.snaps), sorted(fmt.name_of(i)[:8] for i in model)))
        for i, want in model.items():
            if i not in R.snaps:
                raise Violation('snapshot %s is gone' % fmt.name_of(i))
            got = R.entries(R.snaps[i])
            d = tree.differences(want, got)
            if d:
                raise Violation('snapshot %s does not hold what was backed up: %s' % (fmt.name_of(i), d))
            self.c.count('snapshot entries compared', len(want))
        return R

    def clean_cwd(self, cwd=None):
        left = os.listdir(cwd or self.cwd)
        if left:
            raise Violation('files are left in the working directory: %s' % left[:5])

    def restored(self, i, want=None, flags=('-t', '-p'), into=None, mode=True, mtime=True, extra_ok=False, **kw):
        """Restores a snapshot with backpak and compares."""
        want = self.model[i] if want is None else want
        tops = sorted({p.split('/')[0] for p in want})
        out = into or self.c.fresh('out')
        R = kw.pop('R', None)
        paths = kw.pop('paths', None) or (R or self.open(streams=False, leftovers=True)).snaps[i].paths
        single = len(paths) == 1
        if single and want and want[tops[0]][0] != 'd':
            return self.dumped(i, want)
        r = self.ok('restore', *flags, '-o', out, fmt.name_of(i), **kw)
        if not into and '-t' in flags and R is not None:
            self.accessed(R, R.snaps[i].tree, out, os.path.basename(paths[0]) if single else None)
        got = {}
        if single:
            tree.capture(out, into=got, prefix=os.path.basename(paths[0]))
            if not want:
                want = {os.path.basename(paths[0]): got[os.path.basename(paths[0])]}
        else:
            for n in sorted(os.listdir(out)):
                tree.capture(os.path.join(out, n), into=got, prefix=n)
        if extra_ok:
            got = {p: e for p, e in got.items() if p in want}
        d = tree.differences(want, got, mode=mode and '-p' in flags, mtime=mtime and '-t' in flags)
        if d:
            raise Violation('snapshot %s restored with %s into %s differs: %s' % (fmt.name_of(i), ' '.join(flags), out, d), log=r.stdout[-2000:])
        self.c.count('snapshots restored')
        self.c.count('restored entries compared', len(want))
        if not into:
            tree.wipe(out)
        return r

    def accessed(self, R, t, d, only=None):
        """Access times are restored with the others; looks before it reads anything."""
        for name, (k, x, m) in R.tree(t).items():
            p = d if name == only else os.path.join(d, name)
            if k == 'l' or 'atime' not in m or not os.path.lexists(p):
                continue
            a = os.lstat(p).st_atime_ns
            if a != m['atime']:
                raise Violation('%s was restored with the access time %d, not %d (its modification time is %d)' % (p, a, m['atime'], m['mtime']))
            self.c.count('access times compared')
            if k == 'd':
                self.accessed(R, x, p)

    def dumped(self, i, want):
        """Checks a snapshot of a single file or link."""
        import hashlib
        (p, e), = want.items()
        if e[0] == 'f':
            r = self.ok('dump', fmt.name_of(i), '--', p)
            if hashlib.sha1(r.out).hexdigest() != e[1]:
                raise Violation('dumping %s of %s gives other bytes' % (p, fmt.name_of(i)))
            self.c.count('snapshots restored')
        return None


def random_world(c, name='repo', filt=None, cached=None, small_packs=True):
    """A repository of a random configuration."""
    r = c.rng
    ps = r.choice([None, '20KB', '150KB', '1MB', '5KB'] if small_packs else [None, '3MB', '30MB'])
    f = filt if filt is not None else (r.choice(FILTERS) if r.random() < 0.12 else None)
    cached = r.random() < 0.2 if cached is None else cached
    c.see('packs', ps)
    c.see('filter', f and f[0])
    c.see('cached', cached)
    return World(c, name, pack_size=ps, filt=f, cached=cached)


def sources(c, n=None, size=None, **kw):
    """A few source trees with different last components."""
    r = c.rng
    n = n or r.choice([1, 1, 2, 3])
    out = []
    base = c.fresh('src')
    for k in range(n):
        nm = r.choice(['data', 'Home', 'e tc', 'ünï', 'x.y', '-d', 'd%d' % k]) + ('' if k == 0 else str(k))
        p = os.path.join(base, r.choice(['', 'deep/er']), nm)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        s = size or r.choice(['tiny', 'small', 'small', 'small', 'medium'])
        tree.Gen(r, p, size=s, **kw)
        c.see('source size', s)
        out.append(p)
    return sorted(out, key=lambda p: p.split('/'))


def freeze_atimes(root):
    """Sets access times that reading will not change (under relatime), so that a later look sees the same metadata."""
    for d, dirs, files in os.walk(root):
        for n in [''] + dirs + files:
            p = os.path.join(d, n) if n else d
            st = os.lstat(p)
            os.utime(p, ns=(8 * 10 ** 18, min(st.st_mtime_ns, 7 * 10 ** 18)), follow_symlinks=False)

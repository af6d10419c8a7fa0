"""C13: data is made durable before anything names it or replaces it."""
import hashlib
import os

import crash
import fmt
import tree
from core import Violation
from ops import History
from world import World, FILTERS, sources

LEVEL = 'exploration'
BUDGET = (30, 600)
RULE = ('Every command of random histories (small packs, filters, other file systems, killed and resumed runs, injected delays) is traced with all its file-system calls in one '
        'order; an automaton over the trace checks that each file published in a repository, or left to resume from, was synced after its last write, that packs precede the '
        'index naming them and all data precedes snapshots, and that removals follow the index replacing what is removed. Distinct: shapes of traces (sequence of publications, '
        'syncs and removals).')
ASSUMES = ['every write to these files goes through the traced libc calls (a published file nobody was seen to write or open is an error of the check)',
           'renames and removals reach the disk in the order made']


def repo_kind(p, repos):
    for r in repos:
        if p.startswith(r + '/'):
            parts = p[len(r) + 1:].split('/')
            if len(parts) == 2 and parts[0] in ('packs', 'indexes', 'snapshots') and not parts[1].endswith('.part'):
                return parts[0]
    return None


class Monitor:
    """The automaton. State: for each inode whether it has unsynced writes; what was published and removed when."""

    def __init__(self, repos, known_inos=()):
        self.repos = repos
        self.dirty, self.written, self.synced = {}, set(), {}
        self.known = set(known_inos)
        self.published = {}     # path -> seq
        self.removed = {}
        self.shape = []
        self.events = 0
        self.opened = {}

    def publish(self, o, dst, kind):
        i = o.ino
        if self.dirty.get(i):
            raise Violation('%s appears under its final name with writes that were not synced (%s)' % (dst, o))
        if i not in self.written and i not in self.known:
            raise RuntimeError('%s was published but nobody was seen to write it' % dst)
        self.published[dst] = o.seq
        self.shape.append('+' + kind)

    def feed(self, ops):
        for o in ops:
            if o.kind != 'W' or o.ret < 0:
                continue
            self.events += 1
            if o.fn == 'open_w':
                if o.extra & 0o1000 or o.extra & 0o200 or o.extra & 0o20000000:      # O_TRUNC, O_EXCL, O_TMPFILE
                    self.dirty[o.ino] = False
                    self.written.discard(o.ino)
                    self.known.discard(o.ino)
                k = repo_kind(o.p1, self.repos)
                if k:
                    raise Violation('%s is created under its final name before it has contents (%s)' % (o.p1, o))
            elif o.fn in ('write', 'ftruncate'):
                if o.fn == 'write' and o.ret == 0:
                    continue
                self.dirty[o.ino] = True
                self.written.add(o.ino)
                k = repo_kind(o.p1, self.repos)
                if k:
                    raise Violation('%s is written to under its final name (%s)' % (o.p1, o))
            elif o.fn == 'fsync':
                self.dirty[o.ino] = False
                self.shape.append('s')
            elif o.fn in ('rename', 'link'):
                k = repo_kind(o.p2, self.repos)
                if k:
                    self.publish(o, o.p2, k)
                    continue
                b = os.path.basename(o.p2)
                if (b == 'backpak-wip.index' or b.endswith('.pack')) and '.cache' not in o.p2:
                    if self.dirty.get(o.ino):
                        raise Violation('%s is left to resume from with writes that were not synced (%s)' % (o.p2, o))
                    self.shape.append('w')
                k = repo_kind(o.p1, self.repos)
                if k and o.fn == 'rename':
                    raise Violation('%s was renamed away from its final name (%s)' % (o.p1, o))
            elif o.fn == 'unlink':
                k = repo_kind(o.p1, self.repos)
                if k:
                    self.removed[o.p1] = o.seq
                    self.shape.append('-' + k)

    def end(self, before):
        """Order of publications and removals; `before` maps repository paths to contents from before the command."""
        for r in self.repos:
            pub = {k: {p: s for p, s in self.published.items() if repo_kind(p, [r]) == k} for k in ('packs', 'indexes', 'snapshots')}
            rem = {k: {p: s for p, s in self.removed.items() if repo_kind(p, [r]) == k} for k in ('packs', 'indexes', 'snapshots')}
            R = fmt.open_repo(r, leftovers=True, streams=False)
            for p, s in pub['indexes'].items():
                if p in rem['indexes']:
                    continue
                sup, packs = R.indexes[fmt.raw_of(os.path.basename(p).split('.')[0])]
                for q in packs:
                    qp = os.path.join(r, 'packs', fmt.name_of(q) + '.pack')
                    if qp in pub['packs'] and pub['packs'][qp] > s:
                        raise Violation('index %s was published before its pack %s' % (p, qp))
                    if qp not in pub['packs'] and q not in R.packs:
                        raise Violation('index %s was published without its pack %s' % (p, qp))
            last = max([s for k in ('packs', 'indexes') for s in pub[k].values()] + [0])
            for p, s in pub['snapshots'].items():
                if s < last:
                    raise Violation('snapshot %s was published before all packs and indexes were' % p)
            old = before.get(r)
            for p, s in rem['indexes'].items():
                i = fmt.raw_of(os.path.basename(p).split('.')[0])
                by = [q for q, t in pub['indexes'].items() if t < s and i in R.indexes.get(fmt.raw_of(os.path.basename(q).split('.')[0]), ((), 0))[0]]
                was = old is not None and i in old.superseded
                if not by and not was:
                    raise Violation('index %s was removed before one replacing it was published' % p)
            for p, s in rem['packs'].items():
                i = fmt.raw_of(os.path.basename(p).split('.')[0])
                for j, (sup, packs) in (old.indexes if old else {}).items():
                    jp = os.path.join(r, 'indexes', fmt.name_of(j) + '.index')
                    if i in packs and not (jp in rem['indexes'] and rem['indexes'][jp] < s):
                        raise Violation('pack %s was removed while index %s still named it' % (p, jp))


def inos(*dirs):
    out = set()
    for d in dirs:
        for x, _, fs in os.walk(d):
            for f in fs:
                st = os.lstat(os.path.join(x, f))
                out.add(((st.st_dev << 40) ^ st.st_ino) & (2 ** 64 - 1))
    return out


def hist(c, item):
    r = c.rng
    filt = r.choice(FILTERS) if r.random() < 0.25 else None
    w = World(c, pack_size=r.choice(['5KB', '20KB', '60KB', '1MB', None]), filt=filt, cached=r.random() < 0.25)
    if r.random() < 0.45:
        w.cwd = os.path.join(c.disk, 'wd')
        os.makedirs(w.cwd, exist_ok=True)
        c.see('another file system')
    h = History(c, w, srcs=sources(c, r.choice([1, 2]), size=r.choice(['small', 'small', 'medium'])))
    log = c.path('log')
    h.step('backup')
    w.verify(R=w.open())
    h.do_copy()     # so that there is a destination

    def check(op, full=True, before=None, known=()):
        ops = crash.read_log(log)
        os.unlink(log)
        if not ops:
            raise RuntimeError('the monitor saw nothing')
        m = Monitor([w.repo, h.dst.repo], known)
        m.feed(ops)
        if full:
            m.end(before)
        for p in list(m.published):
            c.count('objects published')
        c.count('objects removed', len(m.removed))
        c.count('calls checked', m.events)
        c.see('trace', op, hashlib.sha1(' '.join(m.shape).encode()).hexdigest()[:12])
        c.eval()
        return m
    for step in range(r.choice([4, 6, 8])):
        op = r.choice(h.OPS + ['prune'] * 2 + ['rebuild'])
        if not w.model:
            op = 'backup'
        before = {x.repo: x.open(leftovers=True, streams=False) for x in (w, h.dst)}
        known = inos(w.cwd)
        shim = dict(BPV_LOG=log)
        if r.random() < 0.5:
            shim['BPV_DELAY'] = '%d:%d:%d' % (r.randrange(1, 10 ** 6), r.choice([500, 3000]), r.choice([10, 40]))
        if r.random() < 0.2 and op in ('backup', 'rebackup'):
            # Interrupted: what it left may be resumed from by the next.
            src = h.srcs[0]
            if os.path.isdir(src):
                tree.mutate(r, src, 2)
                os.chmod(src, 0o755)
                tree.write(os.path.join(src, 'more%d' % step), r.randbytes(60000))
            before_names = w.snap_files()
            scope = '%s:%s' % (w.repo, w.cwd)
            p = w.run('backup', *h.srcs, shim=dict(BPV_LOG=log, BPV_SCOPE=scope, BPV_KILL_AT=r.randrange(8, 70)))
            if p.rc == -9:
                check('killed', full=False)
                c.count('killed runs')
            elif p.rc == 0:
                check('backup', before=before)
            else:
                raise Violation('backup failed: %s' % p.brief())
            w.note_new(before_names, tree.source(h.srcs), expect_new=p.rc == 0) if w.snap_files() != before_names else None
            before = {x.repo: x.open(leftovers=True, streams=False) for x in (w, h.dst)}
            known = inos(w.cwd)
            op = 'rebackup'
        if op == 'copy':
            # Its leftovers, if any, are for the other repository: not here.
            for f in os.listdir(w.cwd):
                os.unlink(os.path.join(w.cwd, f))
        w.shim = shim
        h.step(op)
        w.shim = None
        if op == 'forgetdup' and not os.path.exists(log):
            continue
        check(op, before=before, known=known)
    w.verify(leftovers=True, unindexed=True)
    h.dst.verify(leftovers=True, unindexed=True)
    c.sample(ops=h.log)


def run(ctx):
    items = [('h', k) for k in range(5000)]
    ctx.cases(hist, items, must=40)

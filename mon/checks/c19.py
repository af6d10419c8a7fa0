"""C19: diff and change statistics report exactly the differences."""
import os

import fmt
import show
import tree
from core import Violation
from world import World, random_world, sources, freeze_atimes

LEVEL = 'exploration'
BUDGET = (30, 500)
RULE = ('Snapshots of edited trees and snapshots written directly (every pair of node kinds, contents and metadata fields against each other) are decoded and compared by an '
        'independent differ; `diff`, `diff -m`, `diff` against the file system and `snapshots --stat [-m]` must print exactly its lines. Distinct: sets of change codes with '
        'kinds, and edits.')


def compare(c, w, a, b, meta, recs, *args):
    r = w.ok('diff', *(['-m'] if meta else []), *args)
    want = show.diff_lines(recs)
    if not show.same(r.stdout, want):
        raise Violation('diff %s %s is wrong: %s' % ('-m' if meta else '', ' '.join(args), show.off(r.stdout, want)), out=r.stdout[:3000], want=want[:40])
    c.eval()
    c.count('changes compared', len(want))
    c.see(*sorted({x + n.kind for x, p, n in recs}))
    if not recs:
        c.see('nothing differs', meta)


def edits(c, item):
    r = c.rng
    w = random_world(c)
    srcs = sources(c)
    ids = []
    for k in range(r.choice([2, 3, 4])):
        if k:
            for p in srcs:
                if r.random() < 0.8 and os.path.isdir(p):
                    for e in tree.mutate(r, p, r.choice([0, 1, 2, 6])):
                        c.see('edit', e)
        if r.random() < 0.7:
            for p in srcs:
                freeze_atimes(p)
        ids.append(w.backup(r.choice([srcs, srcs, srcs[:1]]), '--allow-repeat', '--allow-empty'))
    R = w.open()
    for _ in range(4):
        i, j = r.choice(ids), r.choice(ids)
        m = r.random() < 0.6
        compare(c, w, i, j, m, show.diff(show.load(R, R.snaps[i].tree), show.load(R, R.snaps[j].tree), m), fmt.name_of(i), fmt.name_of(j))
    # Against the file system.
    for p in srcs:
        if r.random() < 0.6 and os.path.isdir(p):
            for e in tree.mutate(r, p, r.choice([0, 1, 3])):
                c.see('edit', e)
        freeze_atimes(p)
    for i in r.sample(ids, min(2, len(ids))):
        s = R.snaps[i]
        fsn = {}
        for p in s.paths:
            fsn[os.path.basename(p)] = show.load_fs(p)
        for m in (False, True):
            compare(c, w, i, 'fs', m, show.diff(show.load(R, s.tree), fsn, m), fmt.name_of(i))
    stat(c, w, R)
    c.sample(snapshots=len(ids), edits=sorted(x for x in c.distinct if x.startswith('edit'))[:8])


def stat(c, w, R):
    r = c.rng
    for _ in range(2):
        m, rev = r.random() < 0.5, r.random() < 0.4
        ids = None if r.random() < 0.5 else r.sample(sorted(R.snaps), r.randrange(1, len(R.snaps) + 1))
        out = w.ok('snapshots', '--stat', *(['-m'] if m else []), *(['-r'] if rev else []), *[fmt.name_of(i) for i in ids or ()]).stdout
        want = show.snapshots(R, ids=ids, reverse=rev, stat=True, meta=m)
        if not show.same(show.report(out), want):
            raise Violation('snapshots --stat is wrong: %s' % show.off(show.report(out), want), out=out[:3000])
        c.eval()
        c.count('statistics compared')


def meta(kind, r, base):
    m = dict(base)
    t = {'f': 0o100000, 'd': 0o40000, 'l': 0o120000}[kind]
    m['mode'] = t | m['mode'] & 0o7777
    if kind != 'f':
        m.pop('size', None)
    return m


BASE = dict(type="posix", mode=0o100644, size=0, uid=1000, gid=1000, atime=5 * 10 ** 18, mtime=4 * 10 ** 18)


class Writer:
    """Writes trees and snapshots into a repository as another writer of the format might."""

    def __init__(self, w):
        self.w, self.blobs = w, {}

    def add(self, t, b):
        i = fmt.sha(b)
        self.blobs[i] = (t, b)
        return i

    def tree(self, kids):
        """kids: {name: ('f', bytes, meta) | ('l', target, meta) | ('d', kids, meta)}"""
        out = {}
        for n in sorted(kids, key=lambda s: s.encode()):
            k, x, m = kids[n]
            if k == 'f':
                cs = [x] if isinstance(x, bytes) else x
                m = dict(m, size=sum(map(len, cs)))
                order = ['type', 'mode', 'size', 'uid', 'gid', 'atime', 'mtime']
                out[n] = fmt.Indef(chunks=[self.add('chunk', b) for b in cs if b], metadata={q: m[q] for q in order})
            elif k == 'l':
                out[n] = fmt.Indef(symlink=x, metadata=m) if not LINK_TABLE else fmt.Indef(symlink=dict(target=x), metadata=m)
            else:
                out[n] = fmt.Indef(tree=self.tree(x), metadata=m)
        return self.add('tree', fmt.cbor(out))

    def flush(self):
        packs = {}
        for t in ('chunk', 'tree'):
            bs = [x for x in self.blobs.values() if x[0] == t]
            if bs:
                i, d, man = fmt.make_pack(bs)
                self.w.c.step('pack of %d %ss' % (len(bs), t))
                self.put('pack', i, d)
                packs[i] = man
        if packs:
            i, d = fmt.make_index(packs)
            self.put('index', i, d)
        self.blobs = {}

    def put(self, kind, i, d):
        if self.w.filt:
            d = fmt.run_filter(self.w.filt[1], d)
        fmt.put(self.w.repo, kind, i, d)

    def snap(self, time, tree, author='a', tags=(), paths=('/x',), tz='UTC', v1=None):
        i, d = fmt.make_snapshot(time, tz, author, tags, paths, tree) if v1 is None else fmt.make_snapshot_v1(v1, author, tags, paths, tree)
        self.put('snapshot', i, d)
        return i


LINK_TABLE = False


def variants(r):
    """Nodes that differ in one respect each."""
    b = dict(BASE)
    out = [('f', b'one', b), ('f', b'two', b), ('f', b'one!', b), ('f', b'', b), ('f', [b'one', b'two'], b)]
    for k, v in (('mode', 0o600), ('uid', 1001), ('gid', 7), ('atime', b['atime'] + 1), ('mtime', b['mtime'] + 1), ('mtime', b['mtime'] - 10 ** 9)):
        out.append(('f', b'one', dict(b, **{k: v})))
    out.append(('f', b'two', dict(b, mode=0o600, uid=3, mtime=17)))
    l = meta('l', r, dict(b, mode=0o777))
    out += [('l', 'x', l), ('l', 'y', l), ('l', './x', l), ('l', 'x', dict(l, mtime=3)), ('l', 'x', dict(l, uid=0, atime=4)), ('l', 'z', dict(l, mtime=3))]
    d = meta('d', r, dict(b, mode=0o755))
    kid = ('f', b'kid', b)
    out += [('d', {}, d), ('d', {'k': kid}, d), ('d', {'k': ('f', b'dik', b)}, d), ('d', {'k': kid}, dict(d, mode=0o40700)), ('d', {'k': ('f', b'kid', dict(b, mtime=9))}, d),
            ('d', {'k': ('l', 'kid', l)}, d), ('d', {'k': ('d', {'deep': ('d', {}, d)}, d)}, d), ('d', {'k': kid, 'k2': kid}, dict(d, gid=2)), ('d', {'j': kid}, d),
            ('d', {'k': ('d', {'deep': ('f', b'1', b), 'a': kid}, dict(d, atime=1))}, dict(d, atime=77))]
    return [(k, x, meta(k, r, m)) for k, x, m in out]


def crafted(c, item):
    """All pairs of node variants, many at once: entry n of the first snapshot against entry n of the second."""
    r = c.rng
    w = World(c)
    x = Writer(w)
    vs = variants(r) + [None]
    pairs = [(a, b) for a in vs for b in vs if a or b]
    r.shuffle(pairs)
    names = ['%s%d' % (r.choice(['n', 'N', '.', 'é', 'a.', '-', ' ', 'z']), i) for i in range(len(pairs))]
    groups = [list(zip(names, pairs))[k::item[1]] for k in range(item[1])]
    ids = []
    for n, g in enumerate(groups):
        d = meta('d', r, dict(BASE, mode=0o755))
        for side in (0, 1):
            kids = {nm: p[side] for nm, p in g if p[side]}
            t = x.tree({'x': ('d', kids, d)})
            ids.append(x.snap(10 ** 18 + len(ids), t, author='a%d' % len(ids), paths=('/s/x',)))
    x.flush()
    R = w.open()
    for k in range(0, len(ids), 2):
        for i, j in ((ids[k], ids[k + 1]), (ids[k + 1], ids[k]), (ids[k], ids[k])):
            for m in (False, True):
                compare(c, w, i, j, m, show.diff(show.load(R, R.snaps[i].tree), show.load(R, R.snaps[j].tree), m), fmt.name_of(i), fmt.name_of(j))
    stat(c, w, R)
    c.count('node variant pairs', len(pairs))


def run(ctx):
    items = [('crafted', 1), ('crafted', 4)] + [('edits', k) for k in range(40)]
    items += [('edits', k) for k in range(100, 6000)]
    ctx.cases(case, items, must=30)


def case(c, item):
    (crafted if item[0] == 'crafted' else edits)(c, item)

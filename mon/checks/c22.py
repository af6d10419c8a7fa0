"""C22: reported sizes and counts equal what is stored."""
import os
import re

import c19
import fmt
import show
import tree
from core import Violation
from ops import History
from world import World, random_world

LEVEL = 'exploration'
BUDGET = (30, 500)
RULE = ('Random histories (plain, filtered, cached) and repositories written directly (blobs stored twice, in both roles, unused, unindexed packs, superseded indexes, empty '
        'trees, no snapshots): everything `snapshots --sizes/--file-sizes [--stat] [-m] [-r]`, `usage`, and the final lines of each backup and prune print is recomputed from '
        'the decoded repository. Distinct: report kinds with shapes of the figures.')


def any_mode(c, what, out, make):
    offs = None
    for mode in show.MODES:
        want = [show.unpad(l) for l in make(mode)]
        if show.same(show.unpad(out), want):
            c.eval()
            return
        offs = offs or show.off(show.unpad(out), want)
    raise Violation('%s is wrong: %s' % (what, offs), out=out[:3000])


def reports(c, w, R=None):
    r = c.rng
    R = R or w.open()
    for flags in (dict(sizes=True), dict(files=True), dict(files=True, stat=True), dict(sizes=True, stat=True)):
        m, rev = r.random() < 0.4, r.random() < 0.3
        ids = None if r.random() < 0.6 or not R.snaps else r.sample(sorted(R.snaps), r.randrange(1, len(R.snaps) + 1))
        args = ['-f'] if flags.get('files') else ['-s']
        if flags.get('files') and r.random() < 0.3:
            args.append('-s')
        args += (['--stat'] if flags.get('stat') else []) + (['-m'] if m else []) + (['-r'] if rev else [])
        out = w.ok('snapshots', *args, *[fmt.name_of(i) for i in ids or ()]).stdout
        any_mode(c, 'snapshots ' + ' '.join(args), show.report(out), lambda mode: show.snapshots(R, ids=ids, reverse=rev, meta=m, mode=mode, **flags))
        c.see('snapshots', *args)
    usage(c, w, R)


def usage(c, w, R):
    r = w.ok('usage')
    acc = show.Sizes(R)
    for s in R.ordered():
        acc.add(s)
    n = len(R.snaps)
    size = lambda d: sum(v for f, v in R.sizes.items() if f.startswith(d + '/'))
    sn, ix, pk = size('snapshots'), size('indexes'), size('packs')
    packed = sum(l for m in R.indexed.values() for _, l, _ in m)

    def lines(mode):
        z = lambda v: show.nice(v, mode)
        o = []
        if n == 0:
            o.append('0 snapshots')
        else:
            o += ['%d snapshots' % n, z(acc.total[0]) + ' unique data', z(acc.total[1]) + ' reused (deduplicated)']
        k = len(R.indexes)
        l = '%d %s reference %d packs' % (k, 'index' if k == 1 else 'indexes', len(R.indexed))
        if packed > acc.total[0]:
            o += ['', l + ', including %s unused data.' % z(packed - acc.total[0]), 'Consider running `backpak prune`.']
        else:
            o += ['', l]
        o += ['', 'Filesystem usage after zstd compression%s:' % (' and ' + w.filt[1].split()[0] if w.filt else ''),
              'snapshots: ' + z(sn), 'indexes:   ' + z(ix), 'packs:     ' + z(pk), 'total:     ' + z(sn + ix + pk)]
        return o
    m = re.search(r'(?m)^\d+ snapshots', r.stdout)
    if not m:
        raise Violation('usage prints no number of snapshots: %s' % r.brief())
    out = r.stdout[m.start():]
    if n:
        m = re.match(r'(\d+) snapshots, from (\S+) to (\S+)\n', out)
        if not m:
            raise Violation('usage prints %r' % out[:200])
        for got, s in ((m.group(2), R.ordered()[0]), (m.group(3), R.ordered()[-1])):
            d = show.local(s)
            if d is not None and not got.startswith(d.strftime('%Y-%m-%dT%H:%M:%S') if d.year >= 1000 else ''):
                raise Violation('usage says a snapshot is of %s, it is of %s' % (got, d))
        out = re.sub(r'^(\d+ snapshots), from \S+ to \S+\n', r'\1\n', out)
    any_mode(c, 'usage', out, lines)
    c.see('usage', min(n, 3), packed > acc.total[0], len(R.indexed) > 0, bool(R.superseded), len(R.packs) > len(R.indexed))


def backup_lines(c, w, before, i, r, aborted=False):
    """The last figures a backup printed."""
    R = w.open(leftovers=True)
    ls = re.findall(r'P (\S+ \S+) \+ (\S+ \S+) \| R (\S+ \S+) \| Z (\S+ \S+) \| U (\S+ \S+)', r.stdout)
    ps = re.findall(r'(?i)\bi (\d+) packs indexed', r.stdout)
    if not ls or not ps:
        raise Violation('the backup prints no figures: %s' % r.brief())
    newp = set(R.packs) - set(before.packs)
    new = [(t, n) for p in newp for t, n, _ in R.packs[p]]
    ch, tr = sum(n for t, n in new if t == 'chunk'), sum(n for t, n in new if t == 'tree')
    up = sum(R.sizes[f] for f in R.sizes if f not in before.sizes and not f.startswith('snap'))
    s = R.snaps[i]
    acc = show.Sizes(R, empty=False)
    t, k, _, _, _ = acc.add(s)
    want = (ch, tr, t + k - ch - tr)
    got = ls[-1]
    for n, g, what in zip(want, got, ('new file data', 'new directory data', 'reused data')):
        if g not in {show.nice(n, m) for m in show.MODES}:
            raise Violation('the backup says %s of %s, it was %d bytes' % (g, what, n), out=r.stdout[-1000:])
    if not w.filt and got[4] not in {show.nice(up, m) for m in show.MODES}:
        raise Violation('the backup says %s were uploaded, it was %d bytes' % (got[4], up), out=r.stdout[-1000:])
    if int(ps[-1]) != len(newp):
        raise Violation('the backup says it indexed %s packs, it was %d' % (ps[-1], len(newp)))
    if ('Snaphsot %s done' % s.name[:8]) not in r.stdout and ('Snapshot %s done' % s.name[:8]) not in r.stdout:
        raise Violation('the backup does not name its snapshot %s: %s' % (s.name, r.stdout[-200:]))
    c.eval()
    c.see('backup', ch > 0, tr > 0, want[2] > 0)


def prune_lines(c, R, r):
    need = R.reach_all()
    z = lambda ps: sum(l for p in ps for _, l, _ in R.indexed[p])
    keep = [p for p, m in R.indexed.items() if all(i in need for _, _, i in m)]
    rest = [p for p in R.indexed if p not in keep]
    drop = [p for p in rest if not any(i in need for _, _, i in R.indexed[p])]
    part = [p for p in rest if p not in drop]
    want = []
    for mode in show.MODES:
        if rest:
            want.append('Keep %d packs (%s), rewrite %d (%s), drop %d (%s), and replace the %d current indexes' % (
                len(keep), show.nice(z(keep), mode), len(part), show.nice(z(part), mode), len(drop), show.nice(z(drop), mode), len(R.indexes)))
        else:
            want.append('All %s in use! Nothing to do.' % show.nice(z(keep), mode))
    if not any(l + '\n' in r.stdout for l in want):
        raise Violation('prune does not print %r: %s' % (want[0], r.stdout[-800:]))
    c.eval()
    c.see('prune', min(len(keep), 3), min(len(part), 3), min(len(drop), 3))


def hist(c, item):
    r = c.rng
    w = random_world(c)
    h = History(c, w, size='medium' if item[1] % 9 == 0 else None, ops=['backup'] * 4 + ['filter', 'forget', 'forgetdup', 'rebuild'])
    for _ in range(r.choice([3, 5, 8])):
        h.step()
        if r.random() < 0.5:
            for p in h.srcs:
                if os.path.isdir(p):
                    tree.mutate(r, p, r.choice([0, 1, 3]))
            before = w.open()
            snaps = w.snap_files()
            ps = r.choice(h.sets)
            want = tree.source(ps)
            res = w.ok('backup', '--allow-repeat', '--allow-empty', *ps)
            i = w.note_new(snaps, want, r=res)
            if 'Nothing backed up' not in res.stdout:
                backup_lines(c, w, before, i, res)
        if r.random() < 0.3:
            reports(c, w)
        if r.random() < 0.3:
            R = w.open()
            prune_lines(c, R, w.ok('prune', *(['-n'] if r.random() < 0.4 else [])))
    reports(c, w)
    c.sample(ops=h.log)


def crafted(c, item):
    r = c.rng
    w = World(c)
    reports(c, w)       # of nothing at all
    x = c19.Writer(w)
    b = c19.BASE
    d = c19.meta('d', r, b)
    f = lambda data: ('f', data, b)
    shapes = dict(
        empty={}, emptydir={'e': ('d', {}, d)}, role={'t': f(fmt.cbor({})), 'u': ('d', {}, d)},
        sames={'a': f(b'same'), 'b': f(b'same'), 'c': f([b'same', b'same', b'other'])},
        sizes={'n%d' % n: f(r.randbytes(n)) for n in (1, 499, 500, 501, 999, 1000, 1001, 1499, 1500, 1501, 2500, 9999)},
        big={'x': f([bytes([k]) * 400000 for k in range(5)]), 'y': f([bytes([k]) * 400000 for k in range(3, 8)]), 'z': f(b'q' * 999999)},
        pad={'ünï' * 9: f(b'1234'), 'q' * 80: f(b'12345'), 'e\u0301e\u0301': f(b'5'), 'l': ('l', 'target', c19.meta('l', r, b)), 'sub': ('d', {'e\u0301': f(b'55'), 'same': f(b'1234')}, d)},
    )
    names = list(shapes)
    r.shuffle(names)
    time = 10 ** 18
    for n in names[:r.randrange(2, 8)]:
        t = x.tree(shapes[n] if r.random() < 0.5 else {'x': ('d', shapes[n], d)})
        for _ in range(r.choice([1, 1, 2])):
            time += r.choice([0, 1, 10 ** 9, 10 ** 15])
            x.snap(time, t, author=r.choice(['a', 'b', 'Ü']) + str(time % 97) + str(len(w.snap_files())), tags=r.choice([(), ('t',), ('a b', 'c')]),
                   tz=r.choice(['UTC', 'America/New_York', 'Asia/Kolkata', '+05:30']), paths=r.choice([('/s/x',), ('/a/x', '/b/y')]))
        if r.random() < 0.4:
            x.flush()
        c.see('shape', n)
    x.add('chunk', b'unused' * r.choice([1, 100, 1000]))
    x.flush()
    kind = r.choice(['', 'twice', 'unindexed', 'superseded', 'dropped'])
    R = w.open(stale_indexes=True) if False else w.open()
    if kind == 'twice':
        bs = [('chunk', R.blob(i)) for i, v in R.blobs.items() if v[0] == 'chunk'][:3]
        if bs:
            i, data, man = fmt.make_pack(bs + [('chunk', b'extra')])
            fmt.put(w.repo, 'pack', i, data)
            i, data = fmt.make_index({i: man})
            fmt.put(w.repo, 'index', i, data)
    elif kind == 'unindexed':
        i, data, man = fmt.make_pack([('chunk', r.randbytes(5000))])
        fmt.put(w.repo, 'pack', i, data)
    elif kind == 'superseded':
        i, data = fmt.make_index({p: [dict(type=t, length=n, id=b) for t, n, b in m] for p, m in R.indexed.items()}, sorted(R.indexes))
        fmt.put(w.repo, 'index', i, data)
    c.see('kind', kind)
    R = w.open()
    reports(c, w, R)
    prune_lines(c, R, w.ok('prune', '-n'))
    if kind == 'dropped':
        for i in sorted(R.snaps):
            w.ok('forget', fmt.name_of(i))
        R = w.open()
        reports(c, w, R)
        prune_lines(c, R, w.ok('prune'))
        reports(c, w)


def case(c, item):
    (crafted if item[0] == 'crafted' else hist)(c, item)


def run(ctx):
    items = [('crafted', k) for k in range(12)] + [('hist', k) for k in range(20)]
    items += [('hist' if k % 3 else 'crafted', k) for k in range(100, 6000)]
    ctx.cases(case, items, must=30)

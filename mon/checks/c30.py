"""C30: files in every documented format version stay readable and stable."""
import hashlib
import os
import shutil

import fmt
import show
import tree
from checks.c19 import BASE
from core import Violation
from world import FILTERS, World, random_world, sources

LEVEL = 'exploration'
BUDGET = (30, 500)
RULE = ('An independent writer makes repositories from the documented formats: version-1 and -2 snapshots, chains and forks of superseded indexes (some stale, wrong, or naming packs long gone), blobs in several packs, any '
        'compression level, files of chunks of any size, maps of definite or indefinite length with their fields in any order, Windows metadata, snapshots sharing trees. check -r has to accept them, ls, dump, cat, '
        'restore and snapshots have to give what was put in, and still after prune, rebuild-index, copy, filter-snapshot, forget and backups on top. What the tool writes is encoded again independently: '
        'trees, manifests, indexes and snapshots must come out as the same bytes and IDs, whatever the pack size, order, working directory, or zone. Distinct: (feature, operation).')
ASSUMES = ['the documents do not fix the order of fields; other orders than the tool\'s own are only tried in trees']

WIN = ['type', 'attributes', 'size', 'creation_time', 'access_time', 'write_time']
POSIX = ['type', 'mode', 'size', 'uid', 'gid', 'atime', 'mtime']


class Foreign:
    """Another writer of the formats, and what it wrote."""

    def __init__(self, c, w):
        self.c, self.w, self.r = c, w, c.rng
        self.store = {}         # id -> (type, bytes)
        self.model = {}         # snapshot -> {path: entry}
        self.windows = set()    # snapshots with such metadata
        self.pools = []
        self.odd = self.r.random() < 0.4
        self.win = self.r.random() < 0.3

    def blob(self, t, b):
        i = fmt.sha(b)
        self.store[i] = (t, b)
        return i

    def meta(self, k, mode, mtime, size):
        r = self.r
        if self.win:
            m = dict(type='windows', attributes={'f': 0x20, 'd': 0x10, 'l': 0x400}[k], creation_time=r.choice([None, mtime - 5]), access_time=r.choice([None, mtime + 5]), write_time=mtime)
            order = WIN
        else:
            m = dict(type='posix', mode={'f': 0o100000, 'd': 0o40000, 'l': 0o120000}[k] | mode, uid=r.choice([0, 1000, 2 ** 32 - 2]), gid=r.choice([0, 7]), atime=mtime + 10 ** 9, mtime=mtime)
            order = POSIX
        if k == 'f':
            m['size'] = size
        ks = [x for x in order if x in m]
        if self.odd:
            r.shuffle(ks)
        return (fmt.Indef if self.odd and r.random() < 0.3 else dict)({x: m[x] for x in ks})

    def chunks(self, b):
        r = self.r
        how = r.choice(['one', 'one', 'few', 'many', 'repeat'])
        if how == 'one' or len(b) < 4:
            return [b] if b else []
        if how == 'repeat':
            b = b[:len(b) // 4 or 1]
            return [b] * 3
        cuts = sorted(r.sample(range(1, len(b)), min(len(b) - 1, 2 if how == 'few' else 12)))
        return [b[i:j] for i, j in zip([0] + cuts, cuts + [len(b)])]

    def tree(self, depth, out, pre, names=None):
        r = self.r
        kids = {}
        n = r.choice([0, 1, 3, 6]) if depth < 3 else r.choice([0, 1, 2])
        names = names or [r.choice(['a', 'B', '.h', 'é', 'z z', '-x', 'n', '0', 'a.b', '\u4e2d', "q'"]) + r.choice(['', '1', '22', 'x' * 100]) for _ in range(n)]
        for name in sorted(set(names), key=lambda s: s.encode()):
            k = r.choice('fffdl') if depth else 'd'
            mode = r.choice([0o644, 0o755, 0o600, 0o444, 0o4755, 0o777]) if k == 'f' else r.choice([0o755, 0o700, 0o1777, 0o2755]) if k == 'd' else 0o777
            mtime = r.choice([0, 1, 10 ** 18, 1234567890123456789, 4 * 10 ** 18, -1, -10 ** 17, r.randrange(2 * 10 ** 18)])
            p = pre + name
            if k == 'f':
                b = r.choice([b'', b'x', r.randbytes(r.randrange(1, 3000)), bytes(r.randrange(1, 5000)), b'text ' * r.randrange(1, 4000), self.r.choice(self.pools) if self.pools else b'p'])
                cs = self.chunks(b)
                b = b''.join(cs)
                self.pools = (self.pools + [b])[-20:]
                c = [self.blob('chunk', x) for x in cs]
                out[p] = ('f', hashlib.sha1(b).hexdigest(), mode, mtime, len(b))
                v = ('chunks', c, self.meta('f', mode, mtime, len(b)))
            elif k == 'l':
                t = r.choice(['x', '../y', '/abs/olute', 'no where', 'é', 'a//b', './', 't' * 200])
                out[p] = ('l', t, 0o777, mtime, 0)
                v = ('symlink', t, self.meta('l', 0o777, mtime, 0))
            else:
                out[p] = ('d', None, mode, mtime, 0)
                v = ('tree', self.tree(depth + 1, out, p + '/'), self.meta('d', mode, mtime, 0))
            node = [(v[0], v[1]), ('metadata', v[2])]
            if self.odd and r.random() < 0.5:
                node.reverse()
            kids[name] = (dict if self.odd and r.random() < 0.4 else fmt.Indef)(node)
        if self.odd:
            ks = list(kids)
            r.shuffle(ks)
            kids = {k: kids[k] for k in ks}
        return self.blob('tree', fmt.cbor(fmt.Indef(kids) if self.odd and r.random() < 0.2 and kids else kids))

    def put(self, kind, i, d):
        fmt.put(self.w.repo, kind, i, fmt.run_filter(self.w.filt[1], d) if self.w.filt else d)

    def snapshot(self, last=None):
        """Adds one; its trees are kept for packs()."""
        r = self.r
        tops = ['top', 'other', 'Déjà'][:r.choice([1, 1, 2, 3])]
        if last and r.random() < 0.3:
            tid, out, tops = last
        else:
            out = {}
            tid = self.tree(0, out, '', tops)
        paths = sorted('/%s/%s' % (r.choice(['home', 'a b', 'q']), t) for t in tops)
        author, tags = r.choice(['', 'me', 'ünï', 'a' * 300]), r.choice([[], ['t'], ['b', 'ä', ' ']])
        if r.random() < 0.5:
            text = r.choice(['2020-02-29T12:34:56.%09d+00:00', '2021-11-07T01:30:00.%09d-08:00[America/Los_Angeles]', '2022-07-01T00:00:00.%09d+05:30', '1969-12-31T23:59:59.%09d+00:00'])
            text = text.replace('.%09d', r.choice(['', '.%09d', '.%09d', '.%03d', '.%06d']))
            if '%' in text:
                text %= r.randrange(1000)
            i, d = fmt.make_snapshot_v1(text, author, tags, paths, tid)
            self.c.see('version 1', len(text), text[-6:])
        else:
            i, d = fmt.make_snapshot(r.randrange(2 * 10 ** 18), r.choice(['UTC', 'Asia/Tokyo', 'Europe/Berlin', '+05:30', '-03:00']), author, tags, paths, tid)
            self.c.see('version 2', bool(tags))
        self.put('snapshot', i, d)
        self.model[i] = out
        if self.win and out:
            self.windows.add(i)
        return tid, out, tops

    def packs(self):
        """Writes packs and indexes."""
        r = self.r
        packs = {}
        for t in ('chunk', 'tree'):
            bs = [(k, b) for k, (tt, b) in self.store.items() if tt == t]
            r.shuffle(bs)
            n = r.choice([1, 1, 3, 10])
            groups = [bs[k::n] for k in range(n)]
            if r.random() < 0.4 and bs:
                groups.append(r.sample(bs, r.randrange(1, len(bs) + 1)))        # some of them once more
                self.c.see('blobs in several packs')
            for g in groups:
                if g:
                    i, d, man = fmt.make_pack([(t, b) for _, b in g], r.choice([1, 3, 3, 9, 19, -5]))
                    self.put('pack', i, d)
                    packs[i] = man
        ids = sorted(packs)
        # Indexes that others have replaced: any nonsense may be in them.
        dead = []
        for _ in range(r.choice([0, 0, 1, 3])):
            stale = {k: packs[k] for k in r.sample(ids, r.randrange(len(ids) + 1))}
            for _ in range(r.choice([0, 1, 2])):
                stale[r.randbytes(28)] = [dict(type='chunk', length=5, id=r.randbytes(28))]
            if stale and r.random() < 0.3:
                k = r.choice(sorted(stale))
                stale[k] = [dict(e, length=e['length'] + 1) for e in stale[k]]
            sup = [r.randbytes(28) for _ in range(r.choice([0, 0, 2]))] + (r.sample(dead, 1) if dead and r.random() < 0.6 else [])
            i, d = fmt.make_index(stale, sup)
            if i not in dead:
                dead.append(i)
            if r.random() < 0.8:
                self.put('index', i, d)
                self.c.see('superseded index', bool(sup))
        n = r.choice([1, 1, 2, 4])
        groups = [ids[k::n] for k in range(n)]
        if r.random() < 0.3 and ids:
            groups.append(r.sample(ids, r.randrange(1, len(ids) + 1)))
            self.c.see('packs in several indexes')
        if dead:
            groups[0:0] = [[]] if r.random() < 0.2 else []
        for k, g in enumerate(groups):
            sup = dead if k == 0 else r.sample(dead, r.randrange(len(dead) + 1))
            i, d = fmt.make_index({p: packs[p] for p in g}, sup)
            while i in dead:
                i, d = fmt.make_index({p: packs[p] for p in g}, sup + [r.randbytes(28)])
            self.put('index', i, d)
        self.c.see('odd encodings', self.odd)
        self.c.see('windows', self.win)


def entries(R, s):
    """As R.entries(), for any metadata."""
    out = {}

    def walk(i, pre):
        for name, (k, c, m) in R.tree(i).items():
            mode, mtime = (m['mode'] & 0o7777, m['mtime']) if m['type'] == 'posix' else (None, m['write_time'])
            if k == 'f':
                b = b''.join(R.blob(x) for x in c)
                out[pre + name] = ('f', hashlib.sha1(b).hexdigest(), mode, mtime, len(b))
            elif k == 'l':
                out[pre + name] = ('l', c, mode, mtime, 0)
            else:
                out[pre + name] = ('d', None, mode, mtime, 0)
                walk(c, pre + name + '/')
    walk(s.tree, '')
    return out


def holds(R, s, want, what):
    got = entries(R, s)
    a = {p: (e[0], e[1], e[3], e[4]) for p, e in want.items()}
    b = {p: (e[0], e[1], e[3], e[4]) for p, e in got.items()}
    if a != b:
        bad = [p for p in sorted(set(a) | set(b)) if a.get(p) != b.get(p)]
        raise Violation('%s: %s is %s, not %s' % (what, bad[0], b.get(bad[0]), a.get(bad[0])))


def read(c, w, f, model, few=2):
    """What the tool reads is what was written."""
    r = c.rng
    R = w.open()
    w.ok('check', '-r')
    w.ok('check')
    if not f.win:
        m, rev = r.random() < 0.5, r.random() < 0.5
        out = w.ok('snapshots', '--stat', *(['-m'] if m else []), *(['-r'] if rev else [])).stdout
        R.by_chunks = True      # The same bytes cut otherwise count as changed
        want = show.snapshots(R, reverse=rev, stat=True, meta=m)
        if not show.same(show.report(out), want):
            raise Violation('snapshots --stat is wrong: %s' % show.off(show.report(out), want))
    for i in r.sample(sorted(model), min(few, len(model))):
        n, s, want = fmt.name_of(i), R.snaps[i], model[i]
        holds(R, s, want, 'snapshot %s' % n)
        out = w.ok('ls', n).stdout
        lines = show.ls(show.load(R, s.tree))
        if not show.same(out, lines):
            raise Violation('ls is wrong: %s' % show.off(out, lines))
        for p in r.sample(sorted(p for p in want if want[p][0] == 'f'), min(3, sum(want[p][0] == 'f' for p in want))):
            out = w.ok('dump', n, '--', p).out
            if hashlib.sha1(out).hexdigest() != want[p][1]:
                raise Violation('dump gives other bytes for %s' % p)
        out = c.fresh('out')
        posix = i not in f.windows
        w.ok('restore', '-t', *(['-p'] if posix else []), '-o', out, n)
        got = {}
        if len(s.paths) == 1:
            tree.capture(out, into=got, prefix=os.path.basename(s.paths[0]))
        else:
            for x in sorted(os.listdir(out)):
                tree.capture(os.path.join(out, x), into=got, prefix=x)
        if not posix:
            q = w.run('restore', '-p', '-o', c.fresh('winp'), n)
            c.clean_fail(q)
        d = tree.differences({p: (e[0], e[1], {'f': 0o100000, 'd': 0o40000, 'l': 0o120000}[e[0]] | e[2], e[3], e[4]) for p, e in want.items()}, got, mode=posix, mtime=True)
        if d:
            raise Violation('snapshot %s is restored wrongly: %s' % (n, d))
        c.count('entries compared', len(want))
        c.count('snapshots restored')
        tree.wipe(out)
    bs = [i for i in sorted(R.blobs) if R.blobs[i][0] == 'chunk']
    for i in r.sample(bs, min(3, len(bs))):
        if w.ok('cat', 'blob', fmt.name_of(i)).out != R.blob(i):
            raise Violation('cat blob gives other bytes')
    for sub, k in ((R.inforce, 'index'), (R.packs, 'pack'), (R.snaps, 'snapshot')):
        for i in r.sample(sorted(sub), min(1, len(sub))):
            w.ok('cat', k, fmt.name_of(i))
    c.eval()
    return R


def foreign(c, item):
    r = c.rng
    w = random_world(c, filt=r.choice(FILTERS) if r.random() < 0.15 else False, small_packs=True)
    w.filt = w.filt or None
    f = Foreign(c, w)
    last = None
    for _ in range(r.choice([1, 2, 4])):
        last = f.snapshot(last)
    f.packs()
    model = dict(f.model)
    R = read(c, w, f, model, 3)
    for _ in range(r.choice([1, 2, 4])):
        op = r.choice(['prune', 'prune', 'rebuild-index', 'copy', 'filter', 'forget', 'backup', 'more'])
        c.see('then', op, f.odd, f.win)
        if op in ('prune', 'rebuild-index'):
            w.ok(op)
            R = w.open()
            R.audit(unindexed=op == 'rebuild-index', stale_indexes=True)
        elif op == 'copy':
            dst = World(c, name='dst%d' % r.getrandbits(30), pack_size=r.choice([None, '5KB', '1MB']))
            ids = r.sample(sorted(model), r.randrange(1, len(model) + 1))
            w.ok('copy', '-t', dst.repo, *[fmt.name_of(i) for i in ids])
            D = dst.open().audit()
            S = w.open(streams=False)
            for i in ids:
                s = S.snaps[i]
                hit = [t for t in D.snaps.values() if t.time == s.time and t.author == s.author and list(t.paths) == list(s.paths) and list(t.tags) == list(s.tags)
                       and (f.odd or t.tree == s.tree and (s.version == 1 or t.id == s.id))]
                if f.odd:
                    hit = [t for t in hit if {p: e[:2] for p, e in entries(D, t).items()} == {p: e[:2] for p, e in model[i].items()}][:1]
                if len(hit) != 1 or (s.version == 1 and hit[0].version != 2):
                    raise Violation('the copy of %s is not in the destination: %s of %s' % (s.name, s.facts(), [t.facts() for t in D.snaps.values()]))
                holds(D, hit[0], model[i], 'the copy of ' + s.name)
            dst.ok('check', '-r')
        elif op == 'filter':
            i = r.choice(sorted(model))
            before = w.snap_files()
            from ops import filtered
            w.ok('filter-snapshot', '-k', '-s', r'(^|/)[a-n]', fmt.name_of(i))
            new = w.snap_files() - before
            if new:
                j = fmt.raw_of(new.pop())
                model[j] = filtered(model[i], [r'(^|/)[a-n]'])
                if i in f.windows:
                    f.windows.add(j)
        elif op == 'forget':
            if len(model) < 2:
                continue
            i = r.choice(sorted(model))
            w.ok('forget', fmt.name_of(i))
            del model[i]
        elif op == 'backup':
            src = sources(c, size='tiny')
            before = w.snap_files()
            w.ok('backup', '--allow-repeat', '--allow-empty', *src)
            i = fmt.raw_of((w.snap_files() - before).pop())
            want = tree.source(src)
            d = tree.differences(want, w.open().entries(w.open().snaps[i]))
            if d:
                raise Violation('a backup onto another writer\'s repository holds something else: %s' % d)
            w.ok('forget', fmt.name_of(i))
        else:
            f.store = {}
            last = f.snapshot()
            f.packs()
            model.update({i: m for i, m in f.model.items() if i not in model and fmt.name_of(i) in w.snap_files()})
            R = w.open(streams=False)
        if fmt.name_of(next(iter(model))) not in w.snap_files():
            raise Violation('%s lost a snapshot' % op)
        R = read(c, w, f, model, 1)
        if set(R.snaps) != set(model):
            raise Violation('%s left other snapshots' % op)
    c.sample(snapshots=len(model), packs=len(R.packs), odd=f.odd, windows=f.win, steps=c.steps[-4:])


def order_meta(m, deref=None):
    return {k: m[k] for k in POSIX if k in m}


def expected_tree(path, R, i, c):
    """The ID a tree of this directory has to have, worked out from the files."""
    kids = {}
    stored = R.tree(i)
    for n in sorted(os.listdir(path), key=os.fsencode):
        p = os.path.join(path, n)
        if n not in stored:
            continue
        kids[n] = node(p, R, stored[n], c)
    b = fmt.cbor(kids)
    c.count('trees encoded again')
    return fmt.sha(b)


def node(p, R, got, c):
    st = os.lstat(p)
    m = dict(type='posix', mode=st.st_mode, uid=st.st_uid, gid=st.st_gid, atime=st.st_atime_ns, mtime=st.st_mtime_ns)
    if os.path.islink(p):
        return fmt.Indef(symlink=os.readlink(p), metadata=order_meta(m))
    if os.path.isdir(p):
        return fmt.Indef(tree=expected_tree(p, R, got[1], c), metadata=order_meta(m))
    m['size'] = st.st_size
    b = tree._read(p)
    if len(b) <= 512 * 1024:
        cs = [fmt.sha(b)] if b else []
    else:
        cs, off = [], 0
        for x in got[1]:
            k = len(R.blob(x))
            cs.append(fmt.sha(b[off:off + k]))
            off += k
    return fmt.Indef(chunks=cs, metadata=order_meta(m))


def again(c, R, raw):
    """Everything stored is what an independent encoder makes of it."""
    for i, m in R.packs.items():
        b = fmt.cbor([dict(type=t, length=n, id=x) for t, n, x in m])
        if fmt.sha(b) != i:
            raise Violation('manifest of pack %s is not encoded as documented' % fmt.name_of(i))
        c.count('manifests encoded again')
    for i, (sup, packs) in R.indexes.items():
        b = fmt.cbor(dict(supersedes=sorted(sup), packs={p: [dict(type=t, length=n, id=x) for t, n, x in packs[p]] for p in sorted(packs)}))
        if fmt.sha(b) != i:
            raise Violation('index %s is not encoded as documented' % fmt.name_of(i))
        c.count('indexes encoded again')
    for s in R.snaps.values():
        i, b = fmt.make_snapshot(s.time, s.tz, s.author, s.tags, s.paths, s.tree)
        # paths are ordered by component
        v = dict(time=s.time, tz=s.tz, author=s.author, **({'tags': sorted(s.tags, key=lambda t: t.encode())} if s.tags else {}), paths=sorted(s.paths, key=lambda p: [x.encode() for x in p.split('/')]), tree=s.tree)
        if fmt.sha(fmt.cbor(v)) != s.id:
            raise Violation('snapshot %s is not encoded as documented: %s' % (s.name, s.raw.hex()))
        c.count('snapshots encoded again')


def stable(c, item):
    r = c.rng
    from world import freeze_atimes
    src = sources(c)
    for p in src:
        freeze_atimes(p)
    ids = []
    blobs = []
    for k in range(r.choice([2, 3])):
        w = World(c, name='repo%d' % k, pack_size=r.choice([None, '5KB', '100KB', '1MB']), cached=r.random() < 0.2)
        w.cwd = c.fresh('wd')
        if k and r.random() < 0.4:
            w.backup([c.fresh('empty')], '--allow-empty')
            for p in src:
                freeze_atimes(p)
        ps = src if r.random() < 0.5 else src[::-1]
        shim = dict(BPV_DELAY='%d:800:0.1' % r.getrandbits(30), BPV_SCOPE=w.repo) if r.random() < 0.4 else None
        i = w.backup(ps, '--allow-empty', want=tree.source(src), shim=shim, env=dict(TZ=r.choice(['UTC', 'Asia/Tokyo', 'America/New_York'])))
        for p in src:
            freeze_atimes(p)
        R = w.verify()
        again(c, R, None)
        ids.append(R.snaps[i].tree)
        blobs.append({x for x in R.reach(R.snaps[i].tree)})
    if len(set(ids)) != 1 or any(b != blobs[0] for b in blobs):
        raise Violation('the same files give different trees: %s' % [fmt.name_of(t) for t in ids])
    kids = {}
    got = R.tree(ids[0])
    for p in src:
        kids[os.path.basename(p)] = node(p, R, got[os.path.basename(p)], c)
    want = fmt.sha(fmt.cbor({k: kids[k] for k in sorted(kids, key=lambda s: s.encode())}))
    if want != ids[0]:
        raise Violation('the tree of these files is %s, not %s' % (fmt.name_of(ids[0]), fmt.name_of(want)))
    c.see('root', len(src), len(blobs[0]).bit_length())
    # Indexes of the same packs are the same, to the byte.
    made = []
    for k in range(2):
        q = c.path('twin%d' % k)
        shutil.copytree(w.repo, q)
        for f in os.listdir(os.path.join(q, 'indexes')):
            os.unlink(os.path.join(q, 'indexes', f))
        c.ok(q, 'rebuild-index', shim=dict(BPV_DELAY='%d:800:0.3' % r.getrandbits(30), BPV_SCOPE=q))
        made.append({f: tree._read(os.path.join(q, 'indexes', f)) for f in os.listdir(os.path.join(q, 'indexes'))})
    if made[0] != made[1]:
        raise Violation('two indexes of the same packs differ: %s and %s' % (sorted(made[0]), sorted(made[1])))
    again(c, fmt.open_repo(q), None)
    c.eval()


def run(ctx):
    fs = dict(foreign=foreign, stable=stable)
    items = [(('foreign', 'foreign', 'stable')[k % 3], k) for k in range(30)]
    items += [(('foreign', 'foreign', 'stable')[k % 3], k) for k in range(100, 6000)]
    ctx.cases(lambda c, i: fs[i[0]](c, i), items, must=24)

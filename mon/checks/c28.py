"""C28: ls, dump and cat show exactly what a snapshot holds."""
import hashlib
import json
import os
import threading
from datetime import datetime, timedelta, timezone

import c19
import c22
import fmt
import show
import tree
from core import Violation
from ops import History
from world import World, random_world

LEVEL = 'exploration'
BUDGET = (30, 500)
RULE = ('For snapshots of random histories and directly written ones, `ls`, `dump` of every kind of path (and of paths that do not exist, lead through files or links, are '
        'absolute or have dots), to standard output and to a file, and `cat` of every blob, pack, index and snapshot are compared with the decoded repository. Distinct: '
        'kinds of path and object asked for. One file is of more than four gigabytes.')


def text(b):
    return b.decode('utf-8', 'surrogateescape')


def look(c, w, R, i, everything=False):
    r = c.rng
    s = R.snaps[i]
    kids = show.load(R, s.tree)
    n = fmt.name_of(i)
    res = w.ok('ls', n)
    want = show.ls(kids)
    if not show.same(res.stdout, want):
        raise Violation('ls %s is wrong: %s' % (n, show.off(res.stdout, want)), out=res.stdout[:2000])
    c.eval()
    c.see('ls', min(len(want), 5))
    c.count('listed entries compared', len(want))
    ps = list(show.walk(kids))
    pick = ps if everything else r.sample(ps, min(len(ps), 14))
    for p, x in pick:
        dump(c, w, R, n, p, x)
    absent(c, w, R, n, kids, ps)


def chunk_bytes(R, x):
    return b''.join(R.blob(i) for i in x.chunks)


def dump(c, w, R, n, p, x):
    r = c.rng
    q = p
    if r.random() < 0.15:
        q = r.choice(['./' + p, p + '/', p.replace('/', '//'), p.replace('/', '/./')])
    to = r.choice([None, None, '-', 'file', 'over'])
    args = []
    if to == '-':
        args = ['-o', '-']
    elif to:
        out = c.path('dumped')
        if os.path.lexists(out):
            os.unlink(out)
        if to == 'over':
            tree.write(out, r.randbytes(100000))
        args = ['-o', out]
    res = w.ok('dump', *args, n, '--', q)
    got = res.out
    if to in ('file', 'over'):
        if got:
            raise Violation('dump to a file also printed %r' % got[:200])
        with open(out, 'rb') as f:
            got = f.read()
    if x.kind == 'f':
        if got != chunk_bytes(R, x):
            raise Violation('dump of %r gives %d bytes that are not the file\'s %d' % (q, len(got), len(chunk_bytes(R, x))))
        c.count('bytes dumped', len(got))
    else:
        forms = {q.rstrip('/'), p}
        ok = False
        for f in forms:
            if x.kind == 'l':
                want = [f + ' -> ' + x.content]
                alt = [f + '-> ' + x.content]
            else:
                want = [f + '/'] + [show.label(f + '/' + m, k) for m, k in x.kids.items()]
                alt = [f + '/'] + [f + '/' + m + ('-> ' + k.content if k.kind == 'l' else '/' if k.kind == 'd' else '') for m, k in x.kids.items()]
            ok = ok or show.same(text(got), want) or show.same(text(got), alt)
        if not ok:
            raise Violation('dump of %r is wrong: %s' % (q, show.off(text(got), alt)), got=got[:2000])
    c.eval()
    c.see('dump', x.kind, to, q == p, min(len(x.kids or ()), 3))


def absent(c, w, R, n, kids, ps):
    r = c.rng
    bad = ['nosuch', '/', '/etc/passwd', '..', 'a' * 300]
    for p, x in r.sample(ps, min(3, len(ps))):
        bad += [p + 'x', '/' + p, p + '/..', os.path.dirname(p) + '/nosuch' if '/' in p else 'nosuch2', p + '/../' + os.path.basename(p), p.swapcase()]
        if x.kind in 'fl':
            bad += [p + '/x', p + '/' + os.path.basename(p)]
        if '/' in p:
            bad.append(p.split('/', 1)[1])
    have = {p for p, _ in ps}
    for p in r.sample(bad, min(5, len(bad))):
        if os.path.normpath(p) in have and '..' not in p.split('/') and not p.startswith('/') or not p or p in have:
            continue
        w.fails('dump', n, '--', p)
        out = c.path('absent')
        res = w.fails('dump', '-o', out, n, '--', p)
        c.eval(2)
        c.see('absent', p.count('/') > 0, p.startswith('/'), '..' in p)


def when(v):
    """Nanoseconds of an ISO time."""
    v = v.split('[')[0]
    sign = 1
    body, z = (v[:-1], '+00:00') if v.endswith('Z') else (v[:-6], v[-6:])
    frac = 0
    if '.' in body:
        body, f = body.split('.')
        frac = int(f.ljust(9, '0'))
    d = datetime.strptime(body, '%Y-%m-%dT%H:%M:%S').replace(tzinfo=timezone.utc)
    off = (int(z[1:3]) * 60 + int(z[4:6])) * 60 * (-1 if z[0] == '-' else 1)
    t = d - datetime(1970, 1, 1, tzinfo=timezone.utc)
    return (t.days * 86400 + t.seconds - off) * 10 ** 9 + frac


def same_meta(a, m):
    g = lambda v: v if isinstance(v, int) else when(v)
    want = dict(m)
    got = dict(a)
    for k in ('atime', 'mtime'):
        got[k] = g(got[k])
    return got == want


def blob(c, w, R, i):
    res = w.ok('cat', 'blob', fmt.name_of(i))
    t = R.types[i]
    data = R.blob(i)
    if 'chunk' in t and res.out == data:
        pass
    elif 'tree' in t:
        try:
            v = json.loads(res.out)
        except ValueError:
            raise Violation('cat blob %s gives neither its bytes nor JSON' % fmt.name_of(i))
        want = fmt.parse_tree(data)
        if set(v) != set(want):
            raise Violation('cat blob %s lists %s, not %s' % (fmt.name_of(i), sorted(v)[:5], sorted(want)[:5]))
        for name, (k, x, m) in want.items():
            e = v[name]
            if k == 'f':
                ok = e.get('chunks') == [fmt.name_of(b) for b in x]
            elif k == 'd':
                ok = e.get('tree') == fmt.name_of(x)
            else:
                ok = e.get('symlink') in (x, {'target': x})
            if not ok or not same_meta(e['metadata'], m):
                raise Violation('cat blob %s shows %r wrongly: %s' % (fmt.name_of(i), name, e))
    else:
        raise Violation('cat blob %s gives other bytes' % fmt.name_of(i))
    c.eval()
    c.see('cat blob', *sorted(t))


def objects(c, w, R, some=5):
    r = c.rng
    for i in r.sample(sorted(R.blobs), min(some, len(R.blobs))):
        blob(c, w, R, i)
    man = lambda m: [dict(type=t, length=n, id=fmt.name_of(i)) for t, n, i in m]
    for p in r.sample(sorted(R.packs), min(3, len(R.packs))):
        if json.loads(w.ok('cat', 'pack', fmt.name_of(p)).out) != man(R.packs[p]):
            raise Violation('cat pack %s is wrong' % fmt.name_of(p))
        c.eval()
        c.see('cat pack')
    for x in r.sample(sorted(R.indexes), min(3, len(R.indexes))):
        v = json.loads(w.ok('cat', 'index', fmt.name_of(x)).out)
        sup, packs = R.indexes[x]
        if v.get('packs') != {fmt.name_of(p): man(m) for p, m in packs.items()} or sorted(v.get('supersedes', [])) != sorted(fmt.name_of(q) for q in sup):
            raise Violation('cat index %s is wrong' % fmt.name_of(x))
        c.eval()
        c.see('cat index', bool(sup))
    for i in r.sample(sorted(R.snaps), min(3, len(R.snaps))):
        s = R.snaps[i]
        v = json.loads(w.ok('cat', 'snapshot', fmt.name_of(i)).out)
        if v.get('author') != s.author or v.get('tags', []) != list(s.tags) or v.get('paths') != list(s.paths) or v.get('tree') != fmt.name_of(s.tree):
            raise Violation('cat snapshot %s is wrong: %s' % (s.name, v))
        if s.version == 2 and 1678 < int(v['time'][:4] if v['time'][0] != '-' else 0) < 2262 and when(v['time']) != s.time:
            raise Violation('cat snapshot %s says its time is %s, it is %d' % (s.name, v['time'], s.time))
        c.eval()
        c.see('cat snapshot', bool(s.tags), len(s.paths) > 1)
    # What is not there.
    ids = list(R.blobs) + list(R.packs) + list(R.indexes) + list(R.snaps)
    for kind, have in (('blob', R.blobs), ('pack', R.packs), ('index', R.indexes), ('snapshot', R.snaps)):
        other = [i for i in ids if i not in have]
        for i in r.sample(other, min(2, len(other))) + [r.randbytes(28)]:
            if kind == 'snapshot' or r.random() < 0.7:
                w.fails('cat', kind, fmt.name_of(i))
                c.eval()
        bad = r.choice(['', 'x', fmt.name_of(r.randbytes(28))[:-1], fmt.name_of(r.randbytes(28)) + '0', 'LAST!', 'W' * 45, 'é' * 45])
        w.fails('cat', kind, bad)
        c.eval()
        c.see('cat absent', kind)


def hist(c, item):
    r = c.rng
    w = random_world(c)
    h = History(c, w, size='medium' if item[1] % 7 == 0 else None, ops=['backup'] * 5 + ['filter', 'forget', 'prune', 'rebuild'])
    for _ in range(r.choice([2, 4, 7])):
        h.step()
    R = w.open()
    for i in r.sample(sorted(R.snaps), min(2, len(R.snaps))):
        look(c, w, R, i)
    objects(c, w, R)
    c.sample(ops=h.log)


def crafted(c, item):
    r = c.rng
    w = World(c)
    x = c19.Writer(w)
    b = c19.BASE
    d = c19.meta('d', r, b)
    l = c19.meta('l', r, b)
    f = lambda data: ('f', data, b)
    kids = {'same': f([b'x', b'y', b'x', b'x']), 'empty': f(b''), 'tree': f(fmt.cbor({})), 'dir': ('d', {}, d), 'one': ('d', {'dir': ('d', {'dir': ('d', {}, d)}, d), 'same': f(b'z')}, d),
            'link': ('l', 'dir', l), 'abs': ('l', '/etc/passwd', l), 'Dir': f(b'upper'), 'dir2': ('d', {'link': ('l', '../same', l)}, d)}
    for _ in range(3):
        sub = {k: kids[k] for k in r.sample(sorted(kids), r.randrange(len(kids) + 1))}
        x.snap(r.choice([10 ** 18, 5, -10 ** 18, 17 * 10 ** 17 + 123456789]) + r.randrange(1000), x.tree(r.choice([sub, {'x': ('d', sub, d)}])),
               author=r.choice(['', 'a', 'ü "q"\n']), tags=r.choice([(), ('t',), ('a', 'b c')]), tz=r.choice(['UTC', 'Europe/Paris', '-03:30']), paths=r.choice([(), ('/s/x',)]))
    x.flush()
    R = w.open()
    for i in R.snaps:
        look(c, w, R, i, everything=True)
    objects(c, w, R, some=30)


class Sink:
    """Standard output that is hashed rather than kept."""

    def __init__(self):
        self.r, self.w = os.pipe()
        self.h, self.n = hashlib.sha1(), 0
        self.t = threading.Thread(target=self.drain)
        self.t.start()

    def drain(self):
        while True:
            b = os.read(self.r, 1 << 20)
            if not b:
                break
            self.h.update(b)
            self.n += len(b)
        os.close(self.r)

    def fileno(self):
        return self.w

    def seek(self, n):
        os.close(self.w)
        self.t.join()

    def read(self):
        return b''

    def close(self):
        pass


def huge(c):
    """A file of more than four gigabytes (of few different chunks) comes out whole, and its sizes are told right."""
    r = c.rng
    w = World(c)
    x = c19.Writer(w)
    parts = [bytes(1 << 20), b'\1' * (1 << 20), r.randbytes(12345)]
    ids = [x.add('chunk', b) for b in parts]
    order = [r.randrange(2) for _ in range(4200)] + [2]
    r.shuffle(order)
    size = sum(len(parts[k]) for k in order)
    h = hashlib.sha1()
    for k in order:
        h.update(parts[k])
    m = dict(c19.BASE, size=size)
    node = fmt.Indef(chunks=[ids[k] for k in order], metadata={q: m[q] for q in ['type', 'mode', 'size', 'uid', 'gid', 'atime', 'mtime']})
    t = x.add('tree', fmt.cbor({'huge': node}))
    i = x.snap(10 ** 18, t)
    x.flush()
    R = w.open()
    out = Sink()
    res = w.ok('dump', fmt.name_of(i), 'huge', stdout=out)
    if out.n != size or out.h.digest() != h.digest():
        raise Violation('dump of a file of %d bytes gives %d, %s' % (size, out.n, 'in the wrong order' if out.n == size else ''), brief=res.brief())
    c.see('huge', 'dump')
    c.eval()
    c22.reports(c, w, R)


def hole(c):
    """The same with one that backpak itself backs up."""
    r = c.rng
    w = World(c)
    src = c.fresh('src')
    os.chmod(src, 0o755)
    p = os.path.join(src, 'huge')
    tree.write(p, r.randbytes(300000))
    os.truncate(p, (1 << 32) + r.randrange(1 << 20))
    with open(p, 'ab') as f:
        f.write(r.randbytes(200000))
    w.ok('backup', src, wait=dict(cpu_s=900, wall_s=900))
    R = w.open()
    i, = R.snaps
    h = hashlib.sha1()
    with open(p, 'rb') as f:
        while b := f.read(1 << 20):
            h.update(b)
    out = Sink()
    w.ok('dump', fmt.name_of(i), os.path.basename(src) + '/huge', stdout=out)
    if out.n != os.path.getsize(p) or out.h.digest() != h.digest():
        raise Violation('dump of a file of %d bytes gives %d' % (os.path.getsize(p), out.n))
    c.see('huge', 'backup')
    c22.reports(c, w, R)


def case(c, item):
    if item[0] == 'huge':
        return hole(c) if item[1] else huge(c)
    (crafted if item[0] == 'crafted' else hist)(c, item)


def run(ctx):
    items = [('huge', 0)] + ([] if ctx.quick else [('huge', 1)]) + [('crafted', k) for k in range(6)] + [('hist', k) for k in range(24)]
    items += [('hist' if k % 5 else 'crafted', k) for k in range(100, 6000)]
    ctx.cases(case, items, must=26)

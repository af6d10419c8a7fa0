"""C16: the local cache never changes results and stays within its size."""
import os
import random
import re
import shutil
import sqlite3

import fmt
import tree
from core import Violation
from ops import History
from world import FILTERS, World, random_world, sources

LEVEL = 'exploration'
BUDGET = (35, 600)
RULE = ('Random histories on cached repositories (forced, or with a filter; one or several sharing the cache) with random cache limits; between commands the cache is emptied, thinned, rolled back, or loses its '
        'database, or the repository is rolled back, or loses or gets damaged objects behind it. Each result is compared with the model and each report with what an empty cache (and an uncached view) gives; check has to see '
        'the repository and not the cache. After each command the database is compared with the files, and the files with the objects. Sequences of single-object reads follow an exact least-recently-used model; '
        'processes sharing a cache run at once with delays. Distinct: (operation, state of the cache, limit, evictions).')
ASSUMES = ['a single entry larger than the limit may stay alone', 'processes racing over one object may leave a record whose file is gone']

LIMITS = [None, None, '4KB', '30KB', '200KB', '1MB']
BYTES = {None: 1 << 30, '4KB': 4000, '30KB': 30000, '200KB': 200000, '1MB': 1000000}


def cdir(c):
    return os.path.join(c.env0['HOME'], '.cache', 'backpak')


def rows(c):
    """The cache's records, latest first."""
    d = cdir(c)
    if not os.path.exists(os.path.join(d, 'cache_metadata.sqlite')):
        return []
    db = sqlite3.connect(os.path.join(d, 'cache_metadata.sqlite'), timeout=30)
    try:
        return db.execute('SELECT name, time, size FROM cache ORDER BY time DESC').fetchall()
    finally:
        db.close()


def files(c):
    d = cdir(c)
    return {n: os.path.getsize(os.path.join(d, n)) for n in os.listdir(d) if '.sqlite' not in n} if os.path.isdir(d) else {}


def config(c, limit):
    if limit is None:
        return ''
    p = c.path('conf-' + limit)
    tree.write(p, ('cache_size = "%s"\n' % limit).encode())
    return p


def audit(c, limit, stray=False, gone=()):
    """The records against the files and the limit. `stray`: files without records are fine, the database was lost.
    `gone`: files removed by hand."""
    rs = rows(c)
    fs = files(c)
    for n, t, s in rs:
        if n not in fs and n not in gone:
            raise Violation('the cache has a record of %s, which it does not hold' % n)
        if n in fs and fs[n] != s:
            raise Violation('the cache holds %d bytes of %s and says %d' % (fs[n], n, s))
    names = {n for n, t, s in rs}
    for n in fs:
        if n not in names and not stray:
            raise Violation('the cache holds %s without a record of it' % n)
        if not re.fullmatch(r'[0-9a-v]{45}\.(pack|index|snapshot)', n):
            raise Violation('the cache holds a stray file %s' % n)
    total = sum(s for n, t, s in rs)
    if total > BYTES[limit] and len(rs) > 1 and not stray:
        raise Violation('the cache holds %d bytes in %d entries, over its limit of %s' % (total, len(rs), limit))
    c.count('cache entries audited', len(rs))
    return rs


def contents(c, w):
    """What the cache holds of this repository is what the repository holds."""
    n = 0
    for sub, ext in (('packs', '.pack'), ('indexes', '.index'), ('snapshots', '.snapshot')):
        d = os.path.join(w.repo, sub)
        for f in os.listdir(d):
            q = os.path.join(cdir(c), f)
            if os.path.exists(q):
                b = tree._read(os.path.join(d, f))
                if w.filt:
                    b = fmt.run_filter(w.filt[2], b)
                if tree._read(q) != b:
                    raise Violation('the cache holds another %s than the repository' % f)
                n += 1
    c.count('cached objects compared', n)


def reports(c, w, env=None, repo=None):
    """{command: (exit code, output)} of commands that only read."""
    R = w.open(streams=False, leftovers=True)
    ids = [fmt.name_of(s.id) for s in R.ordered()]
    cmds = [['snapshots', '--stat', '-s'], ['usage'], ['check', '-r'], ['prune', '-n'], ['rebuild-index', '-n']]
    if ids:
        r = random.Random(repr(ids))
        a, b = r.choice(ids), r.choice(ids)
        cmds += [['ls', a], ['diff', '-m', a, b], ['cat', 'snapshot', a]]
    for k in sorted(R.indexes)[:1]:
        cmds.append(['cat', 'index', fmt.name_of(k)])
    for k in sorted(R.packs)[:1]:
        cmds.append(['cat', 'pack', fmt.name_of(k)])
    out = {}
    for a in cmds:
        p = c.run(repo or w.repo, *a, cwd=w.cwd, config=w.config, env=env)
        c.clean_fail(p)
        txt = p.stdout.replace(repo or w.repo, 'REPO')
        if a[1:] == ['-n']:
            txt = ''.join(l for l in txt.split('\n') if l.startswith('Keep'))
        txt = '\n'.join(l for l in txt.split('\n') if not re.search(r'download|^\s*[DPI|] |^Read|cache', l))
        out[' '.join(a)] = (p.rc, txt)
    return out


def same(a, b, what):
    for k in a:
        if a[k] != b.get(k):
            raise Violation('`%s` gives\n%s\nwith the cache and\n%s\n%s' % (k, a[k], b.get(k), what))


def disturb(c, w, gone, stray):
    """Changes to the cache by hand; returns their name and whether the database was lost."""
    r = c.rng
    d = cdir(c)
    fs = sorted(files(c))
    k = r.choice(['nothing', 'nothing', 'empty', 'thin', 'thin', 'database', 'files', 'journal', 'roll back', 'keep'])
    if not os.path.isdir(d):
        return 'none yet', False
    if k == 'roll back' and not os.path.isdir(c.path('kept cache')):
        k = 'keep'
    if k == 'empty':
        shutil.rmtree(d)
        gone.clear()
    elif k == 'thin':
        for f in fs:
            if r.random() < 0.4:
                os.unlink(os.path.join(d, f))
                gone.add(f)
    elif k == 'database':
        for f in os.listdir(d):
            if '.sqlite' in f:
                os.unlink(os.path.join(d, f))
        gone.clear()
        c.see('disturbed', k)
        return k, True
    elif k == 'files':
        for f in fs:
            os.unlink(os.path.join(d, f))
            gone.add(f)
    elif k == 'journal':
        for f in os.listdir(d):
            if f.endswith(('-wal', '-shm')) and r.random() < 0.5:
                rows(c)
    elif k == 'roll back':
        shutil.rmtree(d)
        shutil.copytree(c.path('kept cache'), d)
        gone.clear()
    elif k == 'keep':
        if os.path.isdir(c.path('kept cache')):
            shutil.rmtree(c.path('kept cache'))
        if not gone and not stray:
            shutil.copytree(d, c.path('kept cache'))
    c.see('disturbed', k)
    return k, False


def world(c, name='repo', limit=None):
    r = c.rng
    f = r.choice([None, None] + FILTERS)
    w = World(c, name, pack_size=r.choice([None, '20KB', '5KB', '150KB']), filt=f, cached=f is None or r.random() < 0.3, config=config(c, limit))
    c.see('kind', f and f[0], limit)
    return w


def hist(c, item):
    r = c.rng
    limit = r.choice(LIMITS)
    ws = [world(c, 'repo%d' % k, limit) for k in range(r.choice([1, 1, 2]))]
    hs = [History(c, w, size=r.choice(['tiny', 'small'])) for w in ws]
    gone, stray = set(), False
    tot0 = 0
    for n in range(r.choice([5, 8, 12])):
        k = r.randrange(len(ws))
        w, h = ws[k], hs[k]
        held = {x[0] for x in rows(c)}
        op = h.step()
        rs = audit(c, limit, stray, gone)
        c.see('op', op, limit, 'evicting' if held - {x[0] for x in rs} else '')
        if limit is None and op not in ('prune', 'rebuild', 'forget', 'forgetdup') and held - {x[0] for x in rs} - gone:
            raise Violation('%s dropped %s from a cache that was not full' % (op, sorted(held - {x[0] for x in rs})[:3]))
        w.verify(unindexed=True)
        contents(c, w)
        if w.model and r.random() < 0.6:
            w.restored(r.choice(sorted(w.model)))
            audit(c, limit, stray, gone)
        if r.random() < 0.35:
            a = reports(c, w)
            audit(c, limit, stray, gone)
            fresh = c.fresh('fresh home')
            same(a, reports(c, w, env=dict(HOME=fresh)), 'with an empty one')
            if w.cached and not w.filt:
                p = c.fresh('plain') + '/repo'
                shutil.copytree(w.repo, p)
                t = tree._read(os.path.join(p, 'config.toml')).replace(b'force_cache = true', b'force_cache = false')
                tree.write(os.path.join(p, 'config.toml'), t)
                same(a, reports(c, w, env=dict(HOME=fresh), repo=p), 'without one')
                tree.wipe(p)
                c.see('compared with an uncached view')
            c.count('reports compared', len(a))
        x, lost = disturb(c, w, gone, stray)
        stray = (stray or lost) and x not in ('empty', 'roll back')
        c.see('next op after', x)
        c.eval()
    c.sample(limit=limit, ops=hs[0].log, entries=len(rows(c)))


def behind(c, item):
    """The repository changes behind the cache's back."""
    r = c.rng
    limit = r.choice([None, None, '200KB'])
    w = world(c, limit=limit)
    h = History(c, w, size=r.choice(['tiny', 'small']), ops=['backup'] * 4 + ['rebackup', 'forget', 'filter'])
    for _ in range(3):
        h.step()
    old, oldm = c.path('old'), dict(w.model)
    shutil.copytree(w.repo, old)
    for _ in range(r.choice([1, 3])):
        h.step()
    if r.random() < 0.4:
        h.step('prune')
    kind = r.choice(['delete', 'delete', 'damage', 'damage', 'truncate', 'empty', 'swap', 'roll back', 'another'])
    if kind in ('roll back', 'another'):
        # An older state of the repository, or another repository, in its place.
        shutil.rmtree(w.repo)
        if kind == 'roll back':
            shutil.copytree(old, w.repo)
            w.model.clear()
            w.model.update(oldm)
        else:
            w.init()
            w.model.clear()
            h.srcs = sources(c, size='tiny')
            h.sets = [h.srcs]
        same(reports(c, w), reports(c, w, env=dict(HOME=c.fresh('fresh home'))), 'with an empty one')
        for _ in range(3):
            h.step()
            w.verify(unindexed=True)
            audit(c, limit)
        for i in w.model:
            w.restored(i)
        w.ok('check', '-r')
    else:
        R = w.open(leftovers=True)
        sub = r.choice(['packs', 'packs', 'indexes', 'snapshots'])
        d = os.path.join(w.repo, sub)
        need = R.reach_all()
        if sub == 'packs':
            pool = [fmt.name_of(k) + '.pack' for k, m in R.indexed.items() if any(b in need for _, _, b in m)]
        elif sub == 'indexes':
            pool = [fmt.name_of(k) + '.index' for k in R.inforce]
        else:
            pool = sorted(os.listdir(d))
        if not pool:
            return
        f = r.choice(sorted(pool))
        p = os.path.join(d, f)
        cached = os.path.exists(os.path.join(cdir(c), f))
        b = tree._read(p)
        if kind == 'delete':
            os.unlink(p)
        elif kind == 'damage':
            # The stream ends in a checksum or has hashed contents; where filters may ignore a change, it is none.
            if w.filt and w.filt[0] != 'tr':
                return
            k = r.randrange(12, len(b))
            tree.write(p, b[:k] + bytes([b[k] ^ (1 << r.randrange(8))]) + b[k + 1:])
        elif kind == 'truncate':
            tree.write(p, b[:r.randrange(len(b))])
        elif kind == 'empty':
            tree.write(p, b'')
        elif kind == 'swap':
            other = [x for x in os.listdir(d) if x != f]
            if not other:
                return
            shutil.copy(os.path.join(d, r.choice(other)), p)
        q = w.run('check', '-r')
        c.clean_fail(q)
        z = w.run('check', '-r', env=dict(HOME=c.fresh('fresh home')))
        if q.rc != z.rc:
            raise Violation('the full check ends with %d where %s was met with %s, and %d with an empty cache' % (q.rc, f, kind, z.rc), out=q.stderr)
        if q.rc == 0 and (kind != 'delete' or sub == 'packs') and kind != 'swap' and kind != 'damage':
            raise Violation('the full check is content with a repository where %s was met with %s' % (f, kind), out=q.stdout)
        if sub == 'packs' and kind == 'delete':
            q = w.fails('check')
        c.see('behind', kind, sub, cached, q.rc)
    c.eval()


def lru(c, item):
    """Reads of single objects, against an exact model."""
    r = c.rng
    w = World(c, pack_size='5KB', cached=True)
    src = c.path('src')
    os.makedirs(src)
    for k in range(r.choice([6, 12])):
        tree.write(os.path.join(src, 'f%d' % k), r.randbytes(r.choice([100, 4000, 9000, 30000])))
    w.backup([src])
    tree.write(os.path.join(src, 'more'), r.randbytes(500))
    w.backup([src])
    objs = [(x, f) for x in ('pack', 'index') for f in sorted(os.listdir(os.path.join(w.repo, x + ('s' if x == 'pack' else 'es'))))]
    size = {f: os.path.getsize(os.path.join(w.repo, x + ('s' if x == 'pack' else 'es'), f)) for x, f in objs}
    total = sum(size.values())
    shutil.rmtree(cdir(c))
    model, missing = [], set()      # latest first
    cap = None
    for n in range(r.choice([10, 25])):
        if cap is None or r.random() < 0.15:
            cap = r.choice([total * 2, total, total // 2, total // 4, max(size.values()), min(size.values()), 1, sum(r.sample(sorted(size.values()), 2))])
            conf = c.path('cap%d' % n)
            tree.write(conf, ('cache_size = "%d"\n' % cap).encode())
        x, f = r.choice(objs)
        hit = f in model and f not in missing
        if r.random() < 0.1 and model:
            g = r.choice(model)
            if g not in missing:
                os.unlink(os.path.join(cdir(c), g))
            missing.add(g)
            hit = hit and g != f
        c.ok(w.repo, 'cat', x, f.split('.')[0], cwd=w.cwd, config=conf)
        if f in model:
            model.remove(f)
        model.insert(0, f)
        missing.discard(f)
        if not hit:
            acc, keep = 0, []
            for y in model:
                acc += size[y]
                if acc > cap and keep:
                    break
                keep.append(y)
            c.see('evicted', len(model) - len(keep))
            model = keep
        got = [y for y, t, s in rows(c)]
        if got != model:
            raise Violation('after reading %s with a limit of %d the cache records %s, where the most recently used that fit are %s' % (f, cap, [(y[:6], size[y]) for y in got], [(y[:6], size[y]) for y in model]))
        missing &= set(model)
        lost = set(files(c)) - set(model)
        if lost:
            raise Violation('the cache keeps %s without a record' % sorted(lost))
        c.count('steps against the model')
    c.eval()


def procs(c, item):
    """Several processes on one cache, often with its very first use."""
    r = c.rng
    limit = r.choice(LIMITS)
    ws = [world(c, 'repo%d' % k, limit) for k in range(r.choice([2, 3]))]
    srcs = [sources(c, n=1, size=r.choice(['tiny', 'small'])) for w in ws]
    for w, s in zip(ws, srcs):
        if r.random() < 0.7:
            w.backup(s)
            for p in s:
                if os.path.isdir(p):
                    tree.mutate(r, p, 2)
    first = r.random() < 0.5
    if first and os.path.isdir(cdir(c)):
        shutil.rmtree(cdir(c))
    running = []
    wants = []
    for n in range(r.choice([3, 4, 6])):
        k = n % len(ws) if n < len(ws) else r.randrange(len(ws))
        w, s = ws[k], srcs[k]
        cwd = c.fresh('cwd')
        if n < len(ws):
            a = ['backup', '--allow-repeat', '--allow-empty'] + s
            wants.append((w, s))
        elif w.model:
            i = r.choice(sorted(w.model))
            a = r.choice([['ls', fmt.name_of(i)], ['restore', '-o', c.fresh('out'), fmt.name_of(i)], ['dump', '-o', c.fresh('out') + '/x', fmt.name_of(i), '--', os.path.basename(s[0])]])
        else:
            continue
        sh = dict(BPV_DELAY='%d:%d:%d' % (r.randrange(10 ** 6), r.choice([200, 3000]), r.choice([10, 50]))) if r.random() < 0.6 else None
        running.append((a, c.start(w.repo, *a, cwd=cwd, config=w.config, shim=sh)))
    before = {w.repo: w.snap_files() for w in ws}
    trees = [tree.source(s) for w, s in wants]
    for a, p in running:
        p = p.wait()
        if p.hung:
            raise Violation('with others on the same cache the command never ends: %s' % p.brief())
        if p.rc:
            raise Violation('with others on the same cache the command failed: %s' % p.brief())
    c.see('processes', len(running), first, limit)
    c.count('concurrent processes', len(running))
    fs = files(c)
    total = 0
    rs = rows(c)
    for n, t, s in rs:
        total += s
        if n in fs and fs[n] != s:
            raise Violation('the cache holds %d bytes of %s and says %d' % (fs[n], n, s))
    if set(fs) - {x[0] for x in rs}:
        raise Violation('the cache holds files without records: %s' % sorted(set(fs) - {x[0] for x in rs})[:3])
    for (w, s), want in zip(wants, trees):
        R = w.open()
        for i in R.snaps:
            if i not in w.model:
                w.model[i] = want
        w.verify(R=R, unindexed=True)
        contents(c, w)
        w.restored(r.choice(sorted(w.model)))
    audit(c, limit, gone={x[0] for x in rows(c)})
    c.eval()


def broken(c, item):
    """A cache that cannot be used, or lies: right results or an error."""
    r = c.rng
    limit = r.choice([None, '200KB'])
    w = world(c, limit=limit)
    src = sources(c, n=1, size='small')
    i = w.backup(src)
    d = cdir(c)
    kind = ['garbage db', 'wrong bytes', 'cut', 'swapped', 'a file', 'read-only', 'directory in the way'][item[1] % 7]
    fs = sorted(files(c))
    for f in fs:
        p = os.path.join(d, f)
        if kind == 'wrong bytes' and os.path.getsize(p):
            b = bytearray(tree._read(p))
            for _ in range(3):
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            tree.write(p, bytes(b))
        elif kind == 'cut':
            os.truncate(p, r.randrange(os.path.getsize(p) + 1))
        elif kind == 'swapped':
            shutil.copy(os.path.join(d, r.choice([g for g in fs if g.split('.')[1] == f.split('.')[1] and g != f] or ['cache_metadata.sqlite'])), p)
        elif kind == 'directory in the way' and r.random() < 0.5:
            os.unlink(p)
            os.mkdir(p)
    if kind == 'garbage db':
        for f in os.listdir(d):
            if '.sqlite' in f:
                tree.write(os.path.join(d, f), r.randbytes(9000))
    elif kind == 'a file':
        shutil.rmtree(d)
        tree.write(d, b'x')
    elif kind == 'read-only':
        os.chmod(d, 0o555)
    out = c.fresh('out')
    p = w.run('restore', '-t', '-p', '-o', out, fmt.name_of(i))
    c.clean_fail(p)
    if p.rc == 0:
        got = tree.capture(out, prefix=os.path.basename(src[0]))
        x = tree.differences(w.model[i], got)
        if x:
            raise Violation('with a cache where %s the restore succeeds with %s' % (kind, x))
    p = w.run('backup', '--allow-repeat', '--allow-empty', *src)
    c.clean_fail(p)
    for j in w.open().snaps:
        w.model.setdefault(j, w.model[i])
    w.verify(unindexed=True, leftovers=p.rc != 0)
    q = w.run('check', '-r')
    c.clean_fail(q)
    if q.rc and kind in ('wrong bytes', 'cut', 'swapped'):
        raise Violation('the full check fails for what the cache holds: %s' % q.brief())
    c.see('broken', kind, p.rc)
    if os.path.isdir(d):
        os.chmod(d, 0o755)
    c.eval()


def run(ctx):
    fs = dict(hist=hist, behind=behind, lru=lru, procs=procs, broken=broken)
    items = [(k, n) for n in range(8) for k in ('hist', 'behind', 'lru', 'procs', 'broken')]
    items += [(('hist', 'procs', 'behind', 'hist', 'lru', 'procs', 'behind', 'broken')[k % 8], k) for k in range(100, 5000)]
    ctx.cases(lambda c, i: fs[i[0]](c, i), items, must=40)

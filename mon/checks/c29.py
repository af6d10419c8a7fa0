"""C29: an incremental backup records what a full one would."""
import os
import socket
import time

import fmt
import tree
from core import Violation
from world import World, random_world, sources, freeze_atimes

LEVEL = 'exploration'
BUDGET = (30, 600)
RULE = ('After random and directed edits between backups (nanosecond and whole-second changes of modification times in both directions, equal times with other sizes, kinds swapped, renames, restored and '
        're-created entries, permissions, changed path sets, skips and link following, look-alikes of other paths or of older snapshots, packs lost and the index rebuilt) each incremental backup is compared with a full one of the same files into an '
        'empty repository: the trees must have the same ID, and must hold what an independent look finds. Facts (paths, author, tags, zone, time) are compared with those given. Distinct: edits and situations.')
ASSUMES = ['access times are fixed before each pair of backups', 'each edit of a file changes its size, modification time or kind']


def tick(p, ns):
    st = os.lstat(p)
    os.utime(p, ns=(8 * 10 ** 18, ns), follow_symlinks=False)


def sneaky(r, root, seen):
    """Edits that are easy to miss; returns their names."""
    done = []
    fs, ds, ls = tree._all(root)
    sub = [d for d in ds if d != root]
    for _ in range(r.choice([1, 2, 4])):
        k = r.choice(['+1ns', '-1ns', '+1s', '-1s', 'size only', 'grow to zero', 'swap dir', 'swap link', 'relink', 'rename over', 'chmod', 'older', 'recreate', 'sub-second', 'dirfile', 'case', 'chunk edge', 'neg'])
        try:
            if k in ('+1ns', '-1ns', '+1s', '-1s', 'older', 'sub-second', 'neg'):
                p = r.choice(fs)
                st = os.lstat(p)
                if st.st_nlink > 1:
                    continue
                m = st.st_mtime_ns
                b = bytearray(tree._read(p))
                if b:
                    b[r.randrange(len(b))] ^= 1 + r.randrange(255)
                mode = st.st_mode & 0o7777
                os.chmod(p, 0o600)
                tree.write(p, bytes(b))
                os.chmod(p, mode)
                n = m + {'+1ns': 1, '-1ns': -1, '+1s': tree.SEC, '-1s': -tree.SEC, 'older': -r.randrange(1, 10 ** 18), 'sub-second': r.randrange(1, 999999999 - m % tree.SEC + 1) if m % tree.SEC < 999999998 else -5,
                         'neg': -2 * m if m else 7}[k]
                if abs(n) > 9 * 10 ** 18 or n == m or n in seen.get(p, ()):
                    n = m + 1
                seen.setdefault(p, set()).add(m)
                tick(p, n)
                if os.lstat(p).st_mtime_ns == m:
                    continue
            elif k == 'size only':
                p = r.choice(fs)
                st = os.lstat(p)
                b = tree._read(p)
                os.chmod(p, 0o600)
                tree.write(p, b[:-1] if b and r.random() < 0.5 else b + r.randbytes(1))
                os.chmod(p, st.st_mode & 0o7777)
                tick(p, st.st_mtime_ns)
            elif k == 'grow to zero':
                p = r.choice(fs)
                st = os.lstat(p)
                os.chmod(p, 0o600)
                if not st.st_size:
                    continue
                tree.write(p, b'')
                os.chmod(p, st.st_mode & 0o7777)
                tick(p, st.st_mtime_ns)
            elif k in ('swap dir', 'swap link', 'dirfile'):
                # Another kind of thing with the very times and name.
                p = r.choice((sub if k == 'dirfile' else fs) + ls)
                st = os.lstat(p)
                with tree.Writable(os.path.dirname(p)):
                    tree._remove(p)
                    if k == 'swap dir':
                        os.mkdir(p)
                    elif k == 'swap link':
                        os.symlink('x' * min(st.st_size, 50) or 'y', p)
                    else:
                        tree.write(p, r.randbytes(st.st_size))
                tick(p, st.st_mtime_ns + (1 if tree.kind(p) == 'f' and st.st_mode & 0o170000 == 0o100000 else 0))
            elif k == 'relink':
                if not ls:
                    continue
                p = r.choice(ls)
                st = os.lstat(p)
                x = os.readlink(p)
                with tree.Writable(os.path.dirname(p)):
                    os.unlink(p)
                    os.symlink(x[:-1] + ('q' if x[-1] != 'q' else 'p'), p)
                tick(p, st.st_mtime_ns)
            elif k == 'rename over':
                a, b = r.choice(fs), r.choice(fs)
                if a == b or os.path.samefile(a, b) or (os.lstat(a).st_mtime_ns, os.lstat(a).st_size) == (os.lstat(b).st_mtime_ns, os.lstat(b).st_size):
                    continue
                if os.lstat(a).st_mtime_ns in seen.get(b, ()):
                    continue
                with tree.Writable(os.path.dirname(a)), tree.Writable(os.path.dirname(b)):
                    os.rename(a, b)
            elif k == 'chmod':
                p = r.choice(fs + ds)
                st = os.lstat(p)
                os.chmod(p, st.st_mode & 0o7777 ^ 0o010)
                tick(p, st.st_mtime_ns)
            elif k == 'recreate':
                # Gone and back, the same to the byte and the time.
                p = r.choice(fs)
                st = os.lstat(p)
                b = tree._read(p)
                with tree.Writable(os.path.dirname(p)):
                    os.unlink(p)
                    tree.write(p, b)
                os.chmod(p, st.st_mode & 0o7777)
                tick(p, st.st_mtime_ns)
            elif k == 'case':
                p = r.choice(fs)
                q = os.path.join(os.path.dirname(p), os.path.basename(p).swapcase()[:200])
                if os.path.lexists(q):
                    continue
                with tree.Writable(os.path.dirname(p)):
                    os.rename(p, q)
            elif k == 'chunk edge':
                p = r.choice(fs)
                b = tree._read(p)
                tree._data(p, b + bytes(r.choice([1, 524288 - len(b) % 524288])), r)
            done.append(k)
        except (IndexError, FileNotFoundError, NotADirectoryError, PermissionError, IsADirectoryError, OSError):
            pass
        fs, ds, ls = tree._all(root)
        sub = [d for d in ds if d != root]
    return done


def telltale(paths, hist):
    """Makes sure that no file has the size and time of an earlier, other one of its name."""
    for _ in range(40):
        again = False
        now = {}
        for top in paths:
            fs, ds, ls = tree._all(top)
            for p in fs:
                st = os.lstat(p)
                k = (st.st_size, st.st_mtime_ns)
                h = fmt.sha(tree._read(p))
                if hist.get(p, {}).get(k, h) != h:
                    tick(p, st.st_mtime_ns - 1 if st.st_mtime_ns > 0 else st.st_mtime_ns + 1)
                    again = True
                now.setdefault(p, {})[k] = h
        if not again:
            break
    for p in now:
        hist.setdefault(p, {}).update(now[p])


def pair(c, w, paths, *args, deref=False, skip=None, want=None, also=()):
    """An incremental backup and a full one."""
    for p in list(paths) + list(also):
        freeze_atimes(p)
    if callable(want):
        want = want()
    r = c.rng
    i = w.backup(paths, '--allow-repeat', '--allow-empty', *args, deref=deref, want=want)
    e = World(c, name='fresh%d' % r.getrandbits(40))
    j = e.backup(paths, '--allow-repeat', '--allow-empty', *args, deref=deref, want=want)
    R, E = w.open(), e.open()
    if R.snaps[i].tree != E.snaps[j].tree:
        a, b = R.entries(R.snaps[i]), E.entries(E.snaps[j])
        raise Violation('an incremental backup of %s gives another tree than a full one: %s' % (paths, tree.differences(b, a) or 'the same entries, but other metadata'))
    for (x, S, k) in ((w, R, i), (e, E, j)):
        d = tree.differences(x.model[k], S.entries(S.snaps[k]))
        if d:
            raise Violation('the %s backup does not hold what is there: %s' % ('incremental' if x is w else 'full', d))
    c.count('pairs of backups compared')
    c.count('entries compared', len(w.model[i]))
    c.eval()
    tree.wipe(e.repo)
    return i, R


def edits(c, item):
    r = c.rng
    w = random_world(c)
    src = sources(c)
    sets = [src] + ([src[:1], src[1:]] if len(src) > 1 else [])
    seen, hist = {}, {}
    for p in src:
        freeze_atimes(p)
    telltale(src, hist)
    pair(c, w, src)
    for _ in range(r.choice([2, 3, 4])):
        for p in src:
            if os.path.isdir(p):
                for e in (sneaky(r, p, seen) if r.random() < 0.6 else tree.mutate(r, p, r.choice([1, 3]))):
                    c.see('edit', e)
        if r.random() < 0.15:
            w.ok(r.choice(['prune', 'rebuild-index']))
        for p in src:
            freeze_atimes(p)
        telltale(src, hist)
        ps = r.choice(sets)
        c.see('paths', len(ps), len(src))
        args, want = [], None
        if r.random() < 0.15:
            args = ['-s', r.choice(['f$', 'n[0-4]', 'o'])]
            import re
            x = re.compile(args[1].replace('$', r'\Z'))
            want = lambda: tree.source(ps, skip=lambda p: bool(x.search(p)))
            c.see('skips')
        pair(c, w, ps, *args, want=want)
    w.verify()
    c.sample(edits=sorted(x for x in c.distinct if x.startswith('edit'))[:10], steps=c.steps[-3:])


def lookalikes(c, item):
    """Files that another path, or an older snapshot, has with the same size and time but other bytes."""
    r = c.rng
    w = random_world(c)
    base = c.mkdir('b')
    T = 10 ** 18 + r.randrange(10 ** 9)
    n = r.choice([10, 5000, 700000])

    def make(d, fill):
        os.makedirs(d, exist_ok=True)
        tree.write(os.path.join(d, 'f'), bytes([fill]) * n)
        os.makedirs(os.path.join(d, 'sub'), exist_ok=True)
        tree.write(os.path.join(d, 'sub', 'g'), bytes([fill + 1]) * n)
        for x in (os.path.join(d, 'f'), os.path.join(d, 'sub', 'g'), os.path.join(d, 'sub'), d):
            tick(x, T)

    a, b = os.path.join(base, 'one', 'x'), os.path.join(base, 'two', 'x')
    make(a, 1)
    make(b, 101)
    other = os.path.join(base, 'y')
    make(other, 51)
    kind = r.choice(['paths', 'paths', 'subset', 'superset', 'older', 'nested', 'parent dir'])
    c.see('look-alike', kind)
    if kind == 'paths':
        pair(c, w, [a])
        pair(c, w, [b])
        pair(c, w, [a])
    elif kind in ('subset', 'superset'):
        s, t = [a, other], [b]
        for ps in ((s, t) if kind == 'subset' else (t, s)):
            pair(c, w, ps)
        pair(c, w, [b, other])
        pair(c, w, [a])
    elif kind == 'older':
        # Now is like the snapshot before the last.
        pair(c, w, [a])
        make(a, 7)
        for x in ('f', 'sub/g'):
            tick(os.path.join(a, x), T + 5)
        pair(c, w, [a])
        make(a, 9)
        pair(c, w, [a])
    elif kind == 'nested':
        # x/f of one against x/f of a tree that holds it further down.
        d = os.path.join(base, 'x')
        make(os.path.join(d, 'sub', 'x'), 33)
        make(d, 35)
        pair(c, w, [d])
        pair(c, w, [os.path.join(d, 'sub', 'x')])
        pair(c, w, [os.path.join(d, 'sub')])
        pair(c, w, [d])
    else:
        pair(c, w, [os.path.join(base, 'one')])
        pair(c, w, [a])
        os.rename(os.path.join(base, 'two', 'x'), os.path.join(base, 'one', 'z'))
        pair(c, w, [os.path.join(base, 'one')])
    w.verify()


def deref(c, item):
    """Links followed in one backup and not in the next."""
    r = c.rng
    w = random_world(c)
    base = c.mkdir('b')
    out = os.path.join(base, 'outside')
    tree.Gen(r, out, size='tiny', links=False)
    os.chmod(out, 0o755)
    d = os.path.join(base, 'top')
    tree.Gen(r, d, size='tiny', links=False)
    os.chmod(d, 0o755)
    fs, ds, ls = tree._all(out)
    for k in range(4):
        os.symlink(r.choice(fs + ds[1:] or [out]), os.path.join(d, 'l%d' % k))
    for _ in range(4):
        L = r.random() < 0.5
        pair(c, w, [d], deref=L, also=[out], want=lambda: tree.source([d], deref=L))
        c.see('links followed', L)
        k = r.choice(['none', 'retarget', 'inside'])
        if k == 'retarget':
            p = os.path.join(d, 'l%d' % r.randrange(4))
            old = os.readlink(p)
            cand = [x for x in fs + ds[1:] if os.stat(x).st_mtime_ns != os.stat(old).st_mtime_ns]
            if cand:
                os.unlink(p)
                os.symlink(r.choice(cand), p)
        elif k == 'inside':
            tree.mutate(r, out, 2, edits=['rewrite', 'append', 'flip', 'touch', 'chmod'])
    w.verify()


def facts(c, item):
    r = c.rng
    w = World(c)
    src = sources(c, size='tiny')
    cwd = c.mkdir('wd')
    for _ in range(4):
        au = r.choice([None, 'me', 'ünï cödé', '', ' x ', 'a' * 300, '-dash'])
        tags = r.choice([[], ['a'], ['b', 'a', 'b'], ['täg', '', ' '], ['-t', '--x'], ['z%d' % k for k in range(30)]])
        tz = r.choice(['UTC', 'Asia/Tokyo', 'America/St_Johns', 'Europe/Berlin', 'Australia/Lord_Howe', 'Asia/Kathmandu'])
        ps = []
        for p in src:
            k = r.choice(['abs', 'rel', 'dots', 'slash', 'twice', 'link'])
            if k == 'rel':
                p = os.path.relpath(p, cwd)
                if p.startswith('-'):
                    p = './' + p
            elif k == 'dots':
                p = os.path.join(os.path.dirname(p), '.', '..', os.path.basename(os.path.dirname(p)), os.path.basename(p))
            elif k == 'slash' and os.path.isdir(p):
                p += '//'
            elif k == 'twice':
                ps.append(p)
            elif k == 'link':
                q = os.path.join(c.fresh('ln'), 'elsewhere')
                os.symlink(os.path.dirname(p), q)
                p = os.path.join(q, os.path.basename(p))
            ps.append(p)
        args = ([] if au is None else ['--author=' + au] if r.random() < 0.5 else ['-a' + au] if au else ['--author=']) + ['--tag=' + t for t in tags]
        t0 = time.time_ns()
        before = w.snap_files()
        w.ok('backup', '--allow-repeat', '--allow-empty', *args, *ps, env=dict(TZ=tz))
        t1 = time.time_ns()
        i = w.note_new(before, tree.source(src))
        s = w.open(streams=False).snaps[i]
        want = (socket.gethostname() if au is None else au, sorted(set(tags)), sorted(src, key=lambda p: p.split('/')), tz)
        got = (s.author, list(s.tags), list(s.paths), s.tz)
        if got != want:
            raise Violation('the snapshot records %s, not %s' % (got, want))
        if not t0 <= s.time <= t1:
            raise Violation('the snapshot was made at %d, not between %d and %d' % (s.time, t0, t1))
        c.see('facts', au is None, len(tags), tz)
        c.eval()
        for p in src:
            if os.path.isdir(p) and r.random() < 0.5:
                tree.mutate(r, p, 1)
    w.verify()


def lost(c, item):
    """Packs are lost and the index is rebuilt without them. The sources are still there, so a backup has it all again."""
    r = c.rng
    w = World(c, pack_size=r.choice(['5KB', '20KB', '150KB', '1MB']), cached=r.random() < 0.2)
    src = sources(c)
    for p in src:
        freeze_atimes(p)
    w.backup(src, '--allow-repeat', '--allow-empty')
    if r.random() < 0.5:
        for p in src:
            if os.path.isdir(p):
                tree.mutate(r, p, 3)
        w.backup(src, '--allow-repeat', '--allow-empty')
    R = w.open(streams=False)
    packs = sorted(p for p, m in R.packs.items() if all(t == 'chunk' for t, *_ in m))
    gone = [p for p in packs if r.random() < r.choice([0.3, 0.6, 1])]
    for p in gone:
        os.unlink(os.path.join(w.repo, 'packs', fmt.name_of(p) + '.pack'))
    cache = os.path.join(c.env0['HOME'], '.cache')
    if os.path.exists(cache):
        tree.wipe(cache)
    w.ok('rebuild-index')
    edits = r.choice(['none', 'none', 'some'])
    if edits == 'some':
        for p in src:
            if os.path.isdir(p):
                tree.mutate(r, p, 2)
    for p in src:
        freeze_atimes(p)
    before = w.snap_files()
    w.ok('backup', *r.choice([['--allow-repeat'], ['-t', 'again%d' % r.getrandbits(30)]]), '--allow-empty', *src)
    i = w.note_new(before, tree.source(src))
    for x in sorted(w.model):
        if x != i:
            w.ok('forget', fmt.name_of(x))
            del w.model[x]
    w.verify()
    w.restored(i)
    w.ok('check', '-r')
    c.see('lost', min(len(gone), 5), len(gone) == len(packs), edits)
    c.count('packs lost', len(gone))
    c.eval()


def run(ctx):
    fs = dict(edits=edits, look=lookalikes, deref=deref, facts=facts, lost=lost)
    items = [(k, n) for n in range(4) for k in ('edits', 'look', 'deref', 'facts', 'lost')]
    items += [(('edits', 'edits', 'look', 'edits', 'deref', 'edits', 'look', 'facts', 'lost')[k % 9], k) for k in range(100, 5000)]
    ctx.cases(lambda c, i: fs[i[0]](c, i), items, must=40)

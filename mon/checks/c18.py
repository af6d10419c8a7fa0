"""C18: skip patterns and filter-snapshot drop exactly the matching paths."""
import os
import re
import socket

import fmt
import tree
from core import Violation
from ops import filtered
from world import World, random_world, sources, freeze_atimes

LEVEL = 'exploration'
BUDGET = (30, 500)
RULE = ('Random trees with odd names and random regular expressions (literals from the tree, anchors, classes, alternations, parents, expressions matching directories or all there is) given on the command line, '
        'in the configuration, in a local .backpak, or in several of them, to backup, copy and filter-snapshot. An independent matcher says what has to be left, and the decoded result has to be just that, with '
        'facts as asked for, one snapshot or none, and all others as they were. Invalid expressions must fail and change nothing. Distinct: (command, kind of pattern, whether something or all was dropped).')
ASSUMES = ['the expressions used mean the same in Python (with \\Z for $) and in the regex crate']


def esc(s):
    return re.sub(r'([\\.+*?()|\[\]{}^$#&~-])', r'\\\1', s)


def pattern(r, paths):
    """A regular expression, with some connection to these paths."""
    p = r.choice(paths) if paths else 'none'
    b = os.path.basename(p)
    d = os.path.dirname(p)
    k = r.choice(['whole', 'base', 'base$', '/base$', 'part', 'dir', 'dir/', '^whole$', '^part', 'class', 'alt', 'case', 'ext', 'dot', 'none', 'depth', 'opt', 'all', 'inner', 'count', 'bytes'])
    i = r.randrange(len(b) + 1)
    part = b[i:i + r.choice([1, 1, 2, 3])] or 'q'
    x = {
        'whole': lambda: esc(p),
        'base': lambda: esc(b),
        'base$': lambda: esc(b) + '$',
        '/base$': lambda: '/' + esc(b) + '$',
        'part': lambda: esc(part),
        'dir': lambda: esc(d) or 'x',
        'dir/': lambda: esc(os.path.basename(d)) + '/',
        '^whole$': lambda: '^' + esc(p) + '$',
        '^part': lambda: '^' + esc(p[:r.randrange(1, len(p) + 1)]),
        'class': lambda: r.choice(['[0-9]', '[^a-z/]', '[A-Z]$', '/[a-f][^/]*$', '[[:upper:]]' if False else '[A-F]', '[^/]{20,}']),
        'alt': lambda: '%s|%s' % (esc(b), esc(os.path.basename(r.choice(paths)))) if paths else 'a|b',
        'case': lambda: ''.join('[%s%s]' % (x, x.swapcase()) if x.isascii() and x.isalpha() else esc(x) for x in b),
        'ext': lambda: r'\.[a-z]+$',
        'dot': lambda: esc(b[:1]) + '.' + esc(b[2:]) if len(b) > 2 and b.isascii() and '\n' not in b else esc(b),
        'none': lambda: r.choice(['nothing like this', '^$', 'a^b', '//', '/$', '/\\.$', '^\\./', '\\.\\./']),
        'depth': lambda: r.choice(['^[^/]+/[^/]+/[^/]+$', '/[^/]+/[^/]+$', '^[^/]*$']),
        'opt': lambda: esc(b) + '?$' if b[-1:].isascii() else esc(b),
        'all': lambda: r.choice(['', '.*', '^', '$', '[^/]', '/']),
        'inner': lambda: '/' + esc(os.path.basename(d)) + '/.*' + esc(part),
        'count': lambda: '[^/]{%d}$' % max(1, len(b)),
        'bytes': lambda: esc(b[-2:] or 'zz') + '$',
    }[k]()
    return k, x


def matcher(pats):
    rs = [re.compile(x.replace('\\$', '\0').replace('$', r'\Z').replace('\0', '\\$')) for x in pats]
    return lambda p: any(x.search(p) for x in rs)


def left(entries, pats):
    m = matcher(pats)
    out = {}
    for p in entries:
        parts = p.split('/')
        if not any(m('/'.join(parts[:k])) for k in range(1, len(parts) + 1)):
            out[p] = entries[p]
    return out


def given(c, w, pats, cwd):
    """Ways to give patterns: (keywords, arguments)."""
    r = c.rng
    how = r.choice(['args', 'args', 'config', 'local', 'both'])
    arg = lambda l: [a for x in l for a in ('-s', x)]
    local = os.path.join(cwd, '.backpak')
    if os.path.lexists(local):
        os.unlink(local)
    c.see('given by', how)
    if how == 'args':
        return {}, arg(pats)
    q = lambda l: 'skips = [%s]\n' % ', '.join('"%s"' % x.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t').replace('\x01', '\\u0001').replace('\x02', '\\u0002').replace('\x7f', '\\u007f') for x in l)
    conf = c.path('conf%d.toml' % r.randrange(10 ** 9))
    k = r.randrange(len(pats) + 1) if how == 'both' else len(pats)
    if how == 'local':
        # The local file's patterns stand in for the global one's.
        tree.write(conf, q(['^.*$']).encode() if r.random() < 0.5 else b'')
        tree.write(local, q(pats).encode())
        return dict(config=conf), []
    tree.write(conf, q(pats[:k]).encode())
    return dict(config=conf), arg(pats[k:])


def backup(c, item):
    r = c.rng
    w = random_world(c)
    srcs = sources(c)
    cwd = c.mkdir('wd')
    for n in range(r.choice([2, 3, 4])):
        if n:
            for p in srcs:
                if os.path.isdir(p):
                    tree.mutate(r, p, r.choice([0, 2]))
        for p in srcs:
            freeze_atimes(p)
        full = {}
        for p in srcs:
            tree.capture(p, into=full, prefix=p)
        ks, pats = zip(*(pattern(r, sorted(full)) for _ in range(r.choice([1, 1, 2, 3]))))
        kw, args = given(c, w, list(pats), cwd)
        m = matcher(pats)
        want = tree.source(srcs, skip=m)
        before = w.snap_files()
        some = len(want) != len(full)
        if r.random() < 0.2:
            # What is skipped need not be readable.
            for p in sorted(full, key=len):
                if full[p][0] in 'fd' and m(p) and p not in srcs and not os.path.islink(p) and (full[p][0] == 'd' or os.lstat(p).st_nlink == 1):
                    os.chmod(p, 0)
                    c.see('skipped and unreadable', full[p][0])
                    break
        try:
            i = w.backup(srcs, '--allow-repeat', *([] if want else ['--allow-empty']), *args, want=want, **kw)
            R = w.verify(exact=False)
        except Violation as e:
            raise Violation('backup with patterns %s: %s' % (pats, e))
        s = R.snaps[i]
        if list(s.paths) != sorted(srcs, key=lambda p: p.split('/')):
            raise Violation('the snapshot names paths %s' % s.paths)
        for p in sorted(full, key=len):
            if full[p][0] in 'fd' and os.path.lexists(p):
                os.chmod(p, full[p][2] & 0o7777)
        c.see('backup', ks[0], len(ks), some, bool(want))
        c.count('patterns', len(pats))
        c.count('entries skipped', len(full) - len(want))
        c.eval()
    if r.random() < 0.3:
        w.restored(i, R=R)


def filt(c, item):
    r = c.rng
    w = random_world(c)
    srcs = sources(c)
    for _ in range(r.choice([1, 2])):
        w.backup(srcs, '--allow-repeat', '--allow-empty', *r.choice([[], ['-a', 'me', '-t', 'x', '-t', 'ö']]))
        for p in srcs:
            if os.path.isdir(p):
                tree.mutate(r, p, 3)
    cwd = c.mkdir('wd')
    host = socket.gethostname()
    for n in range(r.choice([2, 3, 4])):
        R0 = w.open()
        i = r.choice(sorted(w.model))
        s = R0.snaps[i]
        ks, pats = zip(*(pattern(r, sorted(w.model[i])) for _ in range(r.choice([1, 1, 2]))))
        pats = list(pats)
        kw, args = given(c, w, pats, cwd)
        if not args:
            args = ['-s', pats[0]]
        keep = r.random() < 0.4
        au = None if keep else r.choice([None, 'new author', ''])
        tags = [] if keep else r.choice([[], ['n1'], ['n2', 'n1', 'n2']])
        a = ['-k'] if keep else (['-a', au] if au is not None else []) + [x for t in tags for x in ('-t', t)]
        want = left(w.model[i], pats)
        same = want == w.model[i]
        before = w.snap_files()
        from c17 import bytes_of
        l0 = bytes_of(w.repo)
        import time
        t0 = time.time_ns()
        try:
            w.ok('filter-snapshot', *a, *args, fmt.name_of(i), **kw)
            t1 = time.time_ns()
            R = w.verify(model={j: e for j, e in w.model.items()}, exact=False)
        except Violation as e:
            raise Violation('filter-snapshot with %s: %s' % (pats, e))
        l1 = bytes_of(w.repo)
        for f, b in l0.items():
            if l1.get(f) != b:
                raise Violation('filter-snapshot changed or removed %s' % f)
        new = set(R.snaps) - set(R0.snaps)
        if same:
            # (It may store the empty directory, which backups do not.)
            idle = all(e == [('tree', 1, fmt.EMPTY_TREE)] for q, e in R.packs.items() if q not in R0.packs)
            if set(R.snaps) != set(R0.snaps) or l1.keys() != l0.keys() and not idle:
                raise Violation('filtering out nothing (%s) added %s' % (pats, sorted(set(l1) - set(l0))[:3]))
        elif len(new) != 1:
            hit = [j for j in R0.snaps if keep and R0.snaps[j].facts()[:-1] == s.facts()[:-1] and j != i and w.model[j] == want]
            if new or not hit:
                raise Violation('filter-snapshot made %d snapshots with %s' % (len(new), pats))
        else:
            j = new.pop()
            d = tree.differences(want, R.entries(R.snaps[j]))
            if d:
                raise Violation('filter-snapshot with %s gives something else than the snapshot without what matches: %s' % (pats, d))
            w.model[j] = want
            t = R.snaps[j]
            if t.paths != s.paths:
                raise Violation('filter-snapshot changed the paths: %s' % t.paths)
            if keep:
                if t.facts()[:-1] != s.facts()[:-1]:
                    raise Violation('filter-snapshot -k changed %s to %s' % (s.facts()[:-1], t.facts()[:-1]))
            else:
                if t.author != (host if au is None else au) or sorted(t.tags) != sorted(set(tags)) or not t0 <= t.time <= t1:
                    raise Violation('filter-snapshot %s gave author %r, tags %r, time %d (from %d to %d)' % (a, t.author, t.tags, t.time, t0, t1))
            # Nothing but directories is new.
            for p in set(R.packs) - set(R0.packs):
                for ty, _, b in R.packs[p]:
                    if ty != 'tree' or b in R0.blobs:
                        raise Violation('filter-snapshot stored a %s that %s' % (ty, 'was there' if b in R0.blobs else 'is new'))
        c.see('filter', ks[0], len(ks), keep, same, bool(want))
        c.count('patterns', len(pats))
        c.count('entries skipped', len(w.model[i]) - len(want))
        c.eval()
    i = r.choice(sorted(w.model))
    w.restored(i, R=w.open())
    c.sample(snapshots=len(w.model), steps=c.steps[-4:])


def copy(c, item):
    from c17 import copied
    r = c.rng
    w = random_world(c)
    srcs = sources(c)
    for _ in range(r.choice([1, 2])):
        w.backup(srcs, '--allow-repeat', '--allow-empty')
        for p in srcs:
            if os.path.isdir(p):
                tree.mutate(r, p, 3)
    dst = World(c, name='dst', pack_size=r.choice([None, '10KB']))
    cwd = c.mkdir('wd')
    for n in range(3):
        allp = sorted(set().union(*w.model.values()))
        ks, pats = zip(*(pattern(r, allp) for _ in range(r.choice([1, 1, 2, 3]))))
        kw, args = given(c, w, list(pats), cwd)
        S = w.open(streams=False)
        res = w.ok('copy', '-t', dst.repo, '--all', *args, **kw)
        D = dst.open()
        D.audit()
        for i, e in w.model.items():
            want = left(e, pats)
            s = S.snaps[i]
            near = []
            for t in D.snaps.values():
                if t.facts()[:-1] == s.facts()[:-1]:
                    d = tree.differences(want, D.entries(t))
                    if not d:
                        dst.model[t.id] = want
                        break
                    near.append(d)
            else:
                raise Violation('copying with %s gives no copy of %s without just what matches: %s' % (pats, fmt.name_of(i)[:8], near[:3]))
            c.count('entries skipped', len(e) - len(want))
            c.see('copy', ks[0], len(ks), want == e, bool(want))
        if set(D.snaps) != set(dst.model):
            raise Violation('copying with %s made snapshots nobody asked for' % (pats,))
        for f in os.listdir(cwd):
            os.unlink(os.path.join(cwd, f))
        c.count('patterns', len(pats))
        c.eval()


BAD = ['(', '[', '*', '+a', 'a{2', '\\', '(?P<n', '[z-a]', 'a**', '(?<=x)y', '\\1', '(?z)']


def invalid(c, item):
    from c17 import bytes_of
    r = c.rng
    w = World(c)
    srcs = sources(c, n=1, size='tiny')
    w.backup(srcs, '--allow-empty')
    dst = World(c, name='dst')
    for b in r.sample(BAD, 5):
        if b in ('a{2', 'a**'):
            continue
        l0, d0 = bytes_of(w.repo), bytes_of(dst.repo)
        for a in (['backup', '--allow-repeat', '-s', b] + srcs, ['filter-snapshot', '-s', b, 'LAST'], ['copy', '-s', 'fine', '-s', b, '-t', dst.repo, '--all']):
            w.fails(*a)
            if (bytes_of(w.repo), bytes_of(dst.repo)) != (l0, d0):
                raise Violation('a command refusing %r as an expression changed a repository' % b)
            c.see('invalid', b, a[0])
            c.eval()
    w.fails('filter-snapshot', '-k', '-a', 'x', '-s', 'y', 'LAST')
    w.fails('filter-snapshot', '-k', '-t', 'x', '-s', 'y', 'LAST')
    w.verify()


def run(ctx):
    fs = dict(backup=backup, filter=filt, copy=copy, invalid=invalid)
    order = ['backup', 'filter', 'copy', 'filter', 'backup']
    items = [('invalid', 0)] + [(order[k % 5] if k % 41 != 40 else 'invalid', k) for k in range(5000)]
    ctx.cases(lambda c, i: fs[i[0]](c, i), items, must=36)

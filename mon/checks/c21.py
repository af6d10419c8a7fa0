"""C21: a snapshot name selects the one snapshot it denotes, or fails."""
import json
import os
import re

import c09
import c19
import fmt
import show
from core import Violation
from world import World, random_world

LEVEL = 'exploration'
BUDGET = (30, 400)
RULE = ('Repositories of directly written snapshots (both versions; equal, adjacent, negative times; IDs found by search that share their first characters) where each snapshot '
        'holds one file of its own; every command taking a snapshot is given good, ambiguous, unknown and malformed names and must select what an independent reading of the '
        'name selects, or fail. Distinct: (command, kind of name, outcome).')


class Snaps:
    def __init__(self, c, n):
        self.c, r = c, c.rng
        self.w = w = World(c)
        x = c19.Writer(w)
        d = c19.meta('d', r, c19.BASE)
        times = [10 ** 18, 10 ** 18 + 1, 10 ** 18 + 999, 10 ** 18 - 1, 0, -1, -10 ** 18, 17 * 10 ** 17, 10 ** 18 + 10 ** 9]
        self.ids = {}
        share = r.choice([0, 4, 5])
        pre = {}
        k = 0
        while len(self.ids) < n:
            k += 1
            tm = r.choice(times)
            tz = r.choice(['UTC', 'Asia/Tokyo', 'America/Lima', '+14:00', '-09:30'])
            au = 'author %d' % k
            t = self.tree_of(k, d)
            i, data = fmt.make_snapshot(tm, tz, au, (), ('/s/x',), t[0])
            if share and len(self.ids) >= max(0, n - 4) and k < 200000:
                # Wait for one that begins like another.
                q = fmt.name_of(i)[:share]
                if any(fmt.name_of(j)[:share] == q for j in self.ids):
                    self.take(x, i, data, k, d)
                elif q in pre:
                    self.take(x, *pre[q], d)
                    self.take(x, i, data, k, d)
                else:
                    pre[q] = (i, data, k)
                    if len(pre) > 6000 and share == 4:
                        share = 0
                continue
            self.take(x, i, data, k, d)
        x.flush()
        self.R = w.open()
        self.order = [s.id for s in self.R.ordered()]
        c.see('sharing', share, n)

    def tree_of(self, k, d):
        # The same bytes as Writer.tree makes, without keeping them.
        w = c19.Writer(None)
        t = w.tree({'x': ('d', {'u%d' % k: ('f', b'only %d' % k, c19.BASE)}, d)})
        return t, w.blobs

    def take(self, x, i, data, k, d):
        if i in self.ids:
            return
        t, blobs = self.tree_of(k, d)
        x.blobs.update(blobs)
        fmt.put(self.w.repo, 'snapshot', i, data)
        self.ids[i] = k

    def resolve(self, name):
        """The snapshot a name denotes, or None."""
        if re.fullmatch(r'[0-9a-v]{45}', name):
            m = [i for i in self.order if fmt.name_of(i) == name]
            return m[0] if m else None
        m = re.fullmatch(r'(?:LAST|HEAD)(?:~([0-9]*))?', name, flags=re.A)
        if m and len(m.group(1) or '') > 40 and m.group(1).strip('0'):
            return None
        if m:
            k = 0 if '~' not in name else 1 if m.group(1) == '' else int(m.group(1))
            return self.order[-1 - k] if k < len(self.order) else None
        if len(name) < 4:
            return None
        m = [i for i in self.order if fmt.name_of(i).startswith(name)]
        return m[0] if len(m) == 1 else None

    def name(self):
        r = self.c.rng
        n = len(self.order)
        i = fmt.name_of(r.choice(self.order))
        j = fmt.name_of(r.choice(self.order[-4:] if r.random() < 0.5 else self.order))
        return r.choice([
            lambda: ('last', r.choice(['LAST', 'HEAD', 'LAST~', 'HEAD~'])),
            lambda: ('last~n', '%s~%d' % (r.choice(['LAST', 'HEAD']), r.randrange(0, n + 3))),
            lambda: ('last~edge', '%s~%d' % (r.choice(['LAST', 'HEAD']), r.choice([n - 1, n, n + 1, 0, 1]))),
            lambda: ('last~0n', 'LAST~%s%d' % ('0' * r.randrange(1, 30), r.randrange(0, n + 2))),
            lambda: ('last~huge', 'LAST~%d' % r.choice([2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 10 ** 40])),
            lambda: ('id', i),
            lambda: ('prefix', j[:r.randrange(4, 8)]),
            lambda: ('prefix', i[:r.randrange(4, 46)]),
            lambda: ('short', i[:r.randrange(0, 4)]),
            lambda: ('other id', fmt.name_of(r.randbytes(28))),
            lambda: ('nearly', i[:-1] + r.choice('0123456789abcdefghijklmnopqrstuvwxyz')),
            lambda: ('longer', i + r.choice(['0', 'a', ' ', '=', '~1', '/'])),
            lambda: ('upper', i.upper()),
            lambda: ('upper prefix', i[:6].upper()),
            lambda: ('middle', i[1:9]),
            lambda: ('wrong end', i[:7] + r.choice(['z', 'é', '\u200b', ' ', '\n', '*', '~1', '^', '.'])),
            lambda: ('garbage', r.choice(['', ' ', '~', '~1', '~~', 'LAST~~', 'LAST~-1', 'LAST~+1', 'LAST~ 1', 'LAST~1 ', ' LAST', 'LAST ', 'LAST\n', 'last', 'Last', 'LASTt', 'XLAST', 'LAST~1~1',
                                         'LAST~0x1', 'LAST~1e0', 'LAST~1.0', 'LAST^', 'LAST~é', 'LAST~٣', 'LAST~１', '☃', '☃☃☃☃', 'é' * 45, '\x7f' * 5, '../x', './LAST', '-' * 5, 'HEAD~a', 'LASTHEAD', 'a' * 5000,
                                         'LAST~' + '9' * 5000, '....', '[a-z]*', 'w' * 45, '0' * 44, '0' * 45, '0' * 46, 'DUPLICATES'])),
        ])()


def check(c, S, cmd):
    w, r = S.w, c.rng
    kind, name = S.name()
    if '\0' in name:
        return
    want = S.resolve(name)
    k = S.ids.get(want)
    own = 'u%s' % k
    c.see(cmd, kind, want is not None)
    c.eval()
    bad = lambda res: Violation('%s %r selects another snapshot than %s: %s' % (cmd, name, want and fmt.name_of(want), res.brief()))

    def run(*args, **kw):
        if want is None:
            return w.fails(*args, **kw)
        return w.ok(*args, **kw)
    if cmd == 'cat':
        res = run('cat', 'snapshot', '--', name)
        if want and json.loads(res.out)['author'] != 'author %d' % k:
            raise bad(res)
    elif cmd == 'ls':
        res = run('ls', '--', name)
        if want and res.stdout.split() != ['x/', 'x/' + own]:
            raise bad(res)
    elif cmd == 'dump':
        res = run('dump', '--', name, 'x')
        if want and res.stdout.split() != ['x/', 'x/' + own]:
            raise bad(res)
    elif cmd == 'snapshots':
        res = run('snapshots', '--', name)
        if want and re.findall(r'(?m)^snapshot (\S+)', res.stdout) != [fmt.name_of(want)]:
            raise bad(res)
    elif cmd == 'diff':
        other = r.choice(S.order)
        args = [name, fmt.name_of(other)]
        flip = r.random() < 0.5
        res = run('diff', '--', *(args[::-1] if flip else args))
        if want:
            a, b = (other, want) if flip else (want, other)
            lines = [] if a == b else ['- x/u%d' % S.ids[a], '+ x/u%d' % S.ids[b]]
            if sorted(res.stdout.split('\n')[:-1]) != sorted(lines):
                raise bad(res)
    elif cmd == 'restore':
        out = c.fresh('out')
        res = run('restore', '-o', out, '--', name)
        if want and os.listdir(out) != [own] or not want and os.listdir(out):
            raise bad(res)
    elif cmd == 'copy':
        dst = World(c, name='dst%d' % c.rng.getrandbits(40))
        res = run('copy', '-t', dst.repo, '--', name)
        if dst.snap_files() != ({fmt.name_of(want)} if want else set()):
            raise bad(res)
    elif cmd == 'filter':
        before = w.snap_files()
        res = run('filter-snapshot', '-k', '-s', '^x/u[0-9]+$', '--', name)
        new = w.snap_files() - before
        if len(new) != (1 if want else 0) or before - w.snap_files():
            raise bad(res)
        for n in new:
            p = os.path.join(w.repo, 'snapshots', n + '.snapshot')
            with open(p, 'rb') as f:
                s = fmt.parse_snapshot(f.read())
            if s.author != 'author %d' % k:
                raise bad(res)
            os.unlink(p)
    elif cmd == 'forget':
        if name == 'DUPLICATES':
            return
        before = w.snap_files()
        # Put back afterwards, so that the rest goes on.
        d = os.path.join(w.repo, 'snapshots')
        keep = {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d)}
        res = run('forget', '--', name)
        if before - w.snap_files() != ({fmt.name_of(want)} if want else set()):
            raise bad(res)
        for f, b in keep.items():
            with open(os.path.join(d, f), 'wb') as fh:
                fh.write(b)


CMDS = ['cat', 'ls', 'dump', 'snapshots', 'diff', 'restore', 'copy', 'filter', 'forget']


def lists(c, S):
    """Lists of names, and the order the commands show."""
    r, w = c.rng, S.w
    every = [fmt.name_of(i) for i in S.order]
    for rev in (False, True):
        got = re.findall(r'(?m)^snapshot (\S+)', w.ok('snapshots', *(['-r'] if rev else []), *r.choice([[], ['--stat'], ['-s']])).stdout)
        if got != (every[::-1] if rev else every):
            raise Violation('snapshots lists %s, the order is %s' % (got, every))
        c.eval()
    for _ in range(3):
        ns = [S.name() for _ in range(r.choice([2, 3, 5]))]
        ids = [S.resolve(n) for _, n in ns]
        args = ['--'] + [n for _, n in ns]
        flags = r.choice([[], ['-r'], ['-s'], ['--stat']])
        if None in ids:
            w.fails('snapshots', *flags, *args)
        else:
            got = re.findall(r'(?m)^snapshot (\S+)', w.ok('snapshots', *flags, *args).stdout)
            want = [fmt.name_of(i) for i in S.order if i in ids]
            if got != (want[::-1] if flags == ['-r'] else want):
                raise Violation('snapshots %s lists %s' % (args, got))
        c.eval()
        c.see('list', None in ids, len(set(ids)) < len(ids))
    # Copies in one go.
    ids = r.sample(S.order, min(3, len(S.order)))
    dst = World(c, name='dst%d' % r.getrandbits(40))
    w.ok('copy', '-t', dst.repo, *[fmt.name_of(i) for i in ids])
    if dst.snap_files() != {fmt.name_of(i) for i in ids}:
        raise Violation('copy of %s made %s' % (ids, dst.snap_files()))


def case(c, item):
    r = c.rng
    S = Snaps(c, r.choice([1, 2, 3, 6, 12]))
    lists(c, S)
    for cmd in CMDS * 8:
        check(c, S, cmd)
    c.sample(ids=[fmt.name_of(i)[:9] for i in S.order][:6])


def nothing(c, item):
    """No snapshots at all."""
    w = World(c)
    for n in ('LAST', 'LAST~', 'LAST~0', 'LAST~18446744073709551615', 'abcd', 'a', '', fmt.name_of(b'x' * 28)):
        for a in (['cat', 'snapshot', '--', n], ['ls', '--', n], ['dump', '--', n, 'x'], ['snapshots', '--', n], ['diff', '--', n, n], ['diff', '--', n], ['restore', '-o', c.fresh('o'), '--', n],
                  ['copy', '-t', w.repo + '2', '--', n], ['filter-snapshot', '-s', 'x', '--', n], ['forget', '--', n]):
            w.fails(*a)
            c.eval()
    if w.snap_files():
        raise Violation('there are snapshots')


def run(ctx):
    ctx.cases(nothing, [0], must=1)
    ctx.cases(case, range(4000), must=14)

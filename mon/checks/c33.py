"""C33: results do not depend on the machine, the terminal or the surroundings."""
import json
import os
import re
import sys

import fmt
import tree
from core import Violation
from world import World, freeze_atimes, sources

LEVEL = 'exploration'
BUDGET = (45, 600)
RULE = ('The same random history is run twice on the same sources, in two repositories: once in plain surroundings, once with each command in others: on a terminal (standard output, '
        'standard error or both; of any size, none, or changing all the time) or with descriptors closed, with 1, 2 or more CPUs (seen or usable), other locales, time zones, umasks, verbosity, '
        'colours, limits on open files and stacks, environment variables missing or odd, from other working directories, with the repository and the sources spelled otherwise, with '
        'directories that list their entries in other orders, under random delays. Exit status, what is printed (times and IDs made the same; not the progress display), snapshots, '
        'tree IDs, blobs and restored files must be the same. Distinct: (command, thing changed).')
ASSUMES = ['standard output can be written to']
AROUND = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'around.py')


def cpuinfo(c, n):
    p = c.path('cpuinfo%d' % n)
    if not os.path.exists(p):
        with open(p, 'w') as f:
            for k in range(n):
                f.write('processor\t: %d\nphysical id\t: 0\ncore id\t\t: %d\ncpu cores\t: %d\n\n' % (k, k, n))
    return p


class Around:
    """A choice of surroundings for one command."""
    WHAT = ['tty', 'tty', 'tty', 'cpus', 'seen cpus', 'locale', 'zone', 'umask', 'verbose', 'limits', 'environment', 'shuffle', 'delay', 'stdin', 'shut', 'colour', 'home']

    def __init__(self, c, cmd, cached):
        r = c.rng
        self.cached = cached
        self.c, self.r = c, r
        self.spec, self.env, self.shim, self.glob = {}, {}, {}, []
        self.tty, self.config = False, ''
        self.what = sorted(set(r.sample(self.WHAT, r.choice([1, 2, 3, 5]))))
        for what in self.what:
            getattr(self, 'do_' + what.replace(' ', '_'))(r, c)
            c.see(cmd, what)
            c.count('commands with other ' + what)
        if self.tty:
            self.spec.pop('shut', 0)
            c.see('terminal', self.spec['pty'], self.spec['size'], self.spec.get('resize'))

    def do_tty(self, r, c):
        self.tty = True
        self.spec['pty'] = r.choice(['both', 'both', 'out', 'err'])
        self.spec['size'] = [r.choice([0, 1, 2, 24, 24, 60]), r.choice([0, 1, 2, 3, 4, 5, 8, 10, 13, 20, 33, 80, 80, 300, 5000])]
        if r.random() < 0.3:
            self.spec['resize'] = True
        self.env['TERM'] = r.choice(['xterm-256color', 'xterm', 'dumb', 'linux', '', 'no-such-terminal'])

    def do_cpus(self, r, c):
        self.spec['cpus'] = r.choice([1, 1, 2, 3])

    def do_seen_cpus(self, r, c):
        self.shim['BPV_CPUINFO'] = cpuinfo(c, r.choice([1, 1, 2, 5, 33]))

    def do_locale(self, r, c):
        self.env.update({r.choice(['LANG', 'LC_ALL']): r.choice(['C', 'POSIX', 'de_DE.UTF-8', 'tr_TR.UTF-8', 'ja_JP.SJIS', '']), 'LC_NUMERIC': r.choice(['C', 'de_DE.UTF-8'])})

    def do_zone(self, r, c):
        self.env['TZ'] = r.choice(['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Apia', 'Pacific/Kiritimati', 'Etc/GMT+12', 'XXX-3', 'EST5EDT,M3.2.0,M11.1.0', '', ':', 'no/such/zone',
                                   '../../etc/passwd', '/usr/share/zoneinfo/Europe/Paris'])

    def do_umask(self, r, c):
        self.spec['umask'] = r.choice([0, 0o002, 0o022, 0o027, 0o077])

    def do_verbose(self, r, c):
        self.glob += ['-v'] * r.choice([1, 2, 3, 5]) + (['--timestamps'] if r.random() < 0.5 else [])

    def do_limits(self, r, c):
        what = r.choice(['nofile', 'stack', 'nice'])
        self.spec[what] = dict(nofile=128, stack=r.choice([1 << 20, 64 << 20]), nice=19)[what]

    def do_environment(self, r, c):
        e = dict(TMPDIR=r.choice(['/nonexistent', '/', '']), RUST_BACKTRACE=r.choice(['1', 'full']), COLUMNS=r.choice(['0', '-3', '1', 'x']), LINES='0', USER='', LOGNAME='', SHELL='/bin/false', PWD='/nonexistent',
                 RUST_LIB_BACKTRACE='1', EDITOR='false', ODD='\udcff\udcfe', EMPTY='', HOSTNAME='other')
        for k in r.sample(sorted(e), 5):
            self.env[k] = e[k]

    def do_shuffle(self, r, c):
        self.shim['BPV_SHUFFLE'] = r.randrange(1, 10 ** 6)

    def do_delay(self, r, c):
        self.shim['BPV_DELAY'] = '%d:%d:%d' % (r.getrandbits(30), r.choice([300, 2000]), r.choice([10, 40]))

    def do_stdin(self, r, c):
        self.spec['stdin'] = 'pipe'

    def do_shut(self, r, c):
        self.spec['shut'] = r.choice([[0], [2], [0, 2]])

    def do_colour(self, r, c):
        if r.random() < 0.5:
            self.glob += ['-c', r.choice(['auto', 'never'])]
        self.env.update(r.choice([dict(NO_COLOR='1'), dict(CLICOLOR='0'), dict(COLORTERM='truecolor')]))

    def do_home(self, r, c):
        """The default place for a configuration, where there is none."""
        self.config = None
        self.env['HOME'] = r.choice([c.path('home'), c.mkdir('a home\n')] + ([] if self.cached else ['/nonexistent']))
        if r.random() < 0.3:
            self.env['XDG_CONFIG_HOME'] = r.choice(['/nonexistent', '', 'relative'])


def spelled(r, p, cwd):
    """Another way to say p, from cwd."""
    k = r.choice(['same', 'relative', 'dots', 'slashes', 'up', 'end'])
    if k == 'relative':
        return os.path.relpath(p, cwd)
    if k == 'dots':
        return p.replace('/', '/./', 3)
    if k == 'slashes':
        return p.replace('/', '//', 3)
    if k == 'up':
        return os.path.join(os.path.dirname(p), '..', os.path.basename(os.path.dirname(p)), os.path.basename(p))
    if k == 'end' and os.path.isdir(p) and not os.path.islink(p):
        return p + '/'
    return p


ID = re.compile(rb'\b[0-9a-v]{45}\b')


class Pair:
    def __init__(self, c, **kw):
        self.c = c
        self.a = World(c, name='plain', **kw)
        self.b = World(c, name='other', **kw)
        self.n = 0

    def both(self, cmd, *args, paths=(), ids=(), compare=True, tail=(), mark=None):
        """Runs a command in both repositories; args given as a function of the side."""
        c, r = self.c, self.c.rng
        got = []
        for w in (self.a, self.b):
            x = list(args) if not callable(args[0] if args else None) else args[0](w)
            i = [fmt.name_of(self.order(w)[k]) for k in ids]
            if w is self.a:
                res = w.run(cmd, *x, *i, *paths, *tail, env=dict(TZ='UTC'))
                if res.panicked:
                    raise Violation('command crashed: ' + res.brief())
                got.append(res)
                continue
            o = Around(c, cmd, w.cached)
            cwd = c.fresh('elsewhere') if r.random() < 0.5 else w.cwd
            ps = [spelled(r, p, cwd) for p in paths]
            repo = spelled(r, w.repo, cwd)
            kw = dict(cwd=cwd, env=o.env, config=o.config, glob=o.glob)
            if o.shim:
                kw['shim'] = o.shim
            if r.random() < 0.15:
                kw['glob'] = o.glob + ['-C', spelled(r, cwd, w.cwd)]
                kw['cwd'] = w.cwd
            c.wrap = [sys.executable, AROUND, json.dumps(o.spec)]
            try:
                res = c.run(repo, cmd, *x, *i, *ps, *tail, **kw)
            finally:
                c.wrap = []
            if b'panicked at' in res.out or res.panicked:
                raise Violation('command crashed in other surroundings (%s): %s' % (o.what, res.brief()), spec=o.spec, env=str(o.env))
            left = os.listdir(cwd)
            if left:
                raise Violation('files are left in the working directory of %s: %s' % (cmd, left[:4]))
            got.append(res)
        x, y = got
        if x.rc != y.rc:
            raise Violation('%s ends with %s, but with %s in other surroundings (%s): %s\n--- plain: %s' % (cmd, x.rc, y.rc, o.what, y.brief(), x.brief()), spec=o.spec, env=str(o.env))
        if compare and not (o.tty and o.spec['pty'] != 'err'):
            s, t = self.plain(x.out, self.a), self.plain(y.out.replace(b'repository ' + repo.encode() + b'\n', b'repository <repo>\n'), self.b)
            if s != t:
                k = next(k for k in range(max(len(s), len(t))) if s[k:k + 1] != t[k:k + 1])
                raise Violation('%s prints something else in other surroundings (%s): %r instead of %r' % (cmd, o.what, t[max(0, k - 150):k + 150], s[max(0, k - 150):k + 150]), spec=o.spec, env=str(o.env))
            c.count('outputs compared')
            c.count('bytes of output compared', len(s))
        self.n += 1
        c.eval()
        return x, y

    def order(self, w):
        return [s.id for s in w.open(streams=False).ordered()]

    def plain(self, out, w):
        for k, i in enumerate(self.order(w)):
            out = out.replace(fmt.name_of(i).encode(), b'<snapshot %d>' % k)
        out = re.sub(rb'(?m)^(Date: +).*$', rb'\1', out)
        out = out.replace(w.repo.encode(), b'<repo>')
        return out

    def same(self):
        """Both repositories hold the same."""
        A, B = self.a.verify(), self.b.verify()
        f = [[(s.author, s.tags, s.paths, s.tree) for s in R.ordered()] for R in (A, B)]
        if f[0] != f[1]:
            raise Violation('the snapshots differ: %s and %s' % [str(next(x for x in z if x not in f[1 - k])) if any(x not in f[1 - k] for x in z) else len(z) for k, z in enumerate(f)])
        if set(A.blobs) != set(B.blobs):
            raise Violation('%d blobs are stored in plain surroundings, %d in others, %d of them the same' % (len(A.blobs), len(B.blobs), len(set(A.blobs) & set(B.blobs))))
        self.c.count('snapshots compared', len(f[0]))
        self.c.count('blobs compared', len(A.blobs))
        self.c.eval()


def case(c, item):
    r = c.rng
    base = c.mkdir('base')
    p = Pair(c, pack_size=r.choice([None, '20KB', '300KB']), cached=r.random() < 0.3)
    srcs = sources(c, n=r.choice([1, 2, 3]), size=r.choice(['small', 'small', 'medium']) if item % 5 else 'medium')
    sets = [srcs] + ([[srcs[0]]] if len(srcs) > 1 else [])
    a, b = p.a, p.b

    def backup():
        ps = r.choice(sets)
        for d in ps:
            if os.path.isdir(d) and a.model:
                tree.mutate(r, d, r.choice([0, 1, 3]))
        for d in srcs:
            freeze_atimes(d)
        want = tree.source(ps)
        args = ['--allow-repeat', '--allow-empty', '-a', r.choice(['someone', 'ünï']), *(['-t', r.choice(['x', 'täg'])] if r.random() < 0.3 else [])]
        before = [w.snap_files() for w in (a, b)]
        p.both('backup', *args, paths=ps, compare=False)
        for w, x in zip((a, b), before):
            w.note_new(x, want)

    def forget():
        k = r.sample(range(len(a.model)), r.choice([1, 1, 2]) if len(a.model) > 2 else 1)
        ids = [[p.order(w)[j] for j in k] for w in (a, b)]
        p.both('forget', ids=k, compare=False)
        for w, x in zip((a, b), ids):
            for i in x:
                del w.model[i]

    def prune():
        p.both('prune', *r.choice([[], [], ['-n']]), compare=False)

    def rebuild():
        p.both('rebuild-index', *r.choice([[], [], ['-n']]), compare=False)

    def ls():
        p.both('ls', ids=[r.randrange(len(a.model))])

    def diff():
        x = r.sample(range(len(a.model)), 2) if len(a.model) > 1 and r.random() < 0.7 else [r.randrange(len(a.model))]
        p.both('diff', *(['-m'] if r.random() < 0.5 else []), ids=x)

    def snapshots():
        p.both('snapshots', *r.sample(['--stat', '-m', '-s', '-f', '-r'], r.choice([0, 1, 2])) or ['--stat'], compare=True)

    def check():
        p.both('check', *(['-r'] if r.random() < 0.5 else []), compare=False)

    def dump():
        k = r.randrange(len(a.model))
        m = a.model[p.order(a)[k]]
        if m:
            p.both('dump', ids=[k], tail=['--', r.choice(sorted(m))])

    def restore():
        k = r.randrange(len(a.model))
        outs = {w: c.fresh('out') for w in (a, b)}
        if r.random() < 0.3:
            for o in outs.values():
                tree.write(os.path.join(o, 'old'), b'x')
                os.utime(os.path.join(o, 'old'), (10 ** 9, 10 ** 9))
        flags = r.choice([['-p', '-t'], ['-p', '-t'], ['-t'], ['-p', '-t', '-d']])
        ids = {w: p.order(w)[k] for w in (a, b)}
        paths = a.open(streams=False).snaps[ids[a]].paths
        if len(paths) == 1 and a.model[ids[a]] and all(e[0] != 'd' for q, e in a.model[ids[a]].items() if '/' not in q):
            return
        got = []
        if b.c.rng.random() < 2:
            p.both('restore', lambda w: [*flags, '-o', outs[w]], ids=[k], compare=False)
        for w in (a, b):
            g = {}
            if os.path.lexists(outs[w]):
                tree.capture(outs[w], into=g, prefix='R')
            got.append(g)
        d = tree.differences(*got, mode='-p' in flags, mtime=True)
        d = [x for x in d if not x.startswith("'R'")] if isinstance(d, list) else d
        if d:
            raise Violation('a restore with %s gives something else in other surroundings: %s' % (flags, d))
        c.count('restores compared')
        for o in outs.values():
            if os.path.lexists(o):
                tree.wipe(o)

    def copy():
        k = r.randrange(len(a.model))
        if not hasattr(p, 'to'):
            p.to = {a: World(c, name='to-a', pack_size='30KB'), b: World(c, name='to-b', pack_size='30KB')}
        p.both('copy', lambda w: ['-t', p.to[w].repo], ids=[k], compare=False)
        R = [p.to[w].open() for w in (a, b)]
        if set(R[0].blobs) != set(R[1].blobs) or sorted(s.tree for s in R[0].snaps.values()) != sorted(s.tree for s in R[1].snaps.values()):
            raise Violation('a copy sends something else in other surroundings')

    def filt():
        k = r.randrange(len(a.model))
        before = [w.snap_files() for w in (a, b)]
        pat = r.choice(['a', 'e', '[0-9]$', r'\.', 'x'])
        p.both('filter-snapshot', '-s', pat, ids=[k], compare=False)
        for w, x in zip((a, b), before):
            for i in w.snap_files() - x:
                R = w.open()
                w.model[fmt.raw_of(i)] = R.entries(R.snaps[fmt.raw_of(i)])

    def wrong():
        p.both(*r.choice([('ls', 'vvvvvv'), ('restore', 'LAST~99'), ('dump', 'LAST', '--', 'no/such'), ('forget', 'zzzz'), ('cat', 'blob', '0' * 45), ('backup', '/nonexistent/x'), ('frobnicate',)]), compare=False)

    backup()
    ops = [backup, backup, forget, prune, rebuild, ls, diff, snapshots, check, dump, restore, restore, copy, filt, wrong]
    todo = r.sample(ops, len(ops))[:10 if c.quick else 16]
    for op in todo:
        if c.ctx.time_left() < -20:
            break
        if not a.model:
            backup()
        op()
        p.same()
    c.sample(commands=p.n)


def run(ctx):
    ctx.cases(case, range(2000), must=14)

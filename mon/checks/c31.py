"""C31: init makes a usable empty repository and never harms an existing one."""
import os
import re
import tomllib
from fractions import Fraction

import fmt
import tree
from checks.c10 import compare, prints
from core import Violation
from world import World

LEVEL = 'exploration'
BUDGET = (30, 300)
RULE = ('Init is run on targets of every state (absent, parent absent, empty, holding a hidden, ordinary, dangling or nested entry, partial and whole repositories, files, links to each, unreadable, unwritable), named '
        'absolutely, relatively, with dots and slashes, with random options; a fake gpg that works, fails or garbles stands in for the filter. A success has to leave exactly the documented layout, a configuration that '
        'reads back as what was asked, packs of that size, and a repository that every command accepts; a failure has to leave everything as it was. Two inits at once: exactly one wins. Every other command is given paths '
        'that are no repository, repositories with parts missing and malformed configurations: it has to fail, without a crash, and leave path, working directory, target and home as they were. Distinct: (state, options, outcome), (command, defect).')
ASSUMES = ['init may leave a partial repository when the disk fails halfway']

UNITS = {'': 1, 'B': 1, 'KB': 10 ** 3, 'MB': 10 ** 6, 'GB': 10 ** 9, 'TB': 10 ** 12, 'PB': 10 ** 15, 'EB': 10 ** 18,
         'KiB': 1 << 10, 'MiB': 1 << 20, 'GiB': 1 << 30, 'TiB': 1 << 40, 'PiB': 1 << 50, 'EiB': 1 << 60}


def size_of(text):
    m = re.fullmatch(r'\s*([0-9.]+)\s*([A-Za-z]*)\s*', text)
    return Fraction(m.group(1)) * UNITS[m.group(2)]


# what init is given as the pack size, and what it means
SIZES = [(None, 100000000), ('20KB', 20000), ('1 MiB', 1 << 20), ('1.5MB', 1500000), ('123456789', 123456789), ('1B', 1), ('3GB', 3 * 10 ** 9), ('777KiB', 777 * 1024), ('100000001', 100000001), ('4 GiB', 1 << 32),
         ('5000000000001', 5000000000001), ('1e3', None), ('', None), ('-5', None), ('big', None), ('12 parsecs', None), ('1,5MB', None), ('18446744073709551616', None), ('0x10', None), ('NaN', None)]


def valid(r):
    return r.choice([s for s in SIZES if s[1]])


def gpg(c, kind):
    """A directory with a stand-in for gpg."""
    d = c.fresh('bin')
    s = {'good': 'case "$1" in --encrypt) echo "$@" >> %s/args; printf ENC; exec gzip -nc;; --decrypt) tail -c +4 | gzip -dc;; esac' % d,
         'no encrypt': 'cat >/dev/null; exit 2',
         'no decrypt': 'case "$1" in --encrypt) cat;; *) cat > /dev/null; exit 2;; esac',
         'garbles': 'case "$1" in --encrypt) cat;; *) tail -c +2;; esac',
         'adds': 'case "$1" in --encrypt) cat;; *) cat; echo;; esac',
         'empty': 'case "$1" in --encrypt) cat;; *) cat >/dev/null;; esac',
         'eats nothing': 'exit 0'}[kind]
    tree.write(os.path.join(d, 'gpg'), ('#!/bin/sh\n%s\n' % s).encode())
    os.chmod(os.path.join(d, 'gpg'), 0o755)
    return d


def state(c, k, base):
    """Makes the target in some state; returns (path, whether init may make a repository there)."""
    p = os.path.join(base, 'target')
    other = os.path.join(base, 'other')
    if k == 'absent':
        return p, True
    if k == 'parent absent':
        return os.path.join(base, 'no', 'such'), False
    if k == 'parent is a file':
        tree.write(other, b'x')
        return os.path.join(other, 'r'), False
    if k == 'empty':
        os.mkdir(p)
        return p, True
    if k in ('hidden file', 'file within', 'dir within', 'link within', 'dangling within', 'fifo within', 'odd name within', 'hidden dir'):
        os.mkdir(p)
        q = os.path.join(p, {'hidden file': '.x', 'hidden dir': '.d', 'odd name within': b'\xff'.decode('utf-8', 'surrogateescape')}.get(k, 'x'))
        if k in ('dir within', 'hidden dir'):
            os.mkdir(q)
        elif k == 'link within':
            os.symlink(base, q)
        elif k == 'dangling within':
            os.symlink('nowhere', q)
        elif k == 'fifo within':
            os.mkfifo(q)
        else:
            tree.write(q, b'precious')
        return p, False
    if k == 'many files':
        os.mkdir(p)
        for n in range(50):
            tree.write(os.path.join(p, 'f%d' % n), b'%d' % n)
        return p, False
    if k in ('repository', 'used repository'):
        w = World(c, name=os.path.relpath(p, c.place), pack_size='20KB')
        if k == 'used repository':
            s = c.fresh('s')
            tree.Gen(c.rng, s + '/t', size='tiny')
            w.backup([s + '/t'])
        return p, False
    if k in ('only packs', 'only indexes', 'only snapshots', 'only config', 'only empty parts'):
        os.mkdir(p)
        for d in (['packs', 'indexes', 'snapshots'] if k == 'only empty parts' else [k.split()[1]]):
            if d == 'config':
                tree.write(os.path.join(p, 'config.toml'), b'[backend]\ntype = "Filesystem"\nforce_cache = false\n')
            else:
                os.mkdir(os.path.join(p, d))
        return p, False
    if k == 'file':
        tree.write(p, b'precious')
        return p, False
    if k == 'empty file':
        tree.write(p, b'')
        return p, False
    if k in ('link to empty', 'link to full', 'link to file', 'link to absent', 'loop'):
        if k == 'link to empty':
            os.mkdir(other)
        elif k == 'link to full':
            os.mkdir(other)
            tree.write(os.path.join(other, 'x'), b'precious')
        elif k == 'link to file':
            tree.write(other, b'precious')
        os.symlink('target' if k == 'loop' else 'other', p)
        return p, k == 'link to empty'
    if k == 'unwritable':
        os.mkdir(p)
        os.chmod(p, 0o555)
        return p, False
    if k == 'unreadable':
        os.mkdir(p)
        tree.write(os.path.join(p, 'x'), b'precious')
        os.chmod(p, 0o333)
        return p, False
    if k == 'parent unwritable':
        os.mkdir(other)
        os.chmod(other, 0o555)
        return os.path.join(other, 'r'), False
    raise ValueError(k)


STATES = ['absent', 'parent absent', 'parent is a file', 'empty', 'hidden file', 'hidden dir', 'file within', 'dir within', 'link within', 'dangling within', 'fifo within', 'odd name within', 'many files', 'repository',
          'used repository', 'only packs', 'only indexes', 'only snapshots', 'only config', 'only empty parts', 'file', 'empty file', 'link to empty', 'link to full', 'link to file', 'link to absent', 'loop', 'unwritable',
          'unreadable', 'parent unwritable']


def name_it(r, p, base):
    """Ways to name a path: (argument, working directory)."""
    k = r.choice(['abs', 'abs', 'rel', 'slash', 'dots', 'here', 'double'])
    if k == 'rel':
        return os.path.relpath(p, base), base, k
    if k == 'slash' and not os.path.islink(p) and not os.path.isfile(p):
        return p + '/', base, k
    if k == 'dots':
        return os.path.join(base, '.', '..', os.path.basename(base), os.path.relpath(p, base)), base, k
    if k == 'here' and os.path.isdir(p) and os.access(p, os.X_OK):
        return '.', p, k
    if k == 'double':
        return p.replace('/target', '//target').replace('/other/', '/other//'), base, k
    return p, base, 'abs'


def want_config(c, p, size, cache, filt):
    with open(os.path.join(p, 'config.toml'), 'rb') as f:
        t = tomllib.load(f)
    want = dict(backend=dict(type='Filesystem', force_cache=cache))
    if filt:
        want['filter'], want['unfilter'] = filt
    got = {k: v for k, v in t.items() if k != 'pack_size'}
    if got != want:
        raise Violation('init wrote %r, not %r' % (got, want))
    if size_of(str(t['pack_size'])) != size:
        raise Violation('init was asked for packs of %s bytes and wrote %r' % (size, t['pack_size']))


def usable(c, p, env=None, full=True):
    """Every command accepts it."""
    r = c.rng
    wd = c.fresh('wd')
    kw = dict(cwd=wd, env=env)
    for a in r.sample([['check'], ['check', '-r'], ['snapshots'], ['snapshots', '--stat', '-f'], ['usage'], ['prune', '-n'], ['rebuild-index', '-n'], ['forget', 'DUPLICATES'], ['prune'], ['rebuild-index']], 10 if full else 4):
        if a[0] == 'rebuild-index':
            q = c.run(p, *a, **kw)
            c.clean_fail(q)
            if q.rc and 'No new index built' not in q.stderr:
                raise Violation('rebuild-index of an empty repository fails: %s' % q.brief())
        else:
            c.ok(p, *a, **kw)
    o = c.path('copyto%d' % r.getrandbits(40))
    c.ok(o, 'init', 'filesystem')
    for a, b in ((p, o), (o, p)):
        q = c.run(a, 'copy', '-t', b, '--all', **kw)
        c.clean_fail(q)
    for a in (['ls', 'LAST'], ['restore', 'LAST', '-o', c.path('nothing')], ['dump', 'LAST', '/x'], ['forget', 'LAST'], ['diff', 'LAST'], ['filter-snapshot', '-s', 'x', 'LAST']):
        c.fails(p, *a, **kw)
    s = c.fresh('s')
    tree.Gen(r, s + '/t', size='tiny')
    w = World(c, name=os.path.relpath(p, c.place), init=False)
    w.cwd = wd
    w.backup([s + '/t'], env=env)
    i = next(iter(w.model))
    w.restored(i, R=None if not env else fake_open(w, env), env=env)
    c.ok(p, 'check', '-r', **kw)
    if not env:
        w.verify()
    w.clean_cwd()
    return w


def fake_open(w, env):
    os.environ['PATH'], old = env['PATH'], os.environ['PATH']
    try:
        return w.open(leftovers=True)
    finally:
        os.environ['PATH'] = old


def layout(p):
    got = sorted(os.path.relpath(os.path.join(d, n), p) for d, ds, fs in os.walk(p) for n in ds + fs)
    if got != ['config.toml', 'indexes', 'packs', 'snapshots']:
        raise Violation('init made %s' % got)


def places(c, item):
    """One state of the target."""
    r = c.rng
    for _ in range(3):
        base = c.fresh('p')
        k = item[1] if item[1] in STATES else r.choice(STATES)
        p, may = state(c, k, base)
        arg, cwd, how = name_it(r, p, base)
        size = valid(r) if r.random() < 0.7 else r.choice(SIZES)
        cache = r.random() < 0.3
        g = r.choice(['good', 'no encrypt', 'no decrypt', 'garbles', 'adds', 'empty', 'eats nothing', 'absent']) if r.random() < 0.3 else None
        env, filt = None, None
        if g:
            d = gpg(c, g) if g != 'absent' else c.fresh('bin')
            if g == 'absent' and os.path.exists('/usr/bin/gpg'):
                g = None
            else:
                env = dict(PATH=d + ':/usr/bin:/bin')
                who = r.choice(['me@example.com', '0xABCDEF', "'Some Body'"])
                filt = ('gpg --encrypt --quiet --recipient ' + who, 'gpg --decrypt --quiet')
        b2 = r.random() < 0.15
        args = ['init'] + ([] if size[0] is None else ['-p', size[0]] if r.random() < 0.5 and not size[0].startswith('-') else ['--pack-size=' + size[0]]) + (['--gpg', who] if g else [])
        if b2:
            opts = dict(key_id=r.choice(['00abc', 'k"q', 'ünï']), application_key=r.choice(['K00/+=', "it's", 'back\\slash', 'x\ny']), bucket=r.choice(['bucket-1', 'b "q" \'']))
            conn = r.choice([None, 1, 9, 64])
            args += ['backblaze', '-k', opts['key_id'], '-a', opts['application_key'], '-b', opts['bucket']] + ([] if conn is None else ['-c', str(conn)])
            if r.random() < 0.2:
                args = args[:-2]
                conn = 4 if conn is not None else conn
                if '-b' not in args:
                    size = ('', None)
        else:
            args += ['filesystem'] + (['--force-cache'] if cache else [])
        watch = [base, c.env0['HOME'], cwd]
        before = prints(watch)
        q = c.run(arg, *args, cwd=cwd, env=env)
        c.clean_fail(q)
        fine = size[1] is not None and g in (None, 'good') and may
        if b2:
            fine = fine and k == 'absent' and how != 'slash'
            if how == 'slash' and k == 'absent':
                fine = q.rc == 0
        c.see(k, how, 'b2' if b2 else 'fs', size[1] is not None, g, q.rc)
        if (q.rc == 0) != fine:
            raise Violation('init of a target that is %s (%s) %s: %s' % (k, how, 'failed' if fine else 'succeeded', q.brief()))
        if q.rc:
            compare(before, prints(watch), 'a failed init of a target that is %s' % k)
            c.count('failed inits compared')
        elif b2:
            with open(p, 'rb') as f:
                t = tomllib.load(f)
            want = dict(opts, type='Backblaze', concurrent_connections=4 if conn is None else conn)
            if t['backend'] != want or size_of(t['pack_size']) != size[1] or (t.get('filter'), t.get('unfilter')) != (filt or (None, None)):
                raise Violation('init wrote %r, not %r' % (t, want))
            c.count('configurations read back')
            b4 = prints(watch)
            q = c.run(arg, *args, cwd=cwd, env=env)
            if q.rc == 0:
                raise Violation('init replaces a repository')
            compare(b4, prints(watch), 'a second init')
        else:
            real = os.path.realpath(p)
            layout(real)
            want_config(c, real, size[1], cache, filt)
            c.count('configurations read back')
            aft = prints(watch, loose=(base, os.path.join(base, 'other'), real))
            for x in before:
                if x not in (base, real) and (x not in aft or before[x][:5] != aft[x][:5]) and not (before[x] and before[x][0].startswith('0o4')):
                    raise Violation('init changed %s' % x)
            if size[1] >= 1000 or size[1] == 1:
                usable(c, real, env, full=r.random() < 0.3)
            b4 = prints([real])
            q = c.run(arg, *args, cwd=cwd, env=env)
            c.clean_fail(q)
            if q.rc == 0:
                raise Violation('init replaces a repository')
            compare(b4, prints([real]), 'a second init')
        c.eval()
        for d in (os.path.join(base, 'target'), os.path.join(base, 'other')):
            if os.path.isdir(d) and not os.path.islink(d):
                os.chmod(d, 0o755)


def packs(c, item):
    """Packs have the size that was asked for."""
    r = c.rng
    text, n = r.choice([('64KiB', 65536), ('300000', 300000), ('250KB', 250000), ('1MB', 1000000), ('0.7MiB', 734003), ('2MiB', 2 << 20), ('400 kB', 400000)])
    w = World(c, pack_size=text)
    s = c.mkdir('s', 'd')
    b = r.choice([3000, 7000, 20000])
    m = max(3 * n // b, 10) + r.randrange(20)
    for k in range(m):
        tree.write(os.path.join(s, 'f%d' % k), r.randbytes(b))
    w.backup([s])
    R = w.verify()
    chunk = [p for p, e in R.packs.items() if any(t == 'chunk' for t, _, _ in e)]
    sizes = sorted(R.sizes['packs/%s.pack' % fmt.name_of(p)] for p in chunk)
    blobs = max(len(R.packs[p]) for p in chunk)
    hi = n + b + 70 * blobs + 2000
    if any(x < n or x > hi for x in sizes[1:]) or sizes[0] > hi:
        raise Violation('packs of %s bytes for a pack size of %s' % (sizes, text))
    c.see('pack size', text, len(sizes))
    c.count('packs measured', len(sizes))
    c.eval()


def both(c, item):
    """Two inits of one place at once."""
    r = c.rng
    for _ in range(4):
        base = c.fresh('p')
        p = os.path.join(base, 'target')
        k = r.choice(['absent', 'empty'])
        if k == 'empty':
            os.mkdir(p)
        ps = []
        n = r.choice([2, 2, 3])
        for j in range(n):
            ps.append(c.start(p, 'init', '-p', '%dKB' % (j + 10), 'filesystem', shim=dict(BPV_DELAY='%d:3000:0.7' % r.getrandbits(30), BPV_SCOPE=base)))
        rs = [x.wait() for x in ps]
        for x in rs:
            c.clean_fail(x)
        won = [j for j, x in enumerate(rs) if x.rc == 0]
        if len(won) != 1:
            raise Violation('%d of %d inits at once succeeded: %s' % (len(won), n, [x.brief() for x in rs]))
        layout(p)
        want_config(c, p, (won[0] + 10) * 1000, False, None)
        c.see('at once', k, n, won[0])
        c.eval()
    usable(c, p, full=False)


GOOD = '[backend]\ntype = "Filesystem"\nforce_cache = false\n'
CONFIGS = {
    'empty': b'', 'garbage': b'\x00\x01\xff\xfe', 'not toml': b'this is = = not toml', 'no backend': b'pack_size = "1MB"\n', 'no type': b'[backend]\nforce_cache = false\n',
    'unknown type': b'[backend]\ntype = "Floppy"\nforce_cache = false\n', 'no force_cache': b'[backend]\ntype = "Filesystem"\n', 'force_cache text': b'[backend]\ntype = "Filesystem"\nforce_cache = "no"\n',
    'filter only': b'filter = "cat"\n' + GOOD.encode(), 'unfilter only': b'unfilter = "cat"\n' + GOOD.encode(), 'filter list': b'filter = ["cat"]\nunfilter = "cat"\n' + GOOD.encode(),
    'pack size text': b'pack_size = "huge"\n' + GOOD.encode(), 'pack size negative': b'pack_size = -1\n' + GOOD.encode(), 'pack size list': b'pack_size = []\n' + GOOD.encode(), 'pack size empty': b'pack_size = ""\n' + GOOD.encode(),
    'twice': GOOD.encode() * 2, 'not UTF-8': b'# \xe9\n' + GOOD.encode(), 'cut short': GOOD.encode()[:-9], 'b2 half': b'[backend]\ntype = "Backblaze"\nkey_id = "x"\n', 'array': b'[[backend]]\ntype = "Filesystem"\nforce_cache = false\n',
}


def bad_place(c, k, base):
    """A path that is no repository."""
    p = os.path.join(base, 'r')
    if k == 'absent':
        return p
    if k == 'empty':
        os.mkdir(p)
        return p
    if k == 'file':
        tree.write(p, b'just a file')
        return p
    if k == 'empty file':
        tree.write(p, b'')
        return p
    if k == 'toml file':
        tree.write(p, GOOD.encode())
        return p
    if k == 'link loop':
        os.symlink('r', p)
        return p
    if k == 'dangling':
        os.symlink('nowhere', p)
        return p
    if k == 'no config':
        World(c, name=os.path.relpath(p, c.place))
        os.unlink(os.path.join(p, 'config.toml'))
        return p
    if k == 'other things':
        os.mkdir(p)
        tree.Gen(c.rng, p + '/t', size='tiny')
        return p
    w = World(c, name=os.path.relpath(p, c.place), pack_size='20KB')
    if c.rng.random() < 0.7:
        s = c.fresh('s')
        tree.Gen(c.rng, s + '/t', size='tiny')
        w.backup([s + '/t'])
    if k in ('no packs', 'no indexes', 'no snapshots'):
        tree.wipe(os.path.join(p, k[3:]))
    elif k.startswith('file for '):
        tree.wipe(os.path.join(p, k[9:]))
        tree.write(os.path.join(p, k[9:]), b'')
    elif k == 'config a directory':
        os.unlink(os.path.join(p, 'config.toml'))
        os.mkdir(os.path.join(p, 'config.toml'))
    elif k == 'config unreadable':
        os.chmod(os.path.join(p, 'config.toml'), 0)
    elif k == 'within':
        return os.path.join(p, 'packs')
    elif k == 'parent':
        return base
    else:
        tree.write(os.path.join(p, 'config.toml'), CONFIGS[k])
    return p


BAD = ['absent', 'empty', 'file', 'empty file', 'link loop', 'dangling', 'no config', 'other things', 'no packs', 'no indexes', 'no snapshots', 'config a directory', 'config unreadable', 'within', 'parent'] + sorted(CONFIGS)


def others(c, item):
    """Other commands and paths that are no repository."""
    r = c.rng
    base = c.fresh('b')
    k = item[1] if item[1] in BAD else r.choice(BAD)
    p = bad_place(c, k, base)
    src = c.mkdir('src')
    tree.write(os.path.join(src, 'f'), b'data')
    good = World(c, name='good')
    good.backup([src])
    snap = fmt.name_of(next(iter(good.model)))
    out = c.path('out')
    wd = c.fresh('wd')
    if r.random() < 0.3:
        tree.write(os.path.join(wd, 'backpak-wip.index'), b'junk')
    watch = [base, wd, src, good.repo, c.env0['HOME'], out]
    cmds = [('backup', src), ('backup', '-n', src), ('check',), ('check', '-r'), ('snapshots',), ('usage',), ('prune',), ('prune', '-n'), ('rebuild-index',), ('forget', 'LAST'), ('forget', 'DUPLICATES'), ('restore', '-o', out, snap),
            ('restore', '-o', out, 'LAST'), ('copy', '-t', good.repo, '--all'), ('copy', '-t', good.repo, 'LAST'), ('diff', 'LAST'), ('diff', snap, snap), ('dump', '-o', out, 'LAST', 'src/f'), ('dump', snap, 'src/f'), ('ls', 'LAST'),
            ('cat', 'blob', snap), ('cat', 'pack', snap), ('cat', 'index', snap), ('cat', 'snapshot', snap), ('cat', 'snapshot', 'LAST'), ('filter-snapshot', '-s', 'f', 'LAST'), 'to']
    for a in cmds if not c.quick else r.sample(cmds, 12) + ['to']:
        before = prints(watch)
        if a == 'to':
            q = c.run(good.repo, 'copy', '-t', p, '--all', cwd=wd)
        else:
            q = c.run(p, *a, cwd=wd)
        c.see('command', a if a == 'to' else a[0], k)
        c.clean_fail(q)
        if q.rc == 0:
            raise Violation('`%s` accepts a path that is no repository (%s): %s' % (a, k, q.brief()))
        compare(before, prints(watch), '`%s` on a path that is no repository (%s)' % (' '.join(a), k))
        c.eval()
        c.count('refusals compared')
    for d, ds, fs in os.walk(base):
        for f in fs:
            if not os.path.islink(os.path.join(d, f)):
                os.chmod(os.path.join(d, f), 0o644)
    c.sample(defect=k, steps=c.steps[-2:])


USER = {'garbage': b'\x00\xff', 'not toml': b'= =', 'cache text': b'cache_size = "lots"\n', 'skips text': b'skips = "a"\n', 'skips numbers': b'skips = [1]\n', 'backup text': b'backup = "x"\n', 'dereference text': b'[backup]\ndereference = "x"\n',
        'output number': b'[restore]\noutput = 3\n'}


def users(c, item):
    """Malformed configurations of the user's."""
    r = c.rng
    w = World(c)
    src = c.mkdir('src')
    tree.write(os.path.join(src, 'f'), b'data')
    w.backup([src])
    k = r.choice(sorted(USER) + ['bad skip'])
    local = r.random() < 0.5
    good = c.path('good.toml')
    tree.write(good, b'')
    bad = os.path.join(w.cwd, '.backpak') if local else c.path('bad.toml')
    tree.write(bad, USER.get(k, b'skips = ["("]\n'))
    tree.write(os.path.join(src, 'f'), b'other')
    out = c.path('out')
    watch = [w.repo, w.cwd, src, out, c.env0['HOME']]
    before = prints(watch)
    a = r.choice([('backup', src), ('backup', src), ('prune',), ('forget', 'LAST'), ('restore', '-o', out, 'LAST'), ('rebuild-index',), ('init', 'filesystem')])
    if k == 'bad skip':
        a = ('backup', src)
    if local and k in ('cache text',):
        k, USER_ = 'not toml', tree.write(bad, USER['not toml'])
        before = prints(watch)
    target = c.path('new') if a[0] == 'init' else w.repo
    q = c.run(target, *a, cwd=w.cwd, config=good if local else bad)
    c.clean_fail(q)
    c.see('user', k, local, a[0], q.rc)
    if q.rc == 0:
        raise Violation('%s with a malformed configuration (%s, %s): %s' % (a[0], k, 'in the working directory' if local else 'global', q.brief()))
    compare(before, prints(watch), '%s with a malformed configuration' % a[0])
    c.eval()


def run(ctx):
    fs = dict(places=places, packs=packs, both=both, others=others, users=users)
    items = [('places', s) for s in STATES] + [('others', k) for k in BAD] + [('packs', k) for k in range(4)] + [('both', k) for k in range(4)] + [('users', k) for k in range(8)]
    items += [(('places', 'others', 'both', 'packs', 'users', 'places', 'others')[k % 7], k) for k in range(5000)]
    ctx.cases(lambda c, i: fs[i[0]](c, i), items, must=80)

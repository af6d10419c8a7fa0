"""C20: restore touches only what it must, only inside its target."""
import os

import crash
import fmt
import tree
from c10 import prints
from core import Violation
from world import World, random_world, sources

LEVEL = 'exploration'
BUDGET = (30, 600)
RULE = ('Snapshots are restored, with every mix of flags, over targets that hold edited copies, other snapshots, kinds swapped, links (also where the snapshot has directories and files) to files and '
        'directories outside, hard links and extra entries. Every mutating call is watched and refused outside the target; the outside is fingerprinted; the end state is compared with one computed from the state before, the snapshot '
        'and the flags; the log must show no writing to files that matched; a second restore must change nothing and a dry run nothing at all. Distinct: (flags, situation of an entry before and after).')
ASSUMES = ['of special files, only pipes are in the way of what is restored', 'files of equal size and modification time are equal, as backpak takes them to be']


def expect(pre, snap, delete):
    """({path: entry} afterwards, blocked directories, {path: 'kept'|'same'|'new'|'changed'})."""
    out, how, blocked, replaced = {}, {}, [], []
    def under(p, l):
        q = p.split('/')
        return any('/'.join(q[:k]) in l for k in range(1, len(q)))
    lb, lr = set(), set()
    for p in sorted(snap, key=lambda p: p.split('/')):
        e = snap[p]
        if under(p, lb):
            continue
        pe = None if under(p, lr) else pre.get(p)
        if pe is None:
            out[p], how[p] = e, 'new'
        elif pe[0] == e[0]:
            out[p] = e
            how[p] = 'same' if pe[1] == e[1] else 'changed'
        elif pe[0] == 'd' and not delete:
            lb.add(p)
            out[p], how[p] = pe, 'blocked'
        else:
            lr.add(p)
            out[p], how[p] = e, 'swapped'
    for p in pre:
        if p in out:
            continue
        if under(p, lb):
            out[p], how[p] = pre[p], 'blocked'
        elif not delete and not under(p, lr):
            out[p], how[p] = pre[p], 'kept'
    return out, how


class Target:
    def __init__(self, c, w, R, i, src, inplace):
        self.c, self.w, self.i, r = c, w, i, c.rng
        s = R.snaps[i]
        self.snap = w.model[i]
        self.paths = list(s.paths)
        self.single = len(self.paths) == 1
        self.inplace = inplace
        self.out = c.fresh('target')
        self.outside = c.fresh('outside')
        tree.Gen(r, self.outside, size='tiny', odd=False)
        os.chmod(self.outside, 0o755)

    def where(self, p):
        """Where an entry of the snapshot is in the target."""
        top, _, rest = p.partition('/')
        if self.inplace:
            base = next(q for q in self.paths if os.path.basename(q) == top)
        else:
            base = self.out if self.single else os.path.join(self.out, top)
        return os.path.join(base, rest) if rest else base

    def tops(self):
        return {os.path.basename(q): self.where(os.path.basename(q)) for q in self.paths}

    def look(self):
        got = {}
        for n, p in self.tops().items():
            if os.path.lexists(p):
                tree.capture(p, into=got, prefix=n)
        return got

    def trap(self):
        """Links out of the target, and hard links, and other kinds in the way."""
        c, r = self.c, self.c.rng
        for p in r.sample(sorted(self.snap), min(len(self.snap), r.choice([1, 3, 6]))):
            q = self.where(p)
            if '/' not in p and (self.single or r.random() < 0.6) and not self.inplace:
                continue
            if not os.path.isdir(os.path.dirname(q)) or os.path.realpath(os.path.dirname(q)) != os.path.dirname(q):
                continue
            e = self.snap[p]
            o = os.path.join(self.outside, 'v%d' % r.randrange(10 ** 6))
            k = r.choice(['link file', 'link dir', 'link twin', 'dangling', 'hard', 'dir', 'file', 'relative', 'chain'])
            if os.path.lexists(q):
                tree.wipe(q) if os.path.isdir(q) and not os.path.islink(q) else os.unlink(q)
            if k == 'link file':
                tree.write(o, b'precious')
                os.symlink(o, q)
            elif k == 'link dir' or (k == 'link twin' and e[0] != 'd'):
                os.mkdir(o)
                tree.write(os.path.join(o, 'precious'), b'precious')
                os.symlink(o, q)
            elif k == 'link twin':
                # A directory that has everything the snapshot's has, with other contents.
                os.mkdir(o)
                for x in sorted(self.snap):
                    if x.startswith(p + '/'):
                        y = os.path.join(o, x[len(p) + 1:])
                        if self.snap[x][0] == 'd':
                            os.mkdir(y)
                        else:
                            tree.write(y, b'precious')
                os.symlink(o, q)
            elif k == 'dangling':
                os.symlink(os.path.join(self.outside, 'not yet', p.rsplit('/', 1)[-1]) if r.random() < 0.4 else o, q)
            elif k == 'hard':
                tree.write(o, r.choice([b'precious', b'']))
                os.link(o, q)
            elif k == 'dir':
                os.mkdir(q)
                if r.random() < 0.7:
                    tree.write(os.path.join(q, 'inside'), b'x')
                    os.symlink(self.outside, os.path.join(q, 'out'))
            elif k == 'file':
                tree.write(q, b'in the way')
            elif k == 'relative':
                tree.write(o, b'precious')
                os.symlink(os.path.relpath(o, os.path.dirname(q)), q)
            elif k == 'chain':
                tree.write(o, b'precious')
                os.symlink(o, o + '-l')
                os.symlink(o + '-l', q)
            c.see('trap', k, e[0])


def writable(d):
    for x, ds, fs in os.walk(d):
        os.chmod(x, 0o755)
        for f in fs:
            if not os.path.islink(os.path.join(x, f)):
                os.chmod(os.path.join(x, f), 0o644)


def once(c, w, R, i, src):
    r = c.rng
    s = R.snaps[i]
    # In place, the sources have to be there to be spoilt.
    inplace = r.random() < 0.3
    t = Target(c, w, R, i, src, inplace)
    if t.single and t.snap[os.path.basename(t.paths[0])][0] != 'd':
        return
    state = r.choice(['empty', 'itself', 'other', 'edited', 'edited', 'source'])
    if not inplace:
        if state in ('itself', 'other', 'edited'):
            j = r.choice([x for x in w.model if R.snaps[x].paths == s.paths]) if state == 'other' else i
            w.ok('restore', '-t', '-p', '-o', t.out, fmt.name_of(j))
            writable(t.out)
        for n, p in t.tops().items():
            if state == 'edited' and os.path.isdir(p):
                tree.mutate(r, p, r.choice([1, 4, 8]))
    else:
        for n, p in t.tops().items():
            if os.path.isdir(p):
                writable(p)
                tree.mutate(r, p, r.choice([0, 3, 6]))
    for n, p in t.tops().items():
        if os.path.isdir(p) and not os.path.islink(p):
            writable(p)
    if r.random() < 0.8:
        t.trap()
    for n, p in t.tops().items():
        if os.path.isdir(p) and not os.path.islink(p):
            writable(p)
    if not inplace and not t.single and r.random() < 0.5:
        tree.write(os.path.join(t.out, 'bystander'), b'x')
    vialink = False
    flags = r.sample(['-d', '-t', '-p'], r.randrange(4))
    if r.random() < 0.3:
        flags = ['-d', '-t', '-p']
    delete = '-d' in flags
    pre = t.look()
    twins = {q for q in pre if pre[q][0] == 'f' and os.lstat(t.where(q)).st_nlink > 1}
    want, how = expect(pre, t.snap, delete)
    args = ['restore'] + flags
    kw = {}
    o = t.out
    if not inplace:
        k = r.choice(['abs', 'abs', 'rel', 'dot', 'slash', 'link', 'config', 'updown'])
        if k == 'rel':
            kw['cwd'] = os.path.dirname(o)
            o = os.path.basename(o)
        elif k == 'dot':
            kw['cwd'] = o
            o = r.choice(['.', './'])
        elif k == 'slash':
            o += '/'
        elif k == 'updown':
            o = os.path.join(o, '..', os.path.basename(o))
        elif k == 'link':
            os.symlink(o, t.outside + '-link')
            o = t.outside + '-link'
            vialink = t.single
        if k == 'config':
            conf = c.path('conf%d' % r.randrange(10 ** 9))
            tree.write(conf, ('[restore]\noutput = "%s"\n' % o).encode())
            kw['config'] = conf
        else:
            args += ['-o', o]
        c.see('target given as', k)
    else:
        c.see('in place', state)
    args.append(fmt.name_of(i))
    roots = [t.out, t.outside, w.repo] + sorted(src)
    if inplace:
        roots = [t.out, t.outside, w.repo] + list(t.tops().values()) + [p for p in src if p not in t.paths]
    # Dry.
    a = prints(roots)
    w.ok('restore', '-n', *args[1:], **kw)
    b = prints(roots)
    if a != b:
        raise Violation('a dry run of %s changed %s' % (args, tree.changed(a, b)))
    out0 = prints([t.outside] + [p for p in src if not inplace])
    if r.random() < 0.5:
        c.count('directories whose times and modes were as in the snapshot', alike(r, R, s, t, pre))
    hard = {q for q in out0 if os.path.isfile(q) and os.lstat(q).st_nlink > 1}
    shared = {p for p, x in t.tops().items()}
    ino0 = {p: os.lstat(t.where(p)) for p in pre if '/' in p}
    log = c.fresh('log') + '/log'
    allow = [t.out, t.outside + '-link'] if not inplace else list(t.tops().values())
    p = w.run(*args, shim=dict(BPV_LOG=log, BPV_SCOPE='/', BPV_ALLOW=':'.join(allow + [c.env0['HOME']])), **kw)
    ops = crash.read_log(log)
    esc = [o for o in ops if o.kind == 'ESCAPE']
    if esc:
        raise Violation('%s reached outside its target: %s' % (args, esc[:4]))
    if p.rc:
        raise Violation('command failed that had to succeed: %s' % p.brief())
    # The outside. Hard links to what is there may come and go.
    b = prints([t.outside] + [p for p in src if not inplace])
    for q in set(out0) | set(b):
        x, y = out0.get(q), b.get(q)
        if x != y and not (q in hard and y and (x[1], x[2], x[4]) == (y[1], y[2], y[4])):
            raise Violation('%s changed %s, which is outside its target, from %s to %s' % (args, q, x, y))
    # The inside.
    got = t.look()
    own = {q: e for q, e in want.items() if how[q] in ('new', 'same', 'changed', 'swapped')}
    links = {os.path.realpath(t.where(q)): q for q in pre}
    multi = {q for q in got if got[q][0] == 'f' and os.lstat(t.where(q)).st_nlink > 1}
    if vialink:
        # The time of the target itself goes to the link given.
        multi.add(os.path.basename(t.paths[0]))
    d = tree.differences({q: e for q, e in own.items() if q not in multi}, {q: e for q, e in got.items() if q in own and q not in multi}, mode='-p' in flags, mtime='-t' in flags)
    if d:
        raise Violation('%s did not restore: %s' % (args, d), log=p.stdout[-1500:])
    keep = {q: e for q, e in want.items() if how[q] in ('kept', 'blocked')}
    d = tree.differences({q: e for q, e in keep.items() if e[0] != 'd' and q not in twins}, {q: e for q, e in got.items() if q in keep and keep[q][0] != 'd' and q not in twins})
    d += tree.differences({q: keep[q] for q in twins if q in keep}, {q: got[q] for q in twins if q in keep and q in got}, mode=False, mtime=False)
    if d or any(q not in got or got[q][0] != 'd' for q in keep if keep[q][0] == 'd'):
        raise Violation('%s changed what is not in the snapshot: %s' % (args, d))
    extra = set(got) - set(want)
    if extra:
        raise Violation('%s left or made %s' % (args, sorted(extra)[:4]))
    # Matching files stay as they are.
    real = {os.path.realpath(t.where(q)): q for q in own if how[q] == 'same' and own[q][0] == 'f'}
    for o2 in ops:
        if o2.kind in ('W', 'WF') and o2.fn in ('open_w', 'write', 'unlink', 'rename', 'ftruncate', 'link') and o2.p1 in real:
            raise Violation('%s rewrote %s, which matched' % (args, o2.p1))
    for q in own:
        if how[q] == 'same' and q in ino0 and own[q][0] != 'd' and os.lstat(t.where(q)).st_ino != ino0[q].st_ino:
            raise Violation('%s replaced %s, which matched' % (args, q))
        if how[q] == 'same' and q in ino0 and own[q][0] == 'f' and '-t' not in flags and os.lstat(t.where(q)).st_mtime_ns != ino0[q].st_mtime_ns:
            raise Violation('%s rewrote %s, which matched' % (args, q))
    for q in how:
        c.see('entry', ''.join(sorted(f[1] for f in flags)), how[q], (pre[q][0] if q in pre else '-') + want[q][0])
    c.count('entries compared', len(want))
    c.count('entries left alone', len(keep))
    # Again.
    a = stable(prints([t.out] if not inplace else list(t.tops().values())))
    p2 = w.run(*args, shim=dict(BPV_LOG=log + '2', BPV_SCOPE='/', BPV_ALLOW=':'.join(allow + [c.env0['HOME']])), **kw)
    if p2.rc:
        raise Violation('command failed that had to succeed: %s' % p2.brief())
    b = stable(prints([t.out] if not inplace else list(t.tops().values())))
    if not multi - ({os.path.basename(t.paths[0])} if vialink else set()) and a != b:
        raise Violation('restoring again with %s changed %s' % (args, tree.changed(a, b)))
    for o2 in crash.read_log(log + '2'):
        if o2.kind in ('W', 'WF') and o2.fn in ('open_w', 'write', 'unlink', 'rename', 'mkdir', 'symlink', 'rmdir') and not o2.p1.startswith(c.env0['HOME']) and o2.ret >= 0 and o2.p1.startswith(tuple(allow)):
            raise Violation('restoring again with %s made the change %s' % (args, o2))
    c.eval()


def alike(r, R, s, t, pre):
    """Some directories are as in the snapshot, but for what is in them."""
    n = 0

    def walk(i, pre_):
        nonlocal n
        for name, (k, x, m) in R.tree(i).items():
            q = pre_ + name
            if k != 'd' or q not in pre or pre[q][0] != 'd':
                continue
            walk(x, q + '/')
            p = t.where(q)
            if not os.path.islink(p) and m['mode'] & 0o700 == 0o700 and r.random() < 0.7:
                os.chmod(p, m['mode'] & 0o7777)
                os.utime(p, ns=(m['atime'], m['mtime']))
                n += 1
    walk(s.tree, '')
    return n


def stable(p):
    """A fingerprint without change times and times of links."""
    return {k: v and (v[:5] + ((v[5],) if not v[0].startswith('0o12') else ())) for k, v in p.items()}


def special(c):
    """Pipes and sockets where the snapshot has files: they are replaced or the restore fails, but it never takes
    writing to them for restoring."""
    r = c.rng
    w = World(c)
    src = c.fresh('src')
    os.chmod(src, 0o755)
    for k in range(4):
        tree.write(os.path.join(src, 'f%d' % k), r.randbytes(r.randrange(1, 3000)))
    os.mkdir(os.path.join(src, 'sub'))
    tree.write(os.path.join(src, 'sub', 'g'), r.randbytes(r.randrange(1, 3000)))
    i = w.backup([src])
    out = c.fresh('target')
    w.ok('restore', '-t', '-p', '-o', out, fmt.name_of(i))
    top = os.path.join(out, os.path.basename(src))
    if not os.path.isdir(top):
        top = out
    name = r.choice(['f0', 'f1', 'f3', 'sub/g', 'sub', 'extra', 'sub/extra'])
    p = os.path.join(top, name)
    tree.wipe(p) if os.path.isdir(p) else os.path.exists(p) and os.unlink(p)
    os.mkfifo(p, 0o666)
    os.chmod(p, 0o666)
    flags = r.sample(['-d', '-t', '-p'], r.randrange(4))
    pipe = os.open(p, os.O_RDONLY | os.O_NONBLOCK)
    res = w.run('restore', *flags, '-o', out, fmt.name_of(i))
    try:
        got = os.read(pipe, 1 << 16)
    except BlockingIOError:
        got = b''
    os.close(pipe)
    c.see('a pipe in the way of', name, tuple(sorted(flags)), res.rc)
    if got:
        raise Violation('restore %s wrote %d bytes into the pipe that was where the file %s goes' % (flags, len(got), name))
    if res.rc == 0:
        for k in ('f0', 'f1', 'f2', 'f3', 'sub/g'):
            q = os.path.join(top, k)
            if not os.path.isfile(q) or open(q, 'rb').read() != open(os.path.join(src, k), 'rb').read():
                raise Violation('restore %s ended well but %s, where a pipe was, is not as in the snapshot' % (flags, k))
    else:
        c.clean_fail(res)
        if name.endswith('extra'):
            raise Violation('restore %s failed for a pipe that is in the way of nothing' % flags)
    c.eval()


def case(c, item):
    if item % 12 == 7:
        return special(c)
    r = c.rng
    w = random_world(c)
    src = sources(c)
    sets = [src] + ([src[:1]] if len(src) > 1 else [])
    for _ in range(r.choice([1, 2, 3])):
        w.backup(r.choice(sets), '--allow-repeat', '--allow-empty')
        for p in src:
            if os.path.isdir(p):
                tree.mutate(r, p, r.choice([1, 4]))
    R = w.open()
    for _ in range(r.choice([2, 3, 4])):
        once(c, w, R, r.choice(sorted(w.model)), src)
    c.sample(paths=src, steps=c.steps[-4:])


def run(ctx):
    ctx.cases(case, range(5000), must=40)

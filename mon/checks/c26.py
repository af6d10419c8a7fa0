"""C26: files that change while they are backed up."""
import os
import random
import signal
import threading
import time

import crash
import fmt
import tree
from core import Violation, known_finding
from ops import History
from world import World, random_world, sources

LEVEL = 'exploration'
BUDGET = (70, 700)
RULE = ('A preloaded library stops a backup before a chosen one of its calls on the source files (each stat, open, read, map, directory read of both walks); the sources are then written in place, cut, extended, replaced, removed, '
        'renamed or turned into something else (mostly the file or directory it stopped at), and the backup goes on. Or it runs freely while threads edit all the time. Judged: it finishes or fails with a message, without a panic, a signal or a hang; '
        'the repository decodes and every hash matches; the snapshot is restorable and holds exactly what it says; what did not change is in it exactly; what changed is there as before or after, each byte of it from one of the two at its place, '
        'or not at all; earlier snapshots are untouched; a failed run publishes none; and a backup afterwards, with the same parent, records what is there then. Distinct: (call, size class, edit, parent, exit).')
ASSUMES = ['files replaced by FIFOs or devices between two calls are not tried', 'edits that keep size and modification time are not edits']

SIG = 'sigbus-truncated-while-mapped'
MI = 1 << 20


class View:
    """Everything below some paths: metadata and bytes, keyed as a snapshot keys them."""

    def __init__(self, paths, keep=False):
        # What can't be read is made readable for a moment.
        shut = []
        for p in paths:
            todo = [(p, os.path.basename(p))]
            while todo:
                y, k = todo.pop()
                m = os.lstat(y).st_mode
                if os.path.islink(y):
                    continue
                need = 0o500 if os.path.isdir(y) else 0o400
                if m & need != need:
                    os.chmod(y, 0o700)
                    shut.append((y, k, m))
                if os.path.isdir(y):
                    todo += [(os.path.join(y, z), k + '/' + z) for z in os.listdir(y)]
        self.e = tree.source(paths)
        self.data, self.ino, self.by_ino, self.kept = {}, {}, {}, {}
        for p in paths:
            b = os.path.dirname(p)
            for k, e in self.e.items():
                if e[0] == 'f' and (k + '/').startswith(os.path.basename(p) + '/'):
                    with open(os.path.join(b, k), 'rb') as f:
                        self.data[k] = f.read()
                        self.ino[k] = os.fstat(f.fileno()).st_ino
                        self.by_ino[self.ino[k]] = self.data[k]
                        if keep and self.ino[k] not in self.kept:
                            self.kept[self.ino[k]] = os.fdopen(os.dup(f.fileno()), 'rb')
        for y, k, m in reversed(shut):
            os.chmod(y, m & 0o7777)
            if k in self.e:
                e = self.e[k]
                self.e[k] = e[:2] + (m,) + e[3:]


    def and_gone(self, before):
        """What files without a name (but perhaps still being read) hold by now."""
        for i, f in before.kept.items():
            if i not in self.by_ino:
                f.seek(0)
                self.by_ino[i] = f.read()
        before.kept.clear()


def content(R, chunks):
    return b''.join(R.blob(x) for x in chunks)


def mixed(got, vs):
    """Whether each byte of it is what one of these holds there; nothing is longer than the longest."""
    if len(got) > max(map(len, vs)):
        return 'has %d bytes though never more than %d' % (len(got), max(map(len, vs)))
    S = 4096
    for at in range(0, len(got), S):
        g = got[at:at + S]
        if any(v[at:at + len(g)] == g for v in vs):
            continue
        for k, x in enumerate(g):
            if not any(at + k < len(v) and v[at + k] == x for v in vs):
                return 'holds %d at %d, which it never did' % (x, at + k)
    return None


def judge_snapshot(c, R, s, before, after, what):
    """before, after: Views. What the snapshot holds has been there."""
    nodes = {}

    def walk(t, pre):
        for name, (k, x, m) in R.tree(t).items():
            nodes[pre + name] = (k, x, m)
            if k == 'd':
                walk(x, pre + name + '/')
    walk(s.tree, '')
    odd = set()     # became or were links: what is below may come from anywhere
    for p in set(before.e) | set(after.e):
        b, a = before.e.get(p), after.e.get(p)
        if b and a and b[0] != a[0]:
            odd.add(p)

    def is_odd(p):
        parts = p.split('/')
        return any('/'.join(parts[:k]) in odd for k in range(1, len(parts) + 1))
    same = diff = 0
    for p, (k, x, m) in nodes.items():
        b, a = before.e.get(p), after.e.get(p)
        if is_odd(p):
            c.count('entries that changed their kind')
            continue
        if b is None and a is None:
            raise Violation('%s: the snapshot has %r, which never was there' % (what, p))
        vs = [v for v in (b, a) if v]
        if k != vs[0][0]:
            raise Violation('%s: %r is %s, and was %s' % (what, p, k, vs[0][0]))
        if m['mode'] & 0o7777 not in [v[2] & 0o7777 for v in vs] and k != 'l':
            raise Violation('%s: %r has a mode it never had' % (what, p))
        if m['mtime'] not in [v[3] for v in vs] and k != 'l':
            raise Violation('%s: %r has a time it never had' % (what, p))
        if k == 'l' and x not in [v[1] for v in vs]:
            raise Violation('%s: %r points where it never did' % (what, p))
        if k == 'f':
            # It may have been open when it was written and moved.
            was = [V.data[p] for V in (before, after) if p in V.data]
            if p in before.ino and before.ino[p] in after.by_ino:
                was.append(after.by_ino[before.ino[p]])
            t = mixed(content(R, x), was)
            if t:
                raise Violation('%s: %r %s' % (what, p, t))
            if len(vs) == 2 and b != a:
                diff += 1
                g = content(R, x)
                c.see('changed file stored', 'before' if g == before.data.get(p) else 'after' if g == after.data.get(p) else 'both')
            else:
                same += 1
    for p, b in before.e.items():
        if b == after.e.get(p) and p not in nodes and not any(is_odd(q) for q in (p,)):
            q = p
            while '/' in q:
                q = q.rsplit('/', 1)[0]
                if before.e[q][0] != (after.e.get(q) or ' ')[0]:
                    break
            else:
                raise Violation('%s: %r did not change and is missing' % (what, p))
    c.count('unchanged files compared', same)
    c.count('changed files compared', diff)


def focus(r, p, n):
    """Edits the very thing it stopped at; returns what was done, or None."""
    if not os.path.lexists(p):
        return None
    d = os.path.dirname(p)
    if os.path.islink(p):
        with tree.Writable(d):
            os.unlink(p)
            if r.random() < 0.5:
                os.symlink('else', p)
                return 'link changed'
        return 'link removed'
    if os.path.isdir(p):
        e = r.choice(['new', 'removed', 'renamed', 'file now', 'chmod 0'])
        with tree.Writable(d), tree.Writable(p):
            if e == 'new':
                for k in range(3):
                    tree.write(os.path.join(p, 'fresh%d-%d' % (n, k)), r.randbytes(100))
        if e == 'removed':
            tree._remove(p)
        elif e == 'renamed':
            with tree.Writable(d):
                m = os.stat(p).st_mode & 0o7777
                os.chmod(p, 0o755)
                q = os.path.join(d, 'moved%d' % n)
                os.rename(p, q)
                os.chmod(q, m)
        elif e == 'file now':
            tree._remove(p)
            with tree.Writable(d):
                tree.write(p, b'a file')
        elif e == 'chmod 0':
            os.chmod(p, 0)
        return 'directory ' + e
    size = os.path.getsize(p)
    e = r.choice(['overwritten', 'overwritten', 'patched', 'patched', 'appended', 'appended', 'cut', 'emptied', 'replaced', 'replaced', 'removed', 'renamed', 'directory now', 'link now', 'chmod 0', 'touched', 'grown', 'shrunk by one'])
    m = os.stat(p).st_mode & 0o7777
    if m & 0o200 == 0 and e in ('overwritten', 'patched', 'appended', 'grown', 'cut', 'shrunk by one', 'emptied'):
        os.chmod(p, m | 0o200)
    if e == 'overwritten':
        with open(p, 'r+b') as f:
            f.write(r.randbytes(size))
    elif e == 'patched':
        with open(p, 'r+b') as f:
            for _ in range(r.choice([1, 3, 20])):
                f.seek(r.randrange(size + 1))
                f.write(r.randbytes(r.choice([1, 100, 5000])))
    elif e == 'appended':
        with open(p, 'ab') as f:
            f.write(r.randbytes(r.choice([1, 50, 70000])))
    elif e == 'grown':
        with open(p, 'ab') as f:
            f.write(r.randbytes(11 * MI))
    elif e == 'cut':
        os.truncate(p, r.randrange(size + 1))
    elif e == 'shrunk by one':
        os.truncate(p, max(0, size - 1))
    elif e == 'emptied':
        os.truncate(p, 0)
    elif e == 'touched':
        pass
    elif e == 'chmod 0':
        os.chmod(p, 0)
    else:
        with tree.Writable(d):
            if e == 'replaced':
                new = os.path.join(d, 'new%d' % n)
                tree.write(new, r.randbytes(r.choice([0, size, size + 5, 10 * MI + 3])))
                os.rename(new, p)
            elif e == 'removed':
                os.unlink(p)
            elif e == 'renamed':
                os.rename(p, os.path.join(d, 'renamed%d' % n))
            else:
                os.unlink(p)
                if e == 'directory now':
                    os.mkdir(p)
                    tree.write(os.path.join(p, 'in'), b'in')
                else:
                    os.symlink('nowhere', p)
    if os.path.isfile(p) and not os.path.islink(p) and e not in ('removed', 'renamed', 'directory now', 'link now', 'chmod 0'):
        tree._later(p, r)
    return 'file ' + e


def make_sources(c):
    r = c.rng
    srcs = sources(c, n=r.choice([1, 1, 2]), size=r.choice(['tiny', 'small', 'small']))
    # Files on both sides of the size from which they are mapped.
    for k in range(r.choice([0, 1, 1, 2])):
        d = r.choice(srcs)
        with tree.Writable(d):
            tree.write(os.path.join(d, r.choice(['big-%d', 'AA-%d', 'zz-%d']) % k), r.randbytes(r.choice([10 * MI - 1, 10 * MI, 10 * MI + 1, 12 * MI, 3 * MI])))
    return srcs


def readable(srcs):
    """So that the harness and the next backup can read everything again."""
    for s in srcs:
        if os.path.isdir(s) and not os.path.islink(s):
            os.chmod(s, os.lstat(s).st_mode & 0o7777 | 0o500)
        for d, ds, fs in os.walk(s):
            for x in fs + ds:
                p = os.path.join(d, x)
                if not os.path.islink(p):
                    m = os.lstat(p).st_mode & 0o7777
                    os.chmod(p, m | (0o500 if os.path.isdir(p) else 0o400))


def shrunk(before, after):
    """Whether a file that was big enough to be mapped was cut."""
    return [p for p, e in before.e.items() if e[0] == 'f' and e[4] >= 10 * MI and (after.e.get(p) or ('f', 0, 0, 0, 0))[4] < e[4]]


def died(c, q, cut, what):
    """Whether this is the known finding."""
    if q.rc in (-signal.SIGBUS, 128 + signal.SIGBUS) and cut and known_finding('C26', SIG):
        c.known.append('a backup is killed by SIGBUS when a file of 10 MiB or more that it has mapped is cut short [%s]' % SIG)
        c.count('backups killed by SIGBUS')
        return True
    return False


def settle(c, w, q, old, before, after, cwd, srcs, what, cut):
    """What has to hold when the backup has ended."""
    killed = died(c, q, cut, what)
    if q.rc != 0 and not killed:
        c.clean_fail(q)
        if not q.err.strip():
            raise Violation('%s: fails without a word' % what)
    R = w.open(leftovers=killed)
    R.audit(unindexed=True, stale_indexes=True)
    new = set(R.snaps) - set(old)
    if set(old) - set(R.snaps):
        raise Violation('%s: earlier snapshots are gone' % what)
    for i in old:
        d = tree.differences(w.model[i], R.entries(R.snaps[i]))
        if d:
            raise Violation('%s: an earlier snapshot changed: %s' % (what, d))
    if q.rc == 0 and len(new) != 1 or q.rc != 0 and new:
        raise Violation('%s: exit %d and %d new snapshots: %s' % (what, q.rc, len(new), q.brief()))
    for i in new:
        s = R.snaps[i]
        if before is not None:
            judge_snapshot(c, R, s, before, after, what)
        want = R.entries(s, sizes=False)
        w.model[i] = want
        shut = any(e[2] & (0o500 if e[0] == 'd' else 0o400) != (0o500 if e[0] == 'd' else 0o400) for e in want.values() if e[0] != 'l')
        w.restored(i, R=R, flags=('-t',) if shut else ('-t', '-p'))
        c.count('snapshots of changing files restored')
        # Sizes it recorded may be those from before.
        w.ok('ls', fmt.name_of(i))
        w.ok('snapshots', '--stat', fmt.name_of(i))
    w.ok('check', '-r')
    # Another, when all is quiet, has to see everything.
    readable(srcs)
    old2 = w.snap_files()
    want = tree.source(srcs)
    q2 = w.ok('backup', '--allow-repeat', *srcs, cwd=cwd)
    i = w.note_new(old2, want, True, q2)
    R = w.open(leftovers=killed)
    R.audit(unindexed=True, stale_indexes=True)
    d = tree.differences(want, R.entries(R.snaps[i]))
    if d:
        raise Violation('%s: a backup afterwards does not hold what is there: %s' % (what, d))
    c.count('backups afterwards compared')
    for j in new:
        # Not to be compared again: sizes may differ from the bytes.
        w.ok('diff', fmt.name_of(j), fmt.name_of(i))
        w.ok('forget', fmt.name_of(j))
        del w.model[j]


def stopped(c, item):
    r = c.rng
    w = random_world(c, cached=False)
    srcs = make_sources(c)
    parent = r.random() < 0.6
    if parent:
        w.backup(srcs)
        if r.random() < 0.8:
            for s in srcs:
                tree.mutate(r, s, r.choice([1, 3]))
    for rnd in range(3 if c.quick else 6):
        if rnd and c.ctx.time_left() < 0:
            break
        old = set(w.model)
        before = View(srcs, keep=True)
        cwd = c.fresh('cwd')
        ctl = c.fresh('ctl')
        os.chmod(ctl, 0o777)
        func = r.choice(['stat', 'open', 'open', 'read', 'read', 'mmap', 'mmap', 'opendir', 'readdir', 'stat open read mmap opendir readdir'])
        bigs = [p for p, e in before.e.items() if e[0] == 'f' and e[4] >= 10 * MI]
        if func == 'mmap' and not bigs:
            func = 'open'
        n = len(before.e)
        nth = r.choice([1, 2, r.randrange(1, n + 2), r.randrange(1, 2 * n + 2), r.randrange(1, 3 * n + 2)]) if func != 'mmap' else r.randrange(1, len(bigs) + 1)
        shim = dict(BPV_SCOPE=':'.join(srcs), BPV_LOG_READS='1', BPV_LOG=c.path('log%d' % rnd), BPV_STOP_FUNC=func, BPV_STOP_NTH=str(nth), BPV_STOP_CTL=ctl, BPV_STOP_SUB=os.path.dirname(srcs[0]))
        if r.random() < 0.3:
            shim['BPV_DELAY'] = '%d:3000:0.2' % r.getrandbits(30)
        p = c.start(w.repo, 'backup', '--allow-repeat', '--allow-empty', *srcs, cwd=cwd, shim=shim)
        f = os.path.join(ctl, 'stopped')
        while p.poll() is None and not os.path.exists(f):
            time.sleep(0.002)
        did = []
        if os.path.exists(f):
            t0 = time.time()
            at = ''
            while not at.endswith('\n') and time.time() - t0 < 5:
                with open(f, 'rb') as g:
                    at = os.fsdecode(g.read())
            fn, path = at.rstrip('\n').split(' ', 1)
            x = None
            if r.random() < 0.75:
                x = focus(r, path, rnd)
                if x:
                    did.append(x)
            if not x or r.random() < 0.3:
                did += tree.mutate(r, r.choice(srcs), r.choice([1, 2, 6]))
            c.count('stops')
            size = before.e.get(next((os.path.basename(s) + path[len(s):] for s in srcs if (path + '/').startswith(s + '/')), ''), (None,) * 5)
            tag = (fn, size[0], None if size[0] != 'f' else 'mapped' if size[4] >= 10 * MI else 'read', did[0] if did else None, parent)
        else:
            tag = ('not stopped',)
            c.count('stops not reached')
        after = None
        if did:
            if all(os.path.lexists(s) for s in srcs):
                after = View(srcs)
                after.and_gone(before)
        else:
            after = before
        with open(os.path.join(ctl, 'go'), 'w'):
            pass
        q = p.wait()
        if q.hung:
            raise Violation('a backup whose files changed never ends: ' + q.brief())
        what = 'stopped at %s (call %d), then %s' % (tag[:3], nth, did)
        c.step(what)
        c.see('stop', tag, q.rc)
        c.count('backups of changing files that %s' % ('finish' if q.rc == 0 else 'fail'))
        c.eval()
        c.sample(at=tag, did=did, exit=q.rc)
        gone = after is None
        if gone:
            # One of the paths given is gone.
            for s in srcs:
                if not os.path.lexists(s):
                    with tree.Writable(os.path.dirname(s)):
                        os.mkdir(s)
                        tree.write(os.path.join(s, 'again'), b'again')
            after = None
            if q.rc == 0:
                R = w.open()
                R.audit(unindexed=True, stale_indexes=True)
        settle(c, w, q, old, None if gone else before, after, cwd if r.random() < 0.5 else c.fresh('cwd'), srcs, what, [1] if gone else shrunk(before, after))
        if any(os.path.islink(s) or not os.path.isdir(s) for s in srcs):
            break


def storm(c, item):
    """Threads edit all the time."""
    r = c.rng
    w = random_world(c, cached=False)
    srcs = make_sources(c)
    calm = {}
    for s in srcs:
        d = os.path.join(s, 'calm')
        with tree.Writable(s):
            os.mkdir(d)
        for k in range(6):
            tree.write(os.path.join(d, 'c%d' % k), r.randbytes(r.choice([0, 100, 9000, 700000])))
        tree.capture(d, into=calm, prefix=os.path.basename(s) + '/calm')
    if r.random() < 0.5:
        w.backup(srcs)
    for rnd in range(2 if c.quick else 5):
        if rnd and c.ctx.time_left() < 0:
            break
        old = set(w.model)
        stop = threading.Event()
        edits = [0]
        seeds = [r.getrandbits(60) for _ in range(r.choice([1, 2]))]
        bigs = []
        for s in srcs:
            for d, _, fs in os.walk(s):
                bigs += [os.path.join(d, f) for f in fs if not os.path.islink(os.path.join(d, f)) and os.path.getsize(os.path.join(d, f)) >= 10 * MI]
        cut = []

        def edit(seed):
            rr = random.Random(seed)
            while not stop.is_set():
                try:
                    if bigs and rr.random() < 0.4:
                        # In place; big ones are not cut, for that is known to kill it.
                        p = rr.choice(bigs)
                        with open(p, 'r+b') as f:
                            f.seek(rr.randrange(10 * MI))
                            f.write(rr.randbytes(rr.choice([1, 5000, 100000])))
                        edits[0] += 1
                    else:
                        ds = [os.path.join(s, 'wild') for s in srcs]
                        edits[0] += len(tree.mutate(rr, rr.choice(ds), 1))
                except OSError:
                    pass
                time.sleep(rr.choice([0, 0.001, 0.004]))
        for s in srcs:
            d = os.path.join(s, 'wild')
            if not os.path.isdir(d):
                with tree.Writable(s):
                    os.mkdir(d)
                tree.Gen(r, d, size='small')
        shim = dict(BPV_DELAY='%d:%d:0.3' % (r.getrandbits(30), r.choice([500, 3000])), BPV_SCOPE=':'.join(srcs + [w.repo]))
        ts = [threading.Thread(target=edit, args=(x,), daemon=True) for x in seeds]
        p = c.start(w.repo, 'backup', '--allow-repeat', *srcs, cwd=c.path('wd'), shim=shim)
        for t in ts:
            t.start()
        q = p.wait()
        stop.set()
        for t in ts:
            t.join()
        if q.hung:
            raise Violation('a backup whose files change all the time never ends: ' + q.brief())
        c.count('edits during backups', edits[0])
        c.count('backups during a storm that %s' % ('finish' if q.rc == 0 else 'fail'))
        c.see('storm', len(seeds), min(9, edits[0].bit_length()), q.rc)
        c.eval()
        what = 'edited all the time'
        new = {fmt.raw_of(x) for x in w.snap_files()} - old
        if q.rc == 0 and len(new) == 1:
            R = w.open()
            got = R.entries(R.snaps[next(iter(new))], sizes=False)
            d = tree.differences(calm, {p: e for p, e in got.items() if p in calm or '/calm/' in p})
            if d:
                raise Violation('%s: what did not change is stored wrong: %s' % (what, d))
        settle(c, w, q, old, None, None, c.path('wd'), srcs, what, False)


def mapped(c, item):
    """The known finding, on purpose: a mapped file is cut."""
    r = c.rng
    w = World(c)
    s = c.fresh('src')
    tree.write(os.path.join(s, 'small'), b'small')
    w.backup([s])
    tree.write(os.path.join(s, 'big'), r.randbytes(12 * MI))
    before = View([s])
    ctl = c.fresh('ctl')
    os.chmod(ctl, 0o777)
    shim = dict(BPV_SCOPE=s, BPV_LOG_READS='1', BPV_LOG=c.path('log'), BPV_STOP_FUNC='mmap', BPV_STOP_NTH='1', BPV_STOP_CTL=ctl, BPV_STOP_SUB=s + '/big')
    old = set(w.model)
    cwd = c.fresh('cwd')
    p = c.start(w.repo, 'backup', s, cwd=cwd, shim=shim)
    while p.poll() is None and not os.path.exists(os.path.join(ctl, 'stopped')):
        time.sleep(0.002)
    hit = os.path.exists(os.path.join(ctl, 'stopped'))
    os.truncate(os.path.join(s, 'big'), r.choice([0, 1, 5 * MI]))
    tree._later(os.path.join(s, 'big'), r)
    after = View([s])
    with open(os.path.join(ctl, 'go'), 'w'):
        pass
    q = p.wait()
    if q.hung:
        raise Violation('never ends when a file is cut: ' + q.brief())
    c.count('mapped files cut' if hit else 'files cut that are not mapped')
    c.see('cut', hit, q.rc)
    c.eval()
    settle(c, w, q, old, before, after, cwd, [s], 'a file cut as it was mapped', [1])


def one(c, item):
    dict(stopped=stopped, storm=storm, mapped=mapped)[item[0]](c, item)


def run(ctx):
    ctx.cases(one, [('mapped', 0)] + [('storm' if i % 6 == 4 else 'stopped', i) for i in range(100000)], must=14)

"""C23: a Backblaze repository over a faulty network."""
import os
import random
import re
import shutil

import fmt
import tree
from b2mock import B2, burst, TRANSIENT, TRANSIENT_BODY, TRANSIENT_UP, PERMANENT, WRONG
from core import Violation, Inconclusive
from ops import History, SKIPS, filtered
from world import World, FILTERS, sources

LEVEL = 'exploration'
BUDGET = (80, 700)
RULE = ('A stand-in for B2 on the loopback watches and disturbs its client: it checks hashes, tokens and requests, pages its listings, answers slowly, counts requests in progress, and on chosen requests answers with an error status, '
        'hangs up before or after acting, resets, or sends broken, short, wrong or swapped bodies, once, several times or for ever. What it stores after each command is decoded and compared with the model. Transient trouble on fewer than ten requests in a row must '
        'not be seen; trouble for ever must end in an error after a bounded number of tries; permanent errors must be reported; wrong bytes must never be restored or stored; whatever failed must leave every snapshot whole and work '
        'when the trouble is over. At every upload and deletion, indexes must name only packs that are stored and snapshots only what indexes list. Never more requests in progress than connections configured. Distinct: (command, request, trouble, times, connections).')
ASSUMES = ['waits of a second or more between attempts are cut to 20 ms by the preloaded library', 'a server that stores nothing and answers success, or that never answers, is not tried']


class B2World(World):
    def __init__(self, c, name='b2', pack_size=None, filt=None, conns=4, b2=None):
        self.b2 = b2 or B2(random.Random(c.rng.getrandbits(60)))
        self.conns = conns
        super().__init__(c, name, pack_size=None, filt=None, init=False)
        self.repo = c.path(name + '.toml')
        self.mirror = c.path(name + '-mirror')
        self.filt = filt
        self.args = ['init'] + (['-p', str(pack_size)] if pack_size else [])
        if b2 is None:
            self.ok(*self.args, 'backblaze', '-k', self.b2.key[0], '-a', self.b2.key[1], '-b', self.b2.bucket, '-c', str(conns))
            if filt:
                with open(self.repo) as f:
                    t = f.read()
                with open(self.repo, 'w') as f:
                    f.write("filter = '''%s'''\nunfilter = '''%s'''\n%s" % (filt[1], filt[2], t))

    def _kw(self, kw):
        super()._kw(kw)
        e = dict(kw.get('env') or {})
        e.setdefault('BACKPAK_VERIF_B2_URL', self.b2.url)
        kw['env'] = e
        s = dict(kw.get('shim') or {})
        s['BPV_FAST_SLEEP'] = '1'
        kw['shim'] = s

    def snap_files(self):
        return {n.split('/')[1].split('.')[0] for n in self.b2.latest() if n.startswith('snapshots/')}

    def sync(self):
        if os.path.isdir(self.mirror):
            tree.wipe(self.mirror)
        for d in ('packs', 'indexes', 'snapshots'):
            os.makedirs(os.path.join(self.mirror, d))
        with open(os.path.join(self.mirror, 'config.toml'), 'w') as f:
            if self.filt:
                f.write("filter = '''%s'''\nunfilter = '''%s'''\n" % self.filt[1:])
            f.write('pack_size = "1MB"\n[backend]\ntype = "Filesystem"\nforce_cache = false\n')
        for n, b in self.b2.latest().items():
            if '..' in n or n.startswith('/') or n.count('/') != 1:
                raise Violation('an object was stored as %r' % n)
            p = os.path.join(self.mirror, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(b)

    def open(self, **kw):
        self.sync()
        return fmt.open_repo(self.mirror, **kw)


class Order:
    """Judges each upload and deletion as it happens."""

    def __init__(self, w):
        self.w, self.b2 = w, w.b2
        self.bad = None
        self.n = 0
        w.b2.on_store = self

    def __call__(self, what, name):
        if self.bad:
            return
        self.n += 1
        try:
            have = self.b2.latest()
            plain = (lambda b: fmt.run_filter(self.w.filt[2], b)) if self.w.filt else (lambda b: b)
            idx = {}
            for n, b in have.items():
                if n.startswith('indexes/'):
                    k = (n, len(b), hash(b))
                    if k not in self.cache:
                        self.cache[k] = fmt.parse_index(plain(b))
                    idx[n[8:].split('.')[0]] = self.cache[k]
            gone = set()
            for _, sup, _ in idx.values():
                gone |= {fmt.name_of(i) for i in sup}
            listed = set()
            for n, (_, _, packs) in idx.items():
                if n in gone:
                    continue
                for p, m in packs.items():
                    if 'packs/%s.pack' % fmt.name_of(p) not in have:
                        self.bad = 'after %s of %s, index %s names a pack that is not stored' % (what, name, n)
                        return
                    listed.update(i for _, _, i in m)
            for n, b in have.items():
                if n.startswith('snapshots/'):
                    k = (n, len(b), hash(b))
                    if k not in self.cache:
                        self.cache[k] = fmt.parse_snapshot(plain(b)).tree
                    t = self.cache[k]
                    if t not in listed and t != fmt.EMPTY_TREE:
                        self.bad = 'after %s of %s, no index lists the tree of %s' % (what, name, n)
        except Exception as e:
            self.bad = 'after %s of %s: %r' % (what, name, e)

    cache = {}


def watch(c, w, what):
    """What must hold after any command, whatever happened."""
    b = w.b2
    if b.wrong:
        raise Violation('%s: the client sent %s' % (what, b.wrong[0]))
    if b.most > w.conns:
        raise Violation('%s: %d requests at once though %d connections are configured' % (what, b.most, w.conns))
    if w.order.bad:
        raise Violation('%s: %s' % (what, w.order.bad))
    c.count('requests seen', len(b.log))
    for k, n in b.counts.items():
        c.count('requests: ' + k, n)
    c.see('at once', w.conns, b.most)


def start(c, **kw):
    r = c.rng
    w = B2World(c, pack_size=kw.pop('pack_size', None) or r.choice(['5KB', '20KB', '150KB', None]), filt=kw.pop('filt', None) or (r.choice(FILTERS) if r.random() < 0.15 else None), conns=r.choice([1, 1, 2, 3, 4, 8]), **kw)
    Order.cache = {}
    w.order = Order(w)
    return w


def forget_cache(c):
    d = os.path.join(c.env0['HOME'], '.cache', 'backpak')
    if os.path.isdir(d):
        tree.wipe(d)


def history(c, item):
    """Everything in order; slow, paged."""
    r = c.rng
    w = start(c)
    h = History(c, w, srcs=sources(c, n=r.choice([1, 2]), size=r.choice(['tiny', 'small', 'small', 'medium'])))
    for _ in range(r.choice([4, 7, 10])):
        w.b2.fresh_run(page=r.choice([1, 2, 3, 10000]), delay=r.choice([0, 0, 0.01]), trickle=r.random() < 0.2)
        if r.random() < 0.3:
            forget_cache(c)
        if r.random() < 0.2 and w.b2.latest():
            # Someone uploaded the same object again.
            n = r.choice(sorted(w.b2.latest()))
            w.b2.put(n, w.b2.latest()[n])
        if r.random() < 0.15:
            # And hid something of their own.
            w.b2.put('packs/hidden-%d' % r.randrange(99), None)
        op = h.step()
        watch(c, w, op)
        c.see('op', op, w.conns, w.b2.page)
        c.eval()
    w.b2.fresh_run(page=2)
    for v in list(w.b2.store):
        if v.startswith('packs/hidden-'):
            del w.b2.store[v]
    R = w.verify(unindexed=True, stale_indexes=True)
    forget_cache(c)
    for i in r.sample(sorted(w.model), min(3, len(w.model))):
        w.b2.fresh_run(page=2, delay=r.choice([0, 0.01]))
        w.restored(i, R=R)
        watch(c, w, 'restore')
        forget_cache(c)
    w.b2.fresh_run(delay=0.02)
    w.ok('check', '-r')
    watch(c, w, 'check -r')
    for a in (['snapshots', '--stat'], ['usage'], ['ls', fmt.name_of(sorted(w.model)[0])] if w.model else ['usage']):
        w.ok(*a)
    if h.dst is not None:
        h.dst.verify(unindexed=True, stale_indexes=True)


class Job:
    """One command, with what it has to do."""

    def __init__(self, c, w, cmd):
        r = c.rng
        self.c, self.w, self.cmd = c, w, cmd
        self.src = self.out = self.want = None
        self.repo = None
        self.reads = cmd in ('restore', 'dump', 'check', 'check -r', 'ls', 'diff', 'snapshots', 'usage', 'cat', 'copy-out')
        ids = sorted(w.model)
        self.one = one = r.choice(ids)
        if cmd == 'backup':
            self.src = c.fresh('new')
            for n in ('one', 'two', 'three'):
                tree.write(os.path.join(self.src, n), r.randbytes(r.choice([0, 10, 5000, 200000])))
            tree.write(os.path.join(self.src, 'sure'), r.randbytes(40))
            self.args = ['backup', self.src]
        elif cmd == 'copy-in':
            o = World(c, name='from%d' % r.getrandbits(40))
            self.src = c.fresh('new')
            tree.write(os.path.join(self.src, 'one'), r.randbytes(r.choice([10, 5000, 200000])))
            o.backup([self.src])
            self.repo = o.repo
            self.args = ['copy', '-t', w.repo, '--all']
        elif cmd == 'copy-out':
            self.to = World(c, name='to%d' % r.getrandbits(40))
            self.args = ['copy', '-t', self.to.repo, '--all']
        elif cmd == 'filter-snapshot':
            self.pats = [r.choice(['a', 'n[0-4]', 'x'])]
            self.args = [cmd, '-k', '-s', self.pats[0], fmt.name_of(one)]
        elif cmd == 'restore':
            self.out = c.fresh('out')
            self.args = ['restore', '-t', '-p', '-o', self.out, fmt.name_of(one)]
        elif cmd == 'dump':
            fs = [p for p, e in w.model[one].items() if e[0] == 'f']
            self.args = ['dump', fmt.name_of(one), '--', r.choice(fs)] if fs else ['ls', fmt.name_of(one)]
        elif cmd == 'forget':
            self.args = ['forget', fmt.name_of(one)]
        elif cmd == 'ls':
            self.args = ['ls', fmt.name_of(one)]
        elif cmd == 'diff':
            self.args = ['diff', '-m', fmt.name_of(one), fmt.name_of(r.choice(ids))]
        elif cmd == 'snapshots':
            self.args = ['snapshots', '--stat', '-f']
        elif cmd == 'cat':
            self.args = ['cat', 'blob', fmt.name_of(r.choice(sorted(w.open(streams=False).blobs)))]
        else:
            self.args = cmd.split()
        self.good = None

    def run(self, cwd):
        kw = dict(cwd=cwd)
        self.w._kw(kw)
        if self.out:
            tree.wipe(self.out)
            os.mkdir(self.out)
        return self.c.run(self.repo or self.w.repo, *self.args, **kw)

    def judge(self, q, before):
        """After success: exactly what a local repository would have. Updates the model."""
        w, c = self.w, self.c
        if self.good is not None and q.out != self.good.out and not self.cmd.startswith('check'):
            raise Violation('%s shows other things over a faulty network: %s' % (self.cmd, q.brief()))
        if self.cmd == 'restore':
            R = w.open(streams=False)
            want, s = w.model[self.one], R.snaps[self.one]
            if len(s.paths) == 1 and want and want[sorted(want)[0].split('/')[0]][0] == 'd':
                got = {}
                tree.capture(self.out, into=got, prefix=os.path.basename(s.paths[0]))
                d = tree.differences(want, got)
                if d:
                    raise Violation('a restore over a faulty network succeeds and is wrong: %s' % d)
                c.count('restores compared')
        R = w.open()
        new = set(R.snaps) - before
        if self.cmd in ('backup', 'copy-in'):
            if len(new) != 1:
                raise Violation('%s succeeded and there are %d new snapshots: %s' % (self.cmd, len(new), q.brief()))
            w.model[new.pop()] = tree.source([self.src])
        elif self.cmd == 'filter-snapshot':
            want = filtered(w.model[self.one], self.pats)
            for i in new:
                w.model[i] = want
        elif self.cmd == 'forget':
            if self.one in R.snaps:
                raise Violation('a forget that succeeded left its snapshot')
            del w.model[self.one]
        elif new:
            raise Violation('%s made snapshots' % self.cmd)
        elif self.cmd == 'copy-out':
            self.to.open().audit()
            D = self.to.open()
            if len(D.snaps) != len(R.snaps):
                raise Violation('a copy brought %d of %d snapshots' % (len(D.snaps), len(R.snaps)))
        w.verify(R=R, unindexed=True, stale_indexes=True)


CMDS = ['backup', 'backup', 'prune', 'rebuild-index', 'filter-snapshot', 'copy-in', 'copy-out', 'restore', 'restore', 'dump', 'check', 'check -r', 'ls', 'diff', 'snapshots', 'usage', 'forget', 'cat']


def trouble(c, cmd):
    """A plan, and what it promises: 'unseen', 'error' or 'any'."""
    r = c.rng
    kinds = {'backup': ['put', 'put', 'list', 'get'], 'prune': ['put', 'delete', 'delete', 'versions', 'list', 'get'], 'rebuild-index': ['put', 'delete', 'versions', 'list', 'get'],
             'filter-snapshot': ['put', 'list', 'get'], 'copy-in': ['put', 'list', 'get'], 'forget': ['delete', 'versions', 'list']}.get(cmd, ['get', 'get', 'list'])
    kind = r.choice(kinds + (['login', 'buckets', 'uploadurl'] if r.random() < 0.2 else []))
    nth = r.choice([1, 1, 1, 2, 2, 3, 4, 6, 10])
    style = r.choice(['passing', 'passing', 'passing', 'lasting', 'permanent', 'wrong' if kind == 'get' else 'passing', 'wrong' if kind == 'get' else 'permanent', 'storm'])
    hows = {'put': TRANSIENT_UP, 'get': TRANSIENT_BODY, 'delete': TRANSIENT_BODY + ['lost']}.get(kind, TRANSIENT[:8] + ['drop'])
    if kind == 'list' or kind == 'versions':
        hows = TRANSIENT_BODY + ['badjson', 'cutjson', 'emptyjson']
    if style == 'passing':
        how = r.choice(hows)
        times = r.choice([1, 1, 2, 4, 8])
        return [burst((kind,), nth, times, how)], 'unseen', (kind, how, nth, times)
    if style == 'storm':
        p = r.choice([0.1, 0.3])
        rr = random.Random(r.getrandbits(60))
        row = {}

        def f(k, name, n):
            # Never more than nine for the same object or listing, which may be several requests that are tried again together.
            if k not in ('put', 'get', 'list', 'versions', 'delete'):
                return None
            key = name if k != 'delete' else f.deleting
            if k == 'versions':
                f.deleting = name
            if rr.random() < p and row.get(key, 0) < 9:
                row[key] = row.get(key, 0) + 1
                f.left[0] += 1
                return rr.choice({'put': TRANSIENT_UP, 'get': TRANSIENT_BODY, 'delete': TRANSIENT_BODY + ['lost']}.get(k, TRANSIENT_BODY + ['badjson']))
            return None
        f.deleting = ''
        f.left = [0]
        f.times = 0
        return [f], 'unseen', ('storm', p)
    if style == 'lasting':
        how = r.choice([x for x in hows if x != 'lost'] + ['s401'])
        return [burst((kind,), nth, 10 ** 9, how)], 'error', (kind, how, nth, 'lasting')
    if style == 'permanent':
        how = r.choice(PERMANENT)
        return [burst((kind,), nth, 1, how)], 'error', (kind, how, nth, 1)
    how = r.choice(WRONG)
    return [burst(('get',), nth, r.choice([1, 1, 3]), how)], 'any', ('get', how, nth)


def faults(c, item):
    r = c.rng
    w = start(c)
    h = History(c, w, srcs=sources(c, n=1, size=r.choice(['tiny', 'tiny', 'small'])), ops=['backup', 'backup', 'filter'])
    for _ in range(r.choice([2, 3])):
        h.step('backup')
    extra = c.fresh('big')
    tree.write(os.path.join(extra, 'x'), r.randbytes(r.choice([1000, 100000, 300000])))
    w.backup([extra])
    if r.random() < 0.6:
        i = r.choice(sorted(w.model))
        w.ok('forget', fmt.name_of(i))
        del w.model[i]
    for rnd in range(5 if c.quick else 10):
        if c.ctx.time_left() < 0 and rnd:
            break
        w.b2.fresh_run()
        if len(w.model) < 2:
            h.step('backup')
        cmd = r.choice(CMDS)
        job = Job(c, w, cmd)
        cwd = c.fresh('cwd')
        plan, promise, tag = trouble(c, cmd)
        if r.random() < 0.7:
            forget_cache(c)
        w.b2.fresh_run()
        if job.reads and cmd not in ('restore', 'copy-out'):
            job.good = job.run(cwd)
            if job.good.rc:
                raise Violation('a command failed that had to succeed: ' + job.good.brief())
            forget_cache(c)
        R0 = w.open(streams=False)
        before, files = set(R0.snaps), set(w.b2.latest())
        old = w.b2.latest()
        w.b2.fresh_run(plan, page=r.choice([2, 10000]), delay=r.choice([0, 0, 0.004]))
        q = job.run(cwd)
        hit = [l for l in w.b2.log if l[2][:2] != 'ok']
        f = plan[0]
        fired = f.left[0] if f.times == 0 else f.times - f.left[0]
        what = '%s with %s' % (cmd, tag)
        watch(c, w, what)
        c.see('trouble', cmd, tag, fired > 0, w.conns)
        c.eval()
        if fired:
            c.count('runs with trouble')
            c.count('requests disturbed', fired)
        if q.rc != 0:
            c.clean_fail(q)
            if not q.err.strip():
                raise Violation('%s fails without a word' % what)
        if not fired and q.rc != 0:
            raise Violation('%s failed without any trouble: %s' % (what, q.brief()))
        if fired and promise == 'unseen' and q.rc != 0:
            raise Violation('%s: trouble that passed (%d requests) made it fail: %s' % (what, fired, q.brief()))
        if fired and promise == 'error' and q.rc == 0:
            raise Violation('%s succeeded in spite of it: %s' % (what, q.brief()))
        if fired and tag[-1] == 'lasting':
            # Each thread may try its own; each of them a bounded number of times.
            tries = {}
            for k, name, o in w.b2.log:
                tries[k, name] = tries.get((k, name), 0) + 1
            k, n = max(((k, n) for k, n in tries.items() if k[1] and k[0] in ('get', 'put')), key=lambda x: x[1], default=(None, 0))
            if n > 60:
                raise Violation('%s: %d requests for %s' % (what, n, k))
            c.count('troubles that lasted')
        now = w.b2.latest()
        for n in old:
            if n in now and now[n] != old[n]:
                raise Violation('%s: %s changed' % (what, n))
        gone = set(old) - set(now)
        if gone and cmd not in ('prune', 'rebuild-index', 'forget'):
            raise Violation('%s removed %s' % (what, sorted(gone)[:3]))
        if q.rc == 0:
            job.judge(q, before)
            continue
        # What is there is whole, and nothing is lost.
        R = w.open()
        new = set(R.snaps) - before
        if before - set(R.snaps) and cmd != 'forget':
            raise Violation('%s failed and removed snapshots' % what)
        R.audit(unindexed=True, stale_indexes=True)
        for i in before & set(R.snaps):
            d = tree.differences(w.model[i], R.entries(R.snaps[i]))
            if d:
                raise Violation('%s: snapshot %s suffered: %s' % (what, fmt.name_of(i), d))
        if new:
            # Its answer may have been what was lost.
            if cmd not in ('backup', 'copy-in', 'filter-snapshot'):
                raise Violation('%s made snapshots' % what)
            for i in new:
                d = tree.differences(tree.source([job.src]), R.entries(R.snaps[i])) if job.src else None
                if d:
                    raise Violation('%s left a wrong snapshot: %s' % (what, d))
                w.model[i] = R.entries(R.snaps[i])
        if cmd == 'forget' and job.one not in R.snaps:
            del w.model[job.one]
            continue
        # The trouble is over. (Nobody checks what goes into the cache until it's used.)
        w.b2.fresh_run()
        if promise == 'any':
            forget_cache(c)
        if cmd in ('copy-in', 'filter-snapshot') and new:
            continue
        before = set(R.snaps)
        if cmd == 'copy-out':
            job.to.model = {}
        q2 = job.run(cwd if r.random() < 0.7 else c.fresh('cwd'))
        if q2.rc != 0:
            raise Violation('%s still fails when it is over: %s' % (what, q2.brief()))
        watch(c, w, what + ', again')
        c.count('commands tried again')
        if cmd == 'backup' and new:
            w.model.update({i: tree.source([job.src]) for i in w.snap_ids() - before} if hasattr(w, 'snap_ids') else {})
            R = w.open()
            for i in set(R.snaps) - before:
                w.model[i] = tree.source([job.src])
            w.verify(R=R, unindexed=True, stale_indexes=True)
        else:
            job.judge(q2, before)
    w.b2.fresh_run()
    forget_cache(c)
    w.ok('rebuild-index')
    w.ok('prune')
    w.verify()
    w.ok('check', '-r')
    if w.model:
        w.restored(r.choice(sorted(w.model)))


def accounts(c, item):
    """Wrong keys, missing buckets, missing rights, expired tokens, silly configurations."""
    r = c.rng
    w = start(c)
    src = c.fresh('src')
    tree.write(os.path.join(src, 'f'), r.randbytes(30000))
    i = w.backup([src])
    with open(w.repo) as f:
        good = f.read()
    cases = dict(key=('key_id = "kid"', 'key_id = "nobody"'), app=('application_key = "appkey"', 'application_key = "wrong"'), bucket=('bucket = "bucket"', 'bucket = "other"'),
                 none=('concurrent_connections = %d' % w.conns, 'concurrent_connections = 0'), minus=('concurrent_connections = %d' % w.conns, 'concurrent_connections = -3'),
                 type=('type = "Backblaze"', 'type = "Dropbox"'), lacking=('bucket = "bucket"', ''))
    old = w.b2.latest()
    for k, (a, b) in sorted(cases.items()):
        if a not in good:
            raise Inconclusive('no %s in the configuration' % a)
        with open(w.repo, 'w') as f:
            f.write(good.replace(a, b))
        for cmd in r.sample([['ls', 'LAST'], ['backup', src], ['check'], ['snapshots'], ['prune'], ['forget', 'LAST']], 2):
            w.b2.fresh_run()
            w.fails(*cmd, wait=dict(quiet_s=20))
            c.see('account', k, cmd[0])
            c.eval()
    with open(w.repo, 'w') as f:
        f.write(good)
    for cap in ('listFiles', 'readFiles', 'writeFiles', 'deleteFiles'):
        w.b2.fresh_run()
        w.b2.caps = [x for x in ('listFiles', 'readFiles', 'writeFiles', 'deleteFiles', 'listBuckets') if x != cap]
        w.fails('ls', 'LAST')
        c.see('account', 'without ' + cap)
        c.eval()
    w.b2.caps = ['listFiles', 'readFiles', 'writeFiles', 'deleteFiles']
    for bs in ([], ['bucket2', 'other'], ['abucket']):
        w.b2.buckets = bs
        w.fails('ls', 'LAST')
        c.eval()
    w.b2.buckets = ['bucket0', 'bucket', 'bucketx']
    w.ok('ls', 'LAST')
    # Tokens that expire midway.
    for cmd, kinds in (('backup', ('put',)), ('restore', ('get',)), ('prune', ('list', 'get', 'delete'))):
        for n in (1, 2, 3):
            def expire(kind, name, k, n=n, kinds=kinds):
                if kind in kinds and k == n:
                    w.b2.tokens.clear()
                    w.b2.up_tokens.clear()
                return None
            expire.left, expire.times = [0], 0
            forget_cache(c)
            before = w.snap_files()
            w.b2.fresh_run([expire])
            job = Job(c, w, cmd)
            q = job.run(c.fresh('cwd'))
            watch(c, w, 'expired tokens')
            c.see('expired', cmd, n, q.rc)
            c.eval()
            if q.rc != 0:
                c.clean_fail(q)
                c.count('runs whose tokens expired')
                w.verify(unindexed=True, stale_indexes=True)
            else:
                job.judge(q, {fmt.raw_of(x) for x in before})
    now = w.b2.latest()
    if any(now.get(n) != b for n, b in old.items() if n.startswith('packs/')):
        raise Violation('packs changed or vanished')
    w.b2.fresh_run()
    w.ok('check', '-r')
    # init itself.
    for a in (['-c', '0'], ['-c', 'x'], ['-c', '-1']):
        p = c.path('new%d.toml' % r.getrandbits(30))
        q = c.run(p, 'init', 'backblaze', '-k', 'kid', '-a', 'appkey', '-b', 'bucket', *a)
        if q.rc == 0:
            raise Violation('init accepts %s connections' % a[1])
        c.clean_fail(q)
    q = c.run(w.repo, 'init', 'backblaze', '-k', 'kid', '-a', 'appkey', '-b', 'bucket')
    if q.rc == 0 or open(w.repo).read() != good:
        raise Violation('init overwrites a configuration')
    c.eval()


def busy(c, item):
    """Many objects, a slow server: as many requests at once as allowed, not more."""
    r = c.rng
    w = start(c, pack_size='5KB')
    s = c.fresh('src')
    for k in range(60):
        tree.write(os.path.join(s, 'f%d' % k), r.randbytes(3000))
    w.b2.fresh_run()
    i = w.backup([s])
    most = 0
    for cmd in (['check', '-r'], ['rebuild-index'], ['restore'], ['check', '-r'], ['prune']):
        forget_cache(c)
        w.b2.fresh_run(delay=0.03, page=7)
        if cmd == ['restore']:
            w.restored(i)
        else:
            w.ok(*cmd)
        watch(c, w, cmd[0])
        most = max(most, w.b2.most)
        c.eval()
    c.see('busy', w.conns, most)
    c.count('most at once, of %d connections' % w.conns, 0)
    c.sample(connections=w.conns, most_at_once=most)
    w.verify(unindexed=True)


def one(c, item):
    try:
        dict(history=history, faults=faults, accounts=accounts, busy=busy)[item[0]](c, item)
    finally:
        pass


def run(ctx):
    kinds = ['faults', 'faults', 'history', 'faults', 'faults', 'busy', 'faults', 'history', 'faults']
    ctx.cases(one, [('accounts', 0), ('busy', 1), ('busy', 2)] + [(kinds[i % len(kinds)], i) for i in range(5000)], must=20)

"""C14: writers at the same time, and rebuild-index and prune beside them."""
import os
import shutil
import time

import crash
import fmt
import tree
from core import Violation, Inconclusive
from ops import History
from world import World, FILTERS, random_world

LEVEL = 'exploration'
BUDGET = (75, 700)
RULE = ('Two to four backups and copies from different working directories run into one repository under random delays at every file-system call, or one is stopped before a chosen call while others run from start to end; their sources '
        'overlap or are the same. All have to succeed; then every snapshot is decoded and restored and compared with its source, and every command has to work, prune included. Likewise a prune or rebuild-index is stopped before '
        'chosen calls (or delayed) while whole backups run, and the other way round: every index that appeared and that the log of its calls shows it did not open (prune) or whose packs it did not take over (rebuild-index) has to be there '
        'and in force with its packs, and every snapshot has to be whole. Distinct: (who was stopped, before which kind of call, who ran meanwhile) and orders of the first calls of racing processes.')
ASSUMES = ['a backup that counts on data no snapshot holds any more, or whose index a prune read but not its snapshot, may be harmed by a prune running meanwhile: such histories are recognised and left out',
           'a backup may fail cleanly when a prune or rebuild-index removes a file it is about to read']

FUNCS = 'open_r,opendir,open_w,rename,unlink,unlinkat,mkdir,write,ftruncate,fsync,stat,mmap'


def pool(c, w):
    """A source whose parts the writers share, and parts of their own."""
    r = c.rng
    common = c.path('common')
    tree.Gen(r, common, size=r.choice(['tiny', 'small', 'small']))
    return common


def source(c, common, how):
    r = c.rng
    d = c.fresh('w')
    p = os.path.join(d, r.choice(['data', 'Home', 'x']))
    if how == 'same':
        shutil.copytree(common, p, symlinks=True)
    elif how == 'overlap':
        shutil.copytree(common, p, symlinks=True)
        tree.mutate(r, p, n=r.choice([1, 3, 6]))
    else:
        tree.Gen(r, p, size=r.choice(['tiny', 'small']))
        with tree.Writable(p):
            tree.write(os.path.join(p, 'own'), r.randbytes(r.choice([1, 3000, 70000])))
    return p


class Writer:
    """One backup or copy, run from a working directory of its own."""

    def __init__(self, c, w, k, common, kinds=('same', 'overlap', 'overlap', 'own'), copies=True):
        r = c.rng
        self.c, self.w = c, w
        self.cwd = c.mkdir('cwd%d' % k)
        self.log = c.path('log%d-%d' % (k, r.randrange(10 ** 9)))
        self.want = {}
        if copies and r.random() < 0.25:
            self.kind = 'copy'
            o = World(c, name='other%d' % k, pack_size=r.choice([None, '20KB']))
            n = r.choice([1, 2])
            for j in range(n):
                s = source(c, common, r.choice(kinds))
                i = o.backup([s], '-a', 'copier%d' % k)
                self.want[o.open(streams=False).snaps[i].tree] = o.model[i]
            self.repo = o.repo
            self.args = ['copy', '-t', w.repo, '--all']
        else:
            self.kind = 'backup'
            s = [source(c, common, r.choice(kinds))]
            if r.random() < 0.2:
                s.append(source(c, common, 'own'))
                if os.path.basename(s[0]) == os.path.basename(s[1]):
                    s.pop()
            self.repo = w.repo
            self.args = ['backup', '-a', 'writer%d' % k, '-t', 'W'] + s
            self.want[None] = tree.source(s)

    def shim(self, **kw):
        d = dict(BPV_LOG=self.log, BPV_LOG_READS='1', BPV_SCOPE=self.w.repo + ':' + self.cwd)
        d.update(kw)
        return d

    def delay(self):
        r = self.c.rng
        return self.shim(BPV_DELAY='%d:%d:%d' % (r.getrandbits(31), r.choice([300, 2000, 8000]), r.choice([3, 15, 60])))

    def start(self, shim=None):
        return self.c.start(self.repo, *self.args, cwd=self.cwd, shim=self.shim() if shim is None else shim)


def claim(c, w, writers, before):
    """Matches new snapshots with what the writers were given."""
    R = w.open(streams=False, leftovers=True)
    new = {i: s for i, s in R.snaps.items() if i not in before}
    if set(before) - set(R.snaps):
        raise Violation('snapshots are gone: %s' % [fmt.name_of(i)[:8] for i in set(before) - set(R.snaps)])
    for i, s in new.items():
        for x in writers:
            if x.kind == 'backup' and s.author in x.args:
                w.model[i] = x.want[None]
                break
        else:
            w.model[i] = None
    for x in writers:
        if x.kind == 'backup' and not any(s.author in x.args for s in new.values()):
            raise Violation('a backup that succeeded left no snapshot: %s' % x.args)
    R = w.open(leftovers=True)
    for i in list(new):
        if w.model[i] is None:
            got = R.entries(R.snaps[i])
            for x in writers:
                for want in x.want.values():
                    if x.kind == 'copy' and not tree.differences(want, got):
                        w.model[i] = want
            if w.model[i] is None:
                raise Violation('a copied snapshot holds what none of its sources held: %s' % R.snaps[i].name)
    for x in writers:
        if x.kind == 'copy':
            for want in x.want.values():
                if not any(w.model[i] is want or w.model[i] == want for i in new):
                    raise Violation('a snapshot a copy had to make is not there')
    return R


def whole(c, w, stale=True):
    R = w.verify(unindexed=True, stale_indexes=stale, leftovers=True)
    w.ok('check')
    return R


def everything(c, w):
    """Every command keeps working."""
    r = c.rng
    R = whole(c, w)
    dup = sum(1 for i, n in R.copies.items() if n > len(R.types[i]))
    c.count('blobs stored more than once', dup)
    c.see('duplicates', min(dup, 5))
    ids = sorted(w.model)
    for i in r.sample(ids, min(len(ids), 3)):
        w.restored(i, R=R)
    w.ok('snapshots', '--stat', '-f')
    w.ok('usage')
    for i in ids[:2]:
        w.ok('ls', fmt.name_of(i))
        w.ok('diff', fmt.name_of(i), fmt.name_of(r.choice(ids)))
    some = sorted(R.blobs)
    for b in r.sample(some, min(3, len(some))):
        x = w.ok('cat', 'blob', fmt.name_of(b))
        if x.out != R.blob(b) and R.blobs[b][0] == 'chunk' and len(R.types[b]) == 1:
            raise Violation('cat of blob %s gives other bytes' % fmt.name_of(b))
    w.ok('check', '-r')
    for op in r.sample(['prune', 'rebuild-index', 'backup', 'forget', 'prune'], 4):
        if op == 'backup':
            s = c.fresh('after')
            tree.Gen(r, os.path.join(s, 'data'), size='tiny')
            w.backup([os.path.join(s, 'data')])
        elif op == 'forget':
            if len(w.model) > 1:
                i = r.choice(sorted(w.model))
                w.ok('forget', fmt.name_of(i))
                del w.model[i]
        else:
            w.ok(op)
        whole(c, w)
    w.ok('check', '-r')
    c.count('repositories used on afterwards')


def order_of(*logs):
    """The order in which processes first and last did things, roughly: what the schedule was."""
    return tuple(tuple(crash.situation(o) for o in l[-3:]) for l in logs)


def start_world(c, n=None):
    r = c.rng
    w = random_world(c, cached=r.random() < 0.15)
    common = pool(c, w)
    for _ in range(r.choice([0, 1, 2]) if n is None else n):
        w.backup([source(c, common, r.choice(['same', 'overlap', 'own']))])
    return w, common


def writers(c):
    """Several writers, all delayed at random."""
    r = c.rng
    w, common = start_world(c)
    for rnd in range(r.choice([1, 1, 2])):
        before = set(w.open(streams=False, leftovers=True).snaps)
        ws = [Writer(c, w, 10 * rnd + k, common) for k in range(r.choice([2, 2, 3, 4]))]
        if r.random() < 0.4:
            # The very same data from several places.
            x = ws[0]
            if x.kind == 'backup':
                for y in ws[1:]:
                    if y.kind == 'backup':
                        y.args = y.args[:5] + x.args[5:]
                        y.want = x.want
        ps = []
        for x in ws:
            ps.append(x.start(x.delay()))
            if r.random() < 0.3:
                time.sleep(r.random() * 0.05)
        rs = [p.wait() for p in ps]
        for x, q in zip(ws, rs):
            if q.hung:
                raise Violation('a writer never ends: ' + q.brief())
            if q.rc != 0:
                raise Violation('a writer failed because others ran: ' + q.brief())
        claim(c, w, ws, before)
        for x in ws:
            w.clean_cwd(x.cwd)
        logs = [crash.read_log(x.log) for x in ws]
        c.count('calls of racing writers', sum(map(len, logs)))
        c.count('writers that raced', len(ws))
        c.see('race', tuple(sorted(x.kind for x in ws)), hash(order_of(*logs)))
        c.eval()
        whole(c, w)
    everything(c, w)


def wait_stop(ctl, p):
    f = os.path.join(ctl, 'stopped')
    while p.poll() is None and not os.path.exists(f):
        time.sleep(0.002)
    return os.path.exists(f)


def go(ctl):
    with open(os.path.join(ctl, 'go'), 'w'):
        pass


def stop_at(c, w, n, func=FUNCS, sub=None):
    ctl = c.fresh('ctl')
    os.chmod(ctl, 0o777)
    return ctl, dict(BPV_STOP_FUNC=func, BPV_STOP_NTH=str(n), BPV_STOP_CTL=ctl, **({'BPV_STOP_SUB': sub} if sub else {}))


def stopped_writer(c):
    """One writer stopped before a call while others run to their end."""
    r = c.rng
    w, common = start_world(c)
    before = set(w.open(streams=False, leftovers=True).snaps)
    x = Writer(c, w, 0, common)
    ys = [Writer(c, w, 1 + k, common) for k in range(r.choice([1, 1, 2]))]
    if x.kind == 'backup' and ys[0].kind == 'backup' and r.random() < 0.6:
        ys[0].args = ys[0].args[:5] + x.args[5:]
        ys[0].want = x.want
    sub = r.choice([w.repo, w.repo + '/indexes', w.repo + '/packs', w.repo + '/snapshots', x.cwd, None])
    ctl, st = stop_at(c, w, r.choice([1, 1, 2, 3, 4, 6, 9, 14, 20, 30]), sub=sub)
    p = x.start(x.shim(**st))
    hit = wait_stop(ctl, p)
    where = None
    if hit:
        l = crash.read_log(x.log)
        where = crash.situation(l[-1]) if l else 'start'
        for y in ys:
            q = y.start().wait()
            if q.hung or q.rc != 0:
                go(ctl)
                p.wait()
                raise Violation('a writer failed because another was stopped at "%s": %s' % (where, q.brief()))
        go(ctl)
    q = p.wait()
    if q.hung or q.rc != 0:
        raise Violation('a writer stopped after "%s" while others ran failed: %s' % (where, q.brief()))
    claim(c, w, [x] + (ys if hit else []), before)
    for y in [x] + ys:
        w.clean_cwd(y.cwd)
    c.count('writers stopped' if hit else 'stops not reached')
    c.see('stopped', x.kind, where, tuple(y.kind for y in ys) if hit else None)
    c.eval()
    whole(c, w)
    everything(c, w)


def harmless(w, R0, garbage, new):
    """Whether the new snapshots count on nothing that no snapshot held."""
    R = w.open(leftovers=True)
    seen = set()

    def walk(t):
        if t in seen or t == fmt.EMPTY_TREE and t not in R.blobs:
            return
        seen.add(t)
        x = R if t in R.blobs else R0 if t in R0.blobs else None
        if x is None:
            return      # Judged later.
        for name, (k, sub, m) in x.tree(t).items():
            if k == 'd':
                walk(sub)
            elif k == 'f':
                seen.update(sub)
    for i in new:
        walk(R.snaps[i].tree)
    return not seen & garbage


def opened(log, repo, kind):
    end = '.' + {'indexes': 'index', 'snapshots': 'snapshot'}[kind]
    return {os.path.basename(o.p1).split('.')[0] for o in log if o.fn == 'open_r' and o.p1.endswith(end) and o.ret >= 0}


def meanwhile(c):
    """A prune or rebuild-index and whole backups, in every order."""
    r = c.rng
    w, common = start_world(c, n=r.choice([2, 3, 4]))
    cmd = r.choice(['prune', 'prune', 'rebuild-index'])
    # Something to prune: snapshots of files of their own.
    if cmd == 'prune':
        for _ in range(r.choice([1, 2])):
            s = source(c, common, 'own')
            both = [s]
            if r.random() < 0.6:
                q = source(c, common, 'overlap')
                if os.path.basename(q) != os.path.basename(s):
                    both.append(q)
            i = w.backup(both)
            if r.random() < 0.6:
                w.backup([source(c, common, 'overlap')])
            w.ok('forget', fmt.name_of(i))
            del w.model[i]
    R0 = w.open()
    live = R0.reach_all()
    garbage = set(R0.blobs) - set(live)
    before = set(R0.snaps)
    log = c.path('log-main')
    cwd = c.mkdir('cwd-main')
    base = dict(BPV_LOG=log, BPV_LOG_READS='1', BPV_SCOPE=w.repo + ':' + cwd + ':' + os.path.join(c.env0['HOME'], '.cache'))
    style = r.choice(['stop', 'stop', 'stop', 'race', 'inverse'])
    ys = [Writer(c, w, 1 + k, common, kinds=('overlap', 'own', 'own'), copies=False) for k in range(r.choice([1, 1, 2]))]
    for y in ys:
        # Something new for certain.
        with tree.Writable(y.args[5]):
            tree.write(os.path.join(y.args[5], 'surely new'), r.randbytes(r.choice([10, 4000, 60000])))
        y.want[None] = tree.source(y.args[5:])
    where = None
    failed = 0
    there = None
    if style == 'stop':
        sub = r.choice([w.repo, w.repo, w.repo + '/indexes', w.repo + '/packs', w.repo + '/snapshots', cwd])
        ctl, st = stop_at(c, w, r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 13, 17, 25]), sub=sub)
        p = c.start(w.repo, cmd, cwd=cwd, shim=dict(base, **st))
        hit = wait_stop(ctl, p)
        ran = []
        if hit:
            l = crash.read_log(log)
            where = crash.situation(l[-1]) if l else 'start'
            for y in ys:
                q = y.start().wait()
                if q.hung or q.rc != 0:
                    c.clean_fail(q)
                    if cmd == 'rebuild-index':
                        go(ctl)
                        p.wait()
                        raise Violation('a backup failed while a rebuild-index stood still at "%s": %s' % (where, q.brief()))
                    failed += 1
                else:
                    ran.append(y)
            there = w.open(streams=False, leftovers=True)
            go(ctl)
        m = p.wait()
    elif style == 'race':
        p = c.start(w.repo, cmd, cwd=cwd, shim=dict(base, BPV_DELAY='%d:%d:%d' % (r.getrandbits(31), r.choice([500, 3000]), r.choice([10, 50]))))
        ps = [y.start(y.delay()) for y in ys]
        ran = []
        for y, q in zip(ys, [q.wait() for q in ps]):
            if q.hung:
                raise Violation('a backup beside a %s never ends: %s' % (cmd, q.brief()))
            if q.rc == 0:
                ran.append(y)
            else:
                c.clean_fail(q)
                failed += 1
        there = None
        m = p.wait()
    else:
        # A backup stopped, the whole command run meanwhile.
        y = ys[0]
        ys = ys[:1]
        ctl, st = stop_at(c, w, r.choice([1, 2, 3, 4, 5, 7, 10, 14, 20]), sub=r.choice([w.repo, w.repo + '/indexes', w.repo + '/packs', w.repo + '/snapshots', y.cwd]))
        p = y.start(y.shim(**st))
        hit = wait_stop(ctl, p)
        if hit:
            l = crash.read_log(y.log)
            where = 'backup at ' + (crash.situation(l[-1]) if l else 'start')
            m = c.run(w.repo, cmd, cwd=cwd, shim=base)
            go(ctl)
        q = p.wait()
        if q.hung:
            raise Violation('a backup beside a %s never ends: %s' % (cmd, q.brief()))
        ran = [y] if q.rc == 0 else []
        if q.rc != 0:
            c.clean_fail(q)
            failed += 1
        if not hit:
            m = c.run(w.repo, cmd, cwd=cwd, shim=base)
        there = None
    if m.hung:
        raise Violation('a %s beside backups never ends: %s' % (cmd, m.brief()))
    if m.rc != 0:
        c.clean_fail(m)
        c.count('%s failed beside backups' % cmd)
        if style == 'stop' and cmd == 'rebuild-index':
            raise Violation('a rebuild-index failed because backups ran: ' + m.brief())
    L = crash.read_log(log)
    R = w.open(leftovers=True)
    new = {i: s for i, s in R.snaps.items() if i not in before}
    if before - set(R.snaps):
        raise Violation('a %s removed snapshots' % cmd)
    saw_i, saw_s = opened(L, w.repo, 'indexes'), opened(L, w.repo, 'snapshots')
    # What appeared after the command began.
    if there is not None:
        for i, (sup, packs) in there.indexes.items():
            if i in R0.indexes or i in there.superseded:
                continue
            if cmd == 'prune' and fmt.name_of(i) in saw_i:
                c.count('new indexes the command read')
                continue
            mine = [o for o in L if o.kind == 'W' and o.fn == 'rename' and fmt.name_of(i) in o.p2]
            if mine:
                continue
            lost = [p for p in packs if p not in R.packs]
            if lost:
                raise Violation('a %s, stopped after "%s", removed packs %s of an index that appeared meanwhile' % (cmd, where, [fmt.name_of(p)[:8] for p in lost]))
            if cmd == 'prune' and i not in R.inforce:
                raise Violation('a %s, stopped after "%s", removed or hid index %s, which it had not read' % (cmd, where, fmt.name_of(i)))
            out = [p for p in packs if p not in R.indexed]
            if out:
                raise Violation('a %s, stopped after "%s", left packs %s of an index that appeared meanwhile out of every index' % (cmd, where, [fmt.name_of(p)[:8] for p in out]))
            c.count('new indexes kept')
            if i in R.inforce:
                c.count('new indexes still in force')
    judged = True
    if cmd == 'prune':
        seen = [s.name for s in new.values() if s.name not in saw_s]
        if not harmless(w, R0, garbage, new):
            c.count('histories left out: new data counts on garbage')
            judged = False
        elif seen and saw_i - {fmt.name_of(i) for i in R0.indexes}:
            c.count('histories left out: index read, snapshot not')
            judged = False
    c.see('meanwhile', cmd, style, where, failed, m.rc)
    c.count('histories of a %s beside backups' % cmd)
    c.eval()
    if not judged:
        return
    claim(c, w, ran, before)
    # A failed backup may have got as far as its snapshot.
    for i in set(R.snaps) - set(w.model):
        raise Violation('a snapshot of a failed backup: %s' % fmt.name_of(i))
    whole(c, w)
    for y in ys:
        if y in ran:
            w.clean_cwd(y.cwd)
    # Whoever failed can try again.
    for y in ys:
        if y not in ran:
            b = set(w.open(streams=False, leftovers=True).snaps)
            q = y.start().wait()
            if q.rc != 0:
                raise Violation('a backup that failed beside a %s fails again: %s' % (cmd, q.brief()))
            claim(c, w, [y], b)
    if m.rc != 0:
        w.ok(cmd, cwd=cwd)
    everything(c, w)


def twice(c):
    """Two rebuild-indexes, or a rebuild-index and a backup of a repository that has lost its indexes."""
    r = c.rng
    w, common = start_world(c, n=r.choice([2, 3]))
    before = set(w.model)
    lost = r.random() < 0.3
    if lost:
        for f in os.listdir(os.path.join(w.repo, 'indexes')):
            os.unlink(os.path.join(w.repo, 'indexes', f))
    cw = [c.mkdir('cwd-a'), c.mkdir('cwd-b')]
    ps = [c.start(w.repo, 'rebuild-index', cwd=d, shim=dict(BPV_SCOPE=w.repo + ':' + d, BPV_DELAY='%d:%d:%d' % (r.getrandbits(31), r.choice([500, 3000]), 30))) for d in cw]
    ys = [] if lost else [Writer(c, w, 5, common, copies=False)]
    ps += [y.start(y.delay()) for y in ys]
    rs = [p.wait() for p in ps]
    for q in rs:
        if q.hung:
            raise Violation('never ends: ' + q.brief())
        if q.rc:
            c.clean_fail(q)
            c.count('commands that failed beside two rebuilds')
    if all(q.rc for q in rs[:2]):
        c.count('both rebuilds failed')
        w.ok('rebuild-index')
    claim(c, w, [y for y, q in zip(ys, rs[2:]) if q.rc == 0], before)
    c.see('twice', lost, tuple(q.rc for q in rs))
    c.eval()
    everything(c, w)


def one(c, item):
    {'writers': writers, 'stopped': stopped_writer, 'meanwhile': meanwhile, 'twice': twice}[item[0]](c)


def run(ctx):
    kinds = ['meanwhile', 'stopped', 'writers', 'meanwhile', 'meanwhile', 'writers', 'meanwhile', 'stopped', 'meanwhile', 'twice']
    ctx.cases(one, ((kinds[i % len(kinds)], i) for i in range(20000)), must=40)

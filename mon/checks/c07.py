"""C07: interrupted work is resumed without redoing or corrupting it."""
import os

import crash
import fmt
import tree
from core import Violation
from ops import filtered, SKIPS
from world import World, FILTERS, freeze_atimes

LEVEL = 'fault_enumeration'
BUDGET = (35, 900)
RULE = ('Resuming: backups, copies and prunes that make many packs are killed at many of their file-system operations and run again; packs the work-in-progress index names (decoded '
        'independently) have to be in the final index and their blobs in no other new pack, at most a few complete packs may not have been noted there, and the result has to equal '
        'that of an uninterrupted run. Stale: prunes cut short, then the dropped data backed up again, other snapshots forgotten or indexes rebuilt before the prune is run again. Swept: backups and copies cut short, then their packs taken away by an index rebuild and prune from elsewhere, or from the working directory. Leftovers: random sequences of killed commands, dry runs, other commands, different backups, from this directory and others; after each step '
        'the repositories are decoded and compared with the model, and a refusal is only accepted when packs the leftovers count on really are gone. Distinct: (command, situation at the kill, packs '
        'resumed) and (operation, leftovers present, outcome).')
ASSUMES = ['a killed process leaves exactly what the calls before the kill did (power cuts: C13)']


def wip(cwd):
    """(superseded, packs) of the work-in-progress index in a directory, or None."""
    try:
        with open(os.path.join(cwd, 'backpak-wip.index'), 'rb') as f:
            return fmt.parse_index(f.read())[1:]
    except FileNotFoundError:
        return None
    except fmt.Bad as e:
        raise Violation('the work-in-progress index is not well-formed: %s' % e)


def missing(cwd, repo):
    """Packs the work-in-progress index counts on that are neither stored nor waiting here."""
    x = wip(cwd)
    if x is None:
        return set()
    have = {fmt.raw_of(f.split('.')[0]) for f in os.listdir(os.path.join(repo, 'packs')) if f.endswith('.pack')}
    have |= {fmt.raw_of(f.split('.')[0]) for f in os.listdir(cwd) if f.endswith('.pack') and len(f) == fmt.ID_LEN + 5}
    return set(x[1]) - have


def blobs_of(packs):
    out = set()
    for m in packs.values():
        out |= {(t, i) for t, _, i in m}
    return out


# ------------------------------------------------------------------ resuming

def big_job(c, seed):
    """A command that makes a good many packs."""
    r = c.ctx.rng('resume', seed)
    rng0, c.rng = c.rng, r
    cmd = ['backup', 'prune', 'copy'][seed % 3]
    w = World(c, pack_size='10KB', filt=r.choice(FILTERS) if seed % 7 == 4 else None, cached=seed % 5 == 1)
    if seed % 2:
        w.cwd = os.path.join(c.disk, 'wd')
        os.makedirs(w.cwd, exist_ok=True)
    src = os.path.join(c.mkdir('s'), 'top')
    os.mkdir(src)
    for d in range(8):
        os.mkdir(os.path.join(src, 'd%d' % d))
        for k in range(r.choice([3, 4])):
            tree.write(os.path.join(src, 'd%d' % d, 'f%d' % k), r.randbytes(r.choice([4000, 11000, 2000])))
        for k in range(25):
            tree.write(os.path.join(src, 'd%d' % d, 'e%d%s' % (k, 'x' * r.randrange(20))), r.randbytes(r.randrange(40)))
    dst = None
    if cmd != 'backup':
        w.backup([src])
        freeze = [os.path.join(src, 'd%d' % d, 'f0') for d in range(8)]
        for p in freeze:
            os.unlink(p)
        for d in range(0, 8, 2):
            os.unlink(os.path.join(src, 'd%d' % d, 'f1'))
    freeze_atimes(src)
    args = ['backup', src]
    if cmd == 'prune':
        i = w.backup([src])
        for j in list(w.model):
            if j != i:
                w.ok('forget', fmt.name_of(j))
                del w.model[j]
        args = ['prune']
    elif cmd == 'copy':
        w.backup([src])
        dst = World(c, name='dst', pack_size='10KB')
        args = ['copy', '-t', dst.repo, '--all']
    c.rng = rng0
    return cmd, w, dst, src, args


def resume(c, item):
    seed, part, parts = item
    cmd, w, dst, src, args = big_job(c, seed)
    into = dst or w
    T = crash.Template(c, [w.repo, w.cwd, c.env0['HOME']] + ([dst.repo] if dst else []))
    log = c.path('log')
    scope = ':'.join([w.repo, w.cwd] + ([dst.repo] if dst else []))
    w.ok(*args, shim=dict(BPV_LOG=log, BPV_SCOPE=scope))
    ops = [o for o in crash.read_log(log) if o.kind == 'W']
    Rf = into.open(leftovers=True)
    trees = sorted(s.tree for s in Rf.snaps.values())
    want = tree.source([src])
    cand = [o.idx for o in ops if o.fn in ('rename', 'link', 'unlink', 'fsync')]
    c.ctx.rng('kills', seed).shuffle(cand)
    for n, k in enumerate(cand[:40 if c.quick else 400]):
        if n % parts != part:
            continue
        if n // parts > 2 and c.ctx.time_left() < 0:
            break
        T.back()
        c.steps.clear()
        before = {f for f in os.listdir(os.path.join(into.repo, 'packs'))}
        p = w.run(*args, shim=dict(BPV_LOG=log + str(n), BPV_SCOPE=scope, BPV_KILL_AT=k))
        if p.rc not in (0, -9):
            raise Violation('%s failed rather than be killed: %s' % (cmd, p.brief()))
        kl = [o for o in crash.read_log(log + str(n)) if o.kind == 'KILL']
        os.unlink(log + str(n))
        R0 = into.open(leftovers=True)
        x = wip(w.cwd)
        noted = x[1] if x else {}
        # For a prune the packs it keeps are noted as well.
        mine = {i: m for i, m in noted.items() if fmt.name_of(i) + '.pack' not in before}
        done = [i for i in R0.packs if fmt.name_of(i) + '.pack' not in before]
        lost = set(done) - set(noted) - {i for _, m in R0.indexes.values() for i in m}
        if len(lost) > 4:
            raise Violation('%d of %d packs the killed %s had finished are not noted as finished, and would be made again' % (len(lost), len(done), cmd))
        # Those that are where they belong stay as they are.
        there = {}
        for i in mine:
            q = os.path.join(into.repo, 'packs', fmt.name_of(i) + '.pack')
            if os.path.exists(q) and not os.path.exists(os.path.join(w.cwd, os.path.basename(q))):
                there[q] = (os.stat(q).st_ino, os.stat(q).st_mtime_ns)
        res = w.ok(*args)
        for q, was in there.items():
            if os.path.exists(q) and (os.stat(q).st_ino, os.stat(q).st_mtime_ns) != was:
                raise Violation('%s, uploaded before the kill, was made and uploaded again by the rerun of %s' % (os.path.basename(q), cmd))
        R = into.open(leftovers=True)
        crash.leftovers_ok(R)
        R.audit(unindexed=True, stale_indexes=cmd == 'prune')
        got = sorted(s.tree for s in R.snaps.values())
        if cmd == 'backup':
            if set(got) != set(trees):
                raise Violation('the rerun backup gives a different tree than an uninterrupted run')
        elif got != trees:
            raise Violation('after the rerun %s the snapshots are not those of an uninterrupted run' % cmd)
        for i in mine:
            if i not in R.packs:
                raise Violation('pack %s, finished before the kill, was not kept' % fmt.name_of(i))
            if i not in R.indexed:
                raise Violation('pack %s, finished before the kill, is in no index' % fmt.name_of(i))
        fresh = {i: m for i, m in R.packs.items() if i not in R0.packs and i not in mine}
        again = blobs_of(fresh) & blobs_of(mine)
        if again:
            raise Violation('%d blobs in packs finished before the kill were packed again by the rerun of %s' % (len(again), cmd))
        if blobs_of(R.indexed) != blobs_of(Rf.indexed):
            raise Violation('the blobs indexed after the rerun are not those an uninterrupted %s gives' % cmd)
        if cmd != 'prune' or len(mine):
            for b, k2 in R.copies.items():
                if k2 > len(R.types[b]):
                    raise Violation('blob %s is indexed %d times after the rerun' % (fmt.name_of(b), k2))
        crash.cwd_ok(w.cwd, empty=cmd != 'prune' or set(R.inforce) != set(R0.inforce))
        c.count('kills')
        c.count('packs resumed', len(mine))
        c.count('packs made after resuming', len(fresh))
        c.see(cmd, crash.situation(kl[0]) if kl else 'none', min(len(mine), 4), min(len(fresh), 2))
        c.eval()
    c.sample(command=args, packs=len(Rf.packs), kill_points=len(cand))


# ------------------------------------------------------------------ stale

def stale(c, item):
    """A prune, backup or copy is cut short, the repository moves on without it, and it is run again."""
    r = c.rng
    w = World(c, pack_size='30KB')
    elsewhere = c.mkdir('elsewhere')
    base = c.mkdir('s')
    names = ['d%d' % k for k in range(r.choice([4, 5, 6]))]
    src = {n: os.path.join(base, n) for n in names}
    for n in names:
        os.mkdir(src[n])
        for k in range(r.choice([1, 1, 2, 7])):
            tree.write(os.path.join(src[n], 'f%d' % k), r.randbytes(r.choice([12000, 35000, 35000])))
    freeze_atimes(base)
    of = {}

    def back(ns, cwd):
        i = w.backup([src[n] for n in ns], '--allow-repeat', cwd=cwd)
        of[i] = ns

    for n in names:
        back([n] if r.random() < 0.7 else r.sample(names, 2), elsewhere)
    # Thin one of them, so that there is something to repack.
    for n in r.sample(names, 2):
        fs = sorted(os.listdir(src[n]))
        if len(fs) > 2:
            for f in fs[::3]:
                os.unlink(os.path.join(src[n], f))
            freeze_atimes(base)
            back([n], elsewhere)
    drop = r.sample(sorted(w.model), r.randrange(1, len(w.model)))
    w.ok('forget', *[fmt.name_of(i) for i in drop], cwd=elsewhere)
    for i in drop:
        del w.model[i]
    dst = World(c, name='dst', pack_size='20KB')
    rounds = r.choice([1, 2, 2, 3])
    for _ in range(rounds):
        scope = ':'.join([w.repo, w.cwd])
        # Somewhere after a pack was noted, most likely just before the index is in place.
        sub, fn = r.choice([('/repo/indexes/', 'rename'), ('/repo/indexes/', 'rename'), ('/repo/packs/', 'rename'), ('backpak-wip', 'rename'), ('/repo/indexes/', 'unlink'), ('/repo/packs/', 'unlink')])
        p = w.run('prune', shim=dict(BPV_SCOPE=scope, BPV_FAIL_FUNC=fn, BPV_FAIL_SUB=sub, BPV_FAIL_NTH=r.choice([1, 1, 2, 3])))
        c.see('cut', sub, fn, p.rc, wip(w.cwd) is not None)
        crash.holds(w)
        gone = [i for i in of if i not in w.model]
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice(['again', 'again', 'again', 'forget', 'other', 'rebuild', 'thin'])
            if k == 'again' and gone:
                back(of[r.choice(gone)], elsewhere)
            elif k == 'forget' and len(w.model) > 1:
                i = r.choice(sorted(w.model))
                w.ok('forget', fmt.name_of(i), cwd=elsewhere)
                del w.model[i]
            elif k == 'other':
                back(r.sample(names, 2), elsewhere)
            elif k == 'rebuild':
                w.ok('rebuild-index', cwd=elsewhere)
            else:
                n = r.choice(names)
                fs = sorted(os.listdir(src[n]))
                if len(fs) > 1:
                    os.unlink(os.path.join(src[n], fs[0]))
                    freeze_atimes(base)
                back([n], elsewhere)
            c.see('meanwhile', k)
        crash.holds(w)
        had = wip(w.cwd)
        lack = missing(w.cwd, w.repo)
        p = w.run('prune')
        if p.rc:
            c.clean_fail(p)
            if not lack:
                raise Violation('prune is refused though nothing its leftovers need is gone: %s' % p.brief())
            os.unlink(os.path.join(w.cwd, 'backpak-wip.index'))
            c.count('refusals')
        else:
            c.see('rerun', had is not None)
            c.count('reruns over stale leftovers', had is not None)
        crash.holds(w)
        c.eval()
    w.ok('prune', cwd=c.mkdir('end'))
    R, _ = crash.holds(w)
    for i in sorted(w.model)[:2]:
        w.restored(i, R=R, cwd=elsewhere)
    c.sample(steps=c.steps[-8:])


# ------------------------------------------------------------------ swept

def swept(c, item):
    """Packs an interrupted backup or copy had finished are taken away, all or some, before it is run again."""
    r = c.rng
    w = World(c, pack_size='20KB')
    dst = World(c, name='dst', pack_size='15KB')
    top = os.path.join(c.mkdir('s'), 'top')
    os.mkdir(top)
    for k in range(9):
        tree.write(os.path.join(top, 'f%d' % k), r.randbytes(r.choice([12000, 18000, 25000])))
    freeze_atimes(top)
    elsewhere = c.mkdir('elsewhere')
    cmd = r.choice(['backup', 'backup', 'copy'])
    if cmd == 'copy':
        w.backup([top], cwd=elsewhere)
        args = ['copy', '-t', dst.repo, '--all']
        x = dst
    else:
        args = ['backup', '--allow-repeat', top]
        x = w
    want = tree.source([top])
    # Something the other writer's prune keeps an index for.
    other = os.path.join(c.mkdir('o'), 'other')
    os.mkdir(other)
    tree.write(os.path.join(other, 'f'), r.randbytes(3000))
    x.backup([other], cwd=elsewhere)
    have = x.open(leftovers=True).packs
    sh = dict(BPV_SCOPE=':'.join([w.repo, dst.repo, w.cwd]))
    if r.random() < 0.6:
        sh.update(BPV_FAIL_FUNC='rename', BPV_FAIL_SUB='/%s/packs/' % os.path.basename(x.repo), BPV_FAIL_NTH=r.choice([1, 2, 3, 4]), BPV_FAIL_PERSIST='1', BPV_EXIT_DELAY=r.choice(['0', '20', '60']))
    else:
        sh.update(BPV_KILL_AT=r.randrange(25, 120), BPV_KILL_MODE=r.choice(['before', 'after', 'partial']))
    p = w.run(*args, shim=sh)
    here = [f for f in os.listdir(w.cwd) if f.endswith('.pack') and len(f) == fmt.ID_LEN + 5]
    how = r.choice(['sweep', 'sweep', 'sweep', 'here', 'both', 'some'])
    if how in ('sweep', 'both'):
        x.ok('rebuild-index', cwd=elsewhere)
        x.ok('prune', cwd=elsewhere)
    if how in ('here', 'both'):
        for f in here:
            os.unlink(os.path.join(w.cwd, f))
    if how == 'some':
        # Packs no index names yet.
        R = x.open(leftovers=True)
        stray = sorted(fmt.name_of(i) for i in set(R.packs) - set(R.indexed))
        for n in r.sample(stray, r.randrange(len(stray) + 1)):
            os.unlink(os.path.join(x.repo, 'packs', n + '.pack'))
    noted = wip(w.cwd)
    lack = missing(w.cwd, x.repo)
    c.see('swept', cmd, how, p.rc, min(3, len(lack)), noted is not None, len(here), min(4, len(noted[1]) if noted else 0))
    p = w.run(*args)
    if p.rc:
        c.clean_fail(p)
        if not lack:
            raise Violation('%s is refused though nothing its leftovers need is gone: %s' % (cmd, p.brief()))
        c.count('refusals')
        os.unlink(os.path.join(w.cwd, 'backpak-wip.index'))
        p = w.ok(*args)
    c.count('reruns with packs gone', len(lack) > 0)
    new = [i for i in x.open(leftovers=True).snaps if i not in x.model]
    for i in new:
        x.model[i] = want
    if not new:
        raise Violation('the %s that was run again made no snapshot' % cmd)
    R, _ = crash.holds(x)
    crash.cwd_ok(w.cwd)
    c.eval()


# ------------------------------------------------------------------ leftovers

class Walk:
    def __init__(self, c):
        self.c, self.r = c, c.rng
        r = c.rng
        self.w = World(c, pack_size=r.choice(['8KB', '20KB', '20KB', '100KB']), cached=r.random() < 0.2)
        self.dst = World(c, name='dst', pack_size=r.choice(['8KB', '30KB']))
        self.srcs = []
        for k in range(2):
            p = os.path.join(c.mkdir('s%d' % k), 'top%d' % k)
            tree.Gen(r, p, size='tiny', entries=6)
            os.chmod(p, 0o755)
            self.grow(p)
            self.srcs.append(p)
        self.cwds = [self.w.cwd, os.path.join(c.disk, 'wd')]
        os.makedirs(self.cwds[1])
        self.scope = ':'.join([self.w.repo, self.dst.repo] + self.cwds)
        self.lost = False

    def grow(self, p):
        r = self.r
        for _ in range(r.choice([2, 3, 4])):
            f = os.path.join(p, 'f%d' % r.randrange(12))
            if os.path.lexists(f) and (os.path.islink(f) or not os.path.isfile(f) or not os.access(f, os.W_OK)):
                continue
            tree.write(f, r.randbytes(r.choice([500, 9000, 9000, 25000])))
        fs = [f for f in os.listdir(p) if f.startswith('f') and os.path.isfile(os.path.join(p, f)) and not os.path.islink(os.path.join(p, f))]
        if len(fs) > 4:
            os.unlink(os.path.join(p, r.choice(sorted(fs))))

    def go(self, what, args, cwd, target, kill, may_new=None, may_dst=None):
        """Runs a command, perhaps to be killed; returns whether it finished."""
        c, r, w = self.c, self.r, self.w
        left = wip(cwd)
        gone = missing(cwd, target.repo)
        sh = dict(BPV_SCOPE=self.scope)
        if kill:
            sh.update(BPV_KILL_AT=r.randrange(1, 120), BPV_KILL_MODE=r.choice(['before', 'after', 'partial']))
        p = w.run(*args, cwd=cwd, shim=sh)
        if p.rc == -9:
            c.count('kills')
            c.see(what, 'killed', left is not None)
            return False
        if p.rc != 0:
            c.clean_fail(p)
            if not gone:
                raise Violation('%s is refused though nothing its leftovers need is gone: %s' % (what, p.brief()))
            c.see(what, 'refused')
            c.count('refusals')
            # What is refused is refused for good until the leftovers are taken away.
            os.unlink(os.path.join(cwd, 'backpak-wip.index'))
            p = w.run(*args, cwd=cwd)
            if p.rc:
                raise Violation('%s fails even without leftovers: %s' % (what, p.brief()))
        c.see(what, 'done', left is not None)
        return True

    def adopt(self, w, wants):
        """Takes new snapshots that hold one of `wants` into the model."""
        R = w.open(leftovers=True)
        for i in set(R.snaps) - set(w.model):
            got = R.entries(R.snaps[i])
            for x in wants:
                if not tree.differences(x, got):
                    w.model[i] = x
                    break
            else:
                raise Violation('snapshot %s holds what was never to be in one' % fmt.name_of(i))

    def step(self):
        c, r, w = self.c, self.r, self.w
        cwd = self.cwds[0] if r.random() < 0.75 else self.cwds[1]
        kill = r.random() < 0.5
        dry = not kill and r.random() < 0.25
        n = ['-n'] if dry else []
        op = r.choice(['backup'] * 6 + ['prune'] * 3 + ['copy'] * 3 + ['rebuild-index', 'forget', 'forget', 'filter-snapshot', 'read', 'restore', 'dst-prune', 'clear', 'sweep'])
        if not w.model and op not in ('backup', 'clear'):
            op = 'backup'
        before = len(w.snap_files())
        if op == 'backup':
            src = r.choice(self.srcs + self.srcs[:1])
            if r.random() < 0.5:
                self.grow(src)
                tree.mutate(r, src, r.choice([0, 1]))
                os.chmod(src, 0o755)
            want = tree.source([src])
            done = self.go(op, ['backup', '--allow-repeat'] + n + [src], cwd, w, kill)
            if not dry:
                self.adopt(w, [want])
            if len(w.snap_files()) != before + 1 and done and not dry:
                raise Violation('the backup made no snapshot')
        elif op == 'prune':
            done = self.go(op, ['prune'] + n, cwd, w, kill)
            if done and not dry:
                R = w.open(leftovers=True)
                need = R.reach_all()
                junk = [b for m in R.indexed.values() for _, _, b in m if b not in need]
                if junk:
                    raise Violation('prune left %d blobs no snapshot needs in the index' % len(junk))
        elif op == 'copy':
            ids = r.sample(sorted(w.model), r.randrange(1, min(3, len(w.model)) + 1))
            self.go(op, ['copy', '-t', self.dst.repo] + n + [fmt.name_of(i) for i in ids], cwd, self.dst, kill)
            for i in ids:
                if fmt.name_of(i) in self.dst.snap_files():
                    self.dst.model[i] = w.model[i]
            if not kill and not dry and not all(i in self.dst.model for i in ids):
                raise Violation('the copy did not copy every snapshot')
        elif op == 'rebuild-index':
            self.go(op, ['rebuild-index'] + n, cwd, w, kill)
        elif op == 'forget':
            i = r.choice(sorted(w.model))
            self.go(op, ['forget'] + n + [fmt.name_of(i)], cwd, w, False)
            if not dry:
                del w.model[i]
        elif op == 'filter-snapshot':
            i = r.choice(sorted(w.model))
            pat = r.choice(['f[0-4]', 'f[0-9]$'] + SKIPS)
            new = filtered(w.model[i], [pat])
            self.go(op, ['filter-snapshot', '-s', pat] + n + [fmt.name_of(i)], cwd, w, kill)
            self.adopt(w, [new])
        elif op == 'read':
            for a in r.sample([('check', '-r'), ('usage',), ('snapshots', '--sizes'), ('ls', 'LAST'), ('diff', 'LAST')], 2):
                w.ok(*a, cwd=cwd)
        elif op == 'restore':
            i = r.choice(sorted(w.model))
            w.restored(i, cwd=cwd, R=w.open(leftovers=True))
        elif op == 'dst-prune' and self.dst.model:
            if r.random() < 0.5:
                i = r.choice(sorted(self.dst.model))
                self.dst.ok('forget', fmt.name_of(i), cwd=cwd)
                del self.dst.model[i]
            res = self.dst.run('prune', cwd=cwd)
            if res.rc:
                c.clean_fail(res)
                if not missing(cwd, self.dst.repo):
                    raise Violation('prune is refused though nothing is gone: %s' % res.brief())
        elif op == 'sweep':
            # Another machine makes do without what was never finished here.
            x = r.choice([w, self.dst])
            if x.model:
                d = c.fresh('sweeper')
                x.ok('rebuild-index', cwd=d)
                x.ok('prune', cwd=d)
        elif op == 'clear':
            for d in self.cwds:
                for f in os.listdir(d):
                    os.unlink(os.path.join(d, f))
        for x in (w, self.dst):
            crash.holds(x)
        for d in self.cwds:
            crash.cwd_ok(d)
        c.count('steps')
        c.see('step', op, 'kill' if kill else 'dry' if dry else '', wip(cwd) is not None)
        c.eval()


def leftovers(c, item):
    x = Walk(c)
    for k in range(14 if c.quick else 40):
        x.step()
    w = x.w
    # In the end, all is as it should be for good.
    end = c.mkdir('end')
    if w.model:
        w.ok('prune', cwd=end)
        R, _ = crash.holds(w)
        for i in sorted(w.model)[:3]:
            w.restored(i, R=R, cwd=end)
        w.ok('check', '-r', cwd=end)
        w.ok('rebuild-index', cwd=end)
        w.ok('prune', cwd=end)
        w.verify(R=w.open(leftovers=True))
    c.sample(steps=c.steps[:12])


def run(ctx):
    q = ctx.quick
    parts = 7
    items = [(s, p, parts) for s in range(6 if q else 60) for p in range(parts)]
    off = 0 if q else ctx.seed * 210
    half = ctx.budget
    ctx.budget = half * 0.4
    ctx.cases(resume, [(s + off, p, n) for s, p, n in items], must=parts * 3)
    ctx.budget = half * 0.5
    ctx.cases(swept, range(3000), must=30)
    ctx.budget = half * 0.75
    ctx.cases(stale, range(3000), must=35)
    ctx.budget = half
    ctx.cases(leftovers, range(4000), must=42)

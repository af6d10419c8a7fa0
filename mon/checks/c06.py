"""C06: prune, rebuild-index, copy, forget and filter-snapshot killed at any instant lose nothing."""
import os

import crash
import fmt
import tree
from core import Violation
from ops import filtered, SKIPS
from world import World, FILTERS

LEVEL = 'fault_enumeration'
BUDGET = (40, 1200)
RULE = ('For each scenario (command, repository kind, history with partly and wholly unused packs, same or other file system) the command\'s file-system mutations are '
        'recorded, then it is rerun from the same state and killed before each of them and halfway through each write (of runs of small writes to a file only some). After each '
        'kill both repositories are decoded and the snapshots that have to survive compared with the model; a continuation (rerun here or elsewhere, killed again, other commands) '
        'runs, and the result is compared with what an uninterrupted run gives. Distinct: (command, operation killed at, continuation).')
ASSUMES = ['a killed process leaves exactly what the calls before the kill did (power cuts: C13)']

COMMANDS = ['prune', 'copy', 'prune', 'rebuild-index', 'prune', 'copy', 'forget', 'prune', 'filter-snapshot']
AFTER = ['same', 'same', 'other', 'backup', 'backup-other', 'prune', 'prune-other', 'rebuild', 'twice', 'forget', 'forget-other', 'read', 'filter', 'copyout', 'other']


def setup(c, seed):
    r = c.ctx.rng('scenario', seed)
    rng0, c.rng = c.rng, r
    cmd = COMMANDS[seed % len(COMMANDS)]
    w = World(c, pack_size=r.choice(['20KB', '40KB', '20KB', '200KB']), filt=r.choice(FILTERS) if seed % 7 == 3 else None, cached=seed % 5 == 1)
    if seed % 3 == 2:
        w.cwd = os.path.join(c.disk, 'wd')
        os.makedirs(w.cwd, exist_ok=True)
    src = os.path.join(c.mkdir('s'), 'top')
    tree.Gen(r, src, size='small', entries=10)
    os.chmod(src, 0o755)
    ids = []
    for k in range(4):
        for j in range(r.choice([1, 2, 3])):
            tree.write(os.path.join(src, 'f%d.%d' % (k, j)), r.randbytes(r.choice([300, 9000, 18000])))
        if k:
            for _ in range(2):
                v = r.choice([f for f in os.listdir(src) if f.startswith('f') and tree.kind(os.path.join(src, f)) != 'd'] or [None])
                if v:
                    os.unlink(os.path.join(src, v))
            tree.mutate(r, src, 2)
            os.chmod(src, 0o755)
        ids.append(w.backup([src], '--allow-repeat'))
    gone = r.sample(ids, r.choice([1, 2]))
    args, dst, named = [cmd], None, []
    if cmd in ('prune', 'rebuild-index'):
        w.ok('forget', *map(fmt.name_of, gone))
        for i in gone:
            del w.model[i]
        if cmd == 'rebuild-index' and r.random() < 0.5:
            for f in os.listdir(os.path.join(w.repo, 'indexes'))[:1]:
                os.unlink(os.path.join(w.repo, 'indexes', f))
    elif cmd == 'forget':
        named = r.sample(ids, r.choice([1, 2, 3]))
        args += map(fmt.name_of, named)
    elif cmd == 'filter-snapshot':
        pats = [r'f[0-9]\.[01]', r.choice(SKIPS)]
        for p in pats:
            args += ['-s', p]
        i = r.choice(ids)
        args += r.choice([['-k'], []]) + [fmt.name_of(i)]
        named = [(i, pats)]
    else:
        dst = World(c, name='dst', pack_size=r.choice(['20KB', '80KB']))
        dst.cwd = w.cwd
        if r.random() < 0.5:
            o = os.path.join(c.mkdir('s2'), 'top')
            crash.cp(src, o)
            tree.mutate(r, o, 4)
            dst.backup([o], '--allow-repeat')
        pats = r.sample([r'f[0-9]\.1', r'f0', '[a-c]$'], r.choice([0, 0, 1]))
        for p in pats:
            args += ['-s', p]
        named = r.sample(ids, r.choice([1, 2, 4]))
        args += ['-t', dst.repo] + [fmt.name_of(i) for i in named]
        named = [(i, pats) for i in named]
    c.rng = rng0
    return cmd, w, dst, src, args, named


def scenario(c, item):
    seed, part, parts = item
    cmd, w, dst, src, args, named = setup(c, seed)
    other = c.mkdir('elsewhere')
    dirs = [w.repo, w.cwd, c.env0['HOME'], src] + ([dst.repo] if dst else [])
    T = crash.Template(c, dirs)
    log = c.path('log')
    scope = ':'.join([w.repo, w.cwd] + ([dst.repo] if dst else []))
    w.ok(*args, shim=dict(BPV_LOG=log, BPV_SCOPE=scope))
    ops = crash.read_log(log)
    if not any(o.fn in ('rename', 'unlink') for o in ops):
        raise Violation('%s changed nothing' % cmd)
    c.count('operations in recorded runs', len(ops))
    # What an uninterrupted run gives.
    m = w.model
    if cmd in ('prune', 'rebuild-index'):
        src_want, dst_want = list(m.values()), None
        keep, keepd = dict(m), None
    elif cmd == 'forget':
        keep = {i: e for i, e in m.items() if i not in named}
        src_want, dst_want, keepd = list(keep.values()), None, None
    elif cmd == 'filter-snapshot':
        keep, keepd = dict(m), None
        (i, pats), = named
        new = filtered(m[i], pats)
        src_want, dst_want = list(m.values()) + ([new] if new != m[i] else []), None
    else:
        keep, keepd = dict(m), dict(dst.model)
        src_want = list(m.values())
        dst_want = list(dst.model.values()) + [filtered(m[i], pats) for i, pats in named]

    pts = crash.points(ops, c.ctx.rng('thin', seed))
    byidx = {o.idx: o for o in ops}
    for n, (k, mode) in enumerate(pts):
        if n % parts != part:
            continue
        if n // parts > 2 and c.ctx.time_left() < 0:
            break
        T.back()
        for d in os.listdir(other):
            os.unlink(os.path.join(other, d))
        log = c.path('log%d' % n)
        c.steps.clear()
        c.step('scenario %d (%s), killed at %d %s (%s)' % (seed, cmd, k, mode, byidx[k]))
        p = w.run(*args, shim=dict(BPV_LOG=log, BPV_SCOPE=scope, BPV_KILL_AT=k, BPV_KILL_MODE=mode))
        if p.rc not in (0, -9):
            raise Violation('%s failed rather than be killed: %s' % (cmd, p.brief()))
        kl = [o for o in crash.read_log(log) if o.kind == 'KILL']
        os.unlink(log)
        c.count('kills' if kl else 'runs that ended before the kill')
        after = AFTER[(n + seed) % len(AFTER)]
        c.see(cmd, crash.situation(kl[0]) if kl else 'none', mode, after)
        state(w, dst, cmd, keep, src_want, keepd, dst_want)
        crash.cwd_ok(w.cwd)
        go_on(c, w, dst, cmd, src, args, other, keep, src_want, keepd, dst_want, after, scope, p.rc == 0)
        c.eval()
    c.sample(command=args, points=len(pts))


def state(w, dst, cmd, keep, src_want, keepd, dst_want, **kw):
    """What has to survive is there, what is new is what the command makes, and whole."""
    def may(wants):
        return lambda i, got, R: any(not tree.differences(x, got) for x in wants)
    # While a rebuild is on, what no index named before need not be found through one: that is judged at the end.
    R, new = crash.holds(w, model=keep, may=(lambda i, g, R: i in w.model) if cmd == 'forget' else may(src_want)) if cmd != 'rebuild-index' or not lost(w) else (None, None)
    D = dnew = None
    if dst:
        D, dnew = crash.holds(dst, model=keepd, may=may(dst_want))
    return R, new, D, dnew


def lost(w):
    """Whether blobs some snapshot needs are not in any index (which a rebuild is there to repair)."""
    try:
        R = w.open(leftovers=True)
        R.reach_all()
        return False
    except Violation as v:
        if 'is in no index in force' in str(v):
            return True
        raise


def same_snaps(R, want, what):
    got = [R.entries(s) for s in R.snaps.values()]
    left = list(got)
    for x in want:
        for k, g in enumerate(left):
            if not tree.differences(x, g):
                left.pop(k)
                break
        else:
            raise Violation('%s: a snapshot is missing' % what)
    if left:
        raise Violation('%s: %d snapshots too many' % (what, len(left)))


def go_on(c, w, dst, cmd, src, args, other, keep, src_want, keepd, dst_want, after, scope, done):
    r = c.rng
    keep = dict(keep)
    src_want = list(src_want)
    cwd = other if after.endswith('other') else w.cwd
    ocwd = c.mkdir('third')
    damaged = cmd == 'rebuild-index' and lost(w)
    if damaged and after in ('read', 'filter', 'copyout', 'prune', 'prune-other', 'forget', 'forget-other', 'backup', 'backup-other'):
        after = 'same'
    drop = False
    if after == 'twice' and cmd == 'filter-snapshot' and '-k' not in args:
        after = 'same'      # each run adds one, with its own time
    if after == 'backup' and cmd == 'copy':
        cwd = other     # what is in this directory belongs to another repository
    if after.startswith('backup'):
        tree.mutate(r, src, 2)
        want = tree.source([src])
        before = w.snap_files()
        res = w.run('backup', '--allow-repeat', src, cwd=cwd)
        if res.rc:
            raise Violation('a backup fails after %s was killed: %s' % (cmd, res.brief()))
        i = w.note_new(before, want)
        keep[i] = w.model.pop(i)
        src_want.append(want)
    if after.startswith('forget') and len(keep) > 1 and cmd != 'copy':
        i = r.choice([i for i in sorted(keep) if fmt.name_of(i) != args[-1]])
        e = keep.pop(i)
        w.ok('forget', fmt.name_of(i), cwd=cwd)
        src_want.remove(e)
        drop = True
        if r.random() < 0.5:
            w.ok('prune', cwd=ocwd if r.random() < 0.5 else cwd)
    if after.startswith('prune') and cmd != 'prune':
        w.ok('prune', cwd=cwd)
        if dst:
            dst.ok('prune', cwd=ocwd)
    if after == 'rebuild' and cmd != 'rebuild-index':
        w.ok('rebuild-index', cwd=cwd)
        if dst and any(f.endswith('.pack') for f in os.listdir(os.path.join(dst.repo, 'packs'))):
            dst.ok('rebuild-index', cwd=cwd)
    if after == 'read':
        w.ok('check', '-r')
        w.ok('usage')
        w.ok('snapshots', '--sizes', '--stat')
        i = r.choice(sorted(keep))
        w.restored(i, want=keep[i])
    if after == 'filter' and cmd not in ('filter-snapshot', 'forget'):
        i = r.choice(sorted(keep))
        new = filtered(keep[i], ['f[0-9]'])
        w.ok('filter-snapshot', '-s', 'f[0-9]', fmt.name_of(i))
        if new != keep[i]:
            src_want.append(new)
    if after == 'copyout':
        d = World(c, name='out%d' % r.getrandbits(40))
        ids = sorted(keep)
        w.ok('copy', '-t', d.repo, *[fmt.name_of(i) for i in ids], cwd=ocwd)
        d.model = {i: keep[i] for i in ids}
        d.verify()
    if after == 'twice':
        p = w.run(*args, shim=dict(BPV_SCOPE=scope, BPV_KILL_AT=r.randrange(1, 50), BPV_KILL_MODE=r.choice(['before', 'after', 'partial'])))
        if p.rc not in (0, -9) and not (cmd == 'forget' and p.rc == 1):
            raise Violation('rerunning failed rather than be killed: %s' % p.brief())
        state(w, dst, cmd, keep, src_want, keepd, dst_want)
    if cmd == 'forget':
        # What is gone already cannot be named.
        left = [a for a in args[1:] if a in w.snap_files()]
        if left:
            w.ok('forget', *left, cwd=cwd)
    elif cmd == 'filter-snapshot' and args[-1] not in w.snap_files():
        pass
    elif cmd == 'filter-snapshot':
        if len(w.snap_files()) < len(src_want) or '-k' in args:
            w.ok(*args, cwd=cwd)
    else:
        res = w.run(*args, cwd=cwd)
        if res.rc and (drop or after.startswith(('prune', 'backup', 'rebuild'))) and 'backpak-wip.index' in os.listdir(cwd) and not damaged:
            # Somebody else may have done away with what the interrupted run counts on: it may refuse, saying so.
            c.clean_fail(res)
            state(w, dst, cmd, keep, src_want, keepd, dst_want)
            c.count('reruns refused after other commands')
            os.unlink(os.path.join(cwd, 'backpak-wip.index'))
            res = w.run(*args, cwd=cwd)
        if res.rc:
            raise Violation('%s cannot be rerun: %s' % (cmd, res.brief()))
    R = w.open(leftovers=True)
    crash.leftovers_ok(R)
    R.audit(unindexed=True, stale_indexes=cmd != 'rebuild-index')
    same_snaps(R, src_want, 'after rerunning %s (%s)' % (cmd, after))
    for i, e in keep.items():
        if i not in R.snaps:
            raise Violation('snapshot %s is gone' % fmt.name_of(i))
    if cmd == 'prune':
        need = R.reach_all()
        junk = [b for m in R.indexed.values() for _, _, b in m if b not in need]
        if junk:
            raise Violation('after rerunning prune, %d blobs no snapshot needs are still indexed' % len(junk))
    if cmd == 'rebuild-index':
        if set(R.indexed) != set(R.packs):
            raise Violation('after rerunning rebuild-index not every pack is indexed')
    if dst:
        D = dst.open(leftovers=True)
        crash.leftovers_ok(D)
        D.audit(unindexed=True, stale_indexes=True)
        same_snaps(D, dst_want, 'destination after rerunning copy (%s)' % after)
        if r.random() < 0.3:
            i = r.choice(sorted(D.snaps))
            dst.restored(i, want=D.entries(D.snaps[i]), R=D)
            dst.ok('check', '-r')
    if r.random() < 0.3:
        i = r.choice(sorted(keep))
        w.restored(i, want=keep[i], R=R)
        w.ok('check', '-r')
    crash.cwd_ok(cwd, empty=cmd == 'copy')


def run(ctx):
    q = ctx.quick
    parts = 7
    items = [(s, p, parts) for s in range(27 if q else 300) for p in range(parts)]
    off = 0 if q else ctx.seed * 1000
    ctx.cases(scenario, [(s + off, p, n) for s, p, n in items], must=parts * (9 if q else 18))

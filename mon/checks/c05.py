"""C05: a backup killed at any instant damages nothing and can be rerun."""
import os

import crash
import fmt
import tree
from core import Violation
from world import World, FILTERS

LEVEL = 'fault_enumeration'
BUDGET = (35, 900)
RULE = ('For each scenario (repository kind, sources, same or other file system) a backup\'s file-system mutations are recorded, then the backup is rerun from the same '
        'starting state and killed before each of them and halfway through each write (of consecutive small writes to one file only some). After each kill the '
        'repository is decoded and compared with the model, one of several continuations is run (rerun here or elsewhere, with edits, after rebuild-index, prune, forget or copy, '
        'killed again), and the result compared again. Distinct: (operation killed at, continuation).')
ASSUMES = ['a killed process leaves exactly what the calls before the kill did (power cuts: C13)']

AFTER = ['same', 'same', 'same', 'other', 'rebuild', 'rebuild-other', 'prune', 'prune-other', 'edit', 'twice', 'forget', 'copy', 'check', 'less', 'restore']


def setup(c, seed):
    """The same scenario for every part that works on it."""
    r = c.ctx.rng('scenario', seed)
    rng0, c.rng = c.rng, r
    filt = r.choice(FILTERS) if seed % 5 == 3 else None
    w = World(c, pack_size=r.choice(['20KB', '60KB', '20KB', '1MB']), filt=filt, cached=seed % 4 == 1)
    if seed % 3 == 2:
        w.cwd = os.path.join(c.disk, 'wd')
        os.makedirs(w.cwd, exist_ok=True)
    src = os.path.join(c.mkdir('s'), 'top')
    tree.Gen(r, src, size='small', entries=r.choice([8, 14]))
    w.backup([src], '--allow-repeat')
    for _ in range(r.choice([0, 1])):
        tree.mutate(r, src, 3)
        w.backup([src], '--allow-repeat')
    tree.mutate(r, src, 4)
    os.chmod(src, 0o755)
    for k in range(r.choice([2, 4])):
        tree.write(os.path.join(src, 'fresh%d' % k), r.randbytes(r.choice([100, 15000, 30000])))
    if seed % 4 == 2:
        tree.write(os.path.join(src, 'large'), r.randbytes(1500000))
    paths = [src]
    if r.random() < 0.3:
        tree.Gen(r, os.path.join(os.path.dirname(src), 'more'), size='tiny')
        paths.append(os.path.join(os.path.dirname(src), 'more'))
    flags = (['--allow-repeat'], [], ['-t', 'tag', '--allow-empty'], [], ['-a', 'someone', '--allow-repeat'])[(seed + 4) % 5]
    c.rng = rng0
    return w, paths, flags


def scenario(c, item):
    seed, part, parts = item
    w, paths, flags = setup(c, seed)
    src = paths[0]
    other = c.mkdir('elsewhere')
    home = c.env0['HOME']
    T = crash.Template(c, [w.repo, w.cwd, home])
    log = c.path('log')
    scope = ':'.join([w.repo, w.cwd] + ([home] if seed % 8 == 1 else []))
    w.ok('backup', *flags, *paths, shim=dict(BPV_LOG=log, BPV_SCOPE=scope))
    ops = crash.read_log(log)
    if not any(o.fn == 'rename' for o in ops):
        raise RuntimeError('the monitor saw nothing')
    c.count('operations in recorded runs', len(ops))
    pts = crash.points(ops, c.ctx.rng('thin', seed))
    byidx = {o.idx: o for o in ops}
    want = tree.source(paths)

    def may(i, got, R):
        return not tree.differences(want, got)
    for n, (k, mode) in enumerate(pts):
        if n % parts != part:
            continue
        if n // parts > 2 and c.ctx.time_left() < 0:
            break
        T.back()
        for d in os.listdir(other):
            os.unlink(os.path.join(other, d))
        log = c.path('log%d' % n)
        c.steps.clear()
        c.step('scenario %d, killed at %d %s (%s)' % (seed, k, mode, byidx[k]))
        p = w.run('backup', *flags, *paths, shim=dict(BPV_LOG=log, BPV_SCOPE=scope, BPV_KILL_AT=k, BPV_KILL_MODE=mode))
        if p.rc not in (0, -9):
            raise Violation('backup failed rather than be killed: %s' % p.brief())
        kl = [o for o in crash.read_log(log) if o.kind == 'KILL']
        os.unlink(log)
        c.count('kills' if kl else 'runs that ended before the kill')
        sit = crash.situation(kl[0]) if kl else 'none'
        R, new = crash.holds(w, may=may)
        crash.cwd_ok(w.cwd)
        after = AFTER[(n + seed) % len(AFTER)]
        c.see(sit, mode, after, *flags[:1])
        go_on(c, w, paths, other, want, may, after, scope, flags)
        c.eval()
    c.sample(scenario=seed, points=len(pts), operations=[repr(o) for o in ops[:3]])


def go_on(c, w, paths, other, want, may, after, scope, flags):
    r = c.rng
    model = dict(w.model)
    cwd = w.cwd
    clean = after in ('same', 'less')
    tmpl = None
    if after in ('other', 'rebuild-other', 'prune-other'):
        cwd = other
    if after == 'restore':
        w.restored(r.choice(sorted(model)))
    if after in ('rebuild', 'rebuild-other'):
        w.ok('rebuild-index', cwd=cwd)
    if after in ('prune', 'prune-other'):
        w.ok('prune', cwd=cwd)
    if after == 'check':
        w.ok('check', '-r')
        w.ok('usage')
        w.ok('snapshots', '--sizes', '--stat')
    if after == 'forget' and len(model) > 1:
        i = r.choice(sorted(model))
        w.ok('forget', fmt.name_of(i))
        del model[i]
        w.ok('prune', cwd=other)
    if after == 'copy':
        d = World(c, name='dst%d' % r.getrandbits(40))
        ids = sorted(model)
        w.ok('copy', '-t', d.repo, *[fmt.name_of(i) for i in ids], cwd=other)
        d.model = {i: model[i] for i in ids}
        d.verify()
    if after == 'twice':
        for _ in range(r.choice([1, 2])):
            p = w.run('backup', *flags, *paths, shim=dict(BPV_SCOPE=scope, BPV_KILL_AT=r.randrange(1, 60), BPV_KILL_MODE=r.choice(['before', 'after', 'partial'])))
            if p.rc not in (0, -9):
                raise Violation('rerunning failed rather than be killed: %s' % p.brief())
            crash.holds(w, may=may, model=model)
    src = paths[0]
    edited = None
    if after == 'edit':
        edited = c.path('edited')
        crash.cp(src, edited)
        tree.mutate(r, src, 3)
        want = tree.source(paths)
    if after == 'less':
        # Something entirely different in the meantime.
        o = os.path.join(c.mkdir('o%d' % r.getrandbits(40)), 'unrelated')
        tree.Gen(r, o, size='tiny')
        i = w.backup([o], '--allow-repeat', '--allow-empty', cwd=cwd)
        model[i] = w.model.pop(i)
    try:
        res = w.run('backup', *flags, *paths, cwd=cwd)
        if res.rc and after == 'forget':
            # A prune elsewhere took packs the interrupted run counts on: it may refuse, saying so.
            c.clean_fail(res)
            crash.holds(w, model=model, may=may)
            c.count('reruns refused after a prune elsewhere')
            for f in os.listdir(cwd):
                os.unlink(os.path.join(cwd, f))
            res = w.run('backup', *flags, *paths, cwd=cwd)
        if res.rc:
            raise Violation('the backup cannot be rerun: %s' % res.brief())
        R, new = crash.holds(w, model=model, may=lambda i, got, R: True)
        if not any(not tree.differences(want, R.entries(R.snaps[i])) for i in new):
            raise Violation('rerunning the backup did not give a snapshot of the sources')
        for i in new:
            if tree.differences(want, R.entries(R.snaps[i])) and not (after == 'edit' and may(i, R.entries(R.snaps[i]), R)):
                raise Violation('a snapshot of something else appeared')
        crash.cwd_ok(cwd, empty=True)
        if cwd == other:
            crash.cwd_ok(w.cwd)
        # Everything keeps working.
        last = max(new, key=lambda i: R.snaps[i].key())
        if r.random() < 0.35:
            w.restored(last, want=want, R=R)
        if r.random() < 0.35:
            w.ok('check', '-r')
        if r.random() < 0.2:
            w.ok(*r.choice([('rebuild-index',), ('prune',)]))
            m = dict(model)
            m.update({i: R.entries(R.snaps[i]) for i in new})
            w.verify(model=m, unindexed=True, leftovers=True)
            w.ok('check')
    finally:
        if edited:
            crash.rm(src)
            os.rename(edited, src)


def run(ctx):
    q = ctx.quick
    parts = 7
    items = [(s, p, parts) for s in range(16 if q else 200) for p in range(parts)]
    off = 0 if q else ctx.seed * 1000
    ctx.cases(scenario, [(s + off, p, n) for s, p, n in items], must=parts * (6 if q else 8))

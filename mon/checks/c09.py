"""C09: forget and filter remove exactly the named snapshots and nothing else."""
import os

import c19
import fmt
import tree
from core import Violation
from ops import History, SKIPS, filtered
from world import World, random_world

LEVEL = 'exploration'
BUDGET = (25, 400)
RULE = ('On repositories of random history and on directly written ones with many snapshots of few trees in hostile orders of time, forget is run with every sort of argument '
        '(IDs, prefixes, LAST~N, repeats, unknown, ambiguous, DUPLICATES) and filter-snapshot with patterns; every file of the repository is fingerprinted with its inode and time '
        'before and after. Distinct: argument kinds with outcomes.')


def whole(w):
    out = {}
    for d, _, fs in os.walk(w.repo):
        for f in fs:
            p = os.path.join(d, f)
            st = os.stat(p)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, w.repo)] = (st.st_ino, st.st_mtime_ns, fmt.sha(fh.read()))
    return out


def snap(i):
    return 'snapshots/%s.snapshot' % fmt.name_of(i)


def removed(w, before, gone, what, r):
    """Exactly these snapshots went."""
    after = whole(w)
    want = {f: v for f, v in before.items() if f not in {snap(i) for i in gone}}
    if after != want:
        raise Violation('%s did not remove exactly %s: %s\n%s' % (what, sorted(fmt.name_of(i)[:8] for i in gone), tree.changed(want, after), r.brief()))
    w.clean_cwd()


def names(r, R, i):
    """Ways to name a snapshot, by kind."""
    order = [s.id for s in R.ordered()]
    n = fmt.name_of(i)
    back = len(order) - 1 - order.index(i)
    k = next(k for k in range(4, 46) if sum(fmt.name_of(j).startswith(n[:k]) for j in order) == 1)
    out = [('id', n), ('prefix', n[:k]), ('longer prefix', n[:r.randrange(k, 45)] if k < 45 else n), ('last~n', '%s~%d' % (r.choice(['LAST', 'HEAD']), back))]
    if back == 0:
        out.append(('last', r.choice(['LAST', 'HEAD'])))
    if back == 1:
        out.append(('last~', r.choice(['LAST~', 'HEAD~'])))
    return r.choice(out)


def forgets(c, w, model):
    r = c.rng
    R = w.open(streams=False)
    order = [s.id for s in R.ordered()]
    before = whole(w)
    kind = r.choice(['named', 'named', 'several', 'bad', 'mixed', 'dup', 'dup', 'repeat', 'dry'])
    dry = ['-n'] if r.random() < 0.15 else []
    bad = ['LAST~%d' % len(order), 'LAST~99999999999999999999', fmt.name_of(r.randbytes(28)), 'abc', '', 'last', 'LAST~-1', 'LAST~~', 'LAST ', 'DUPLICATE', 'zzzz', 'LAST~1x', ' LAST', 'HEAD~ 1', '☃☃']
    if order:
        n = fmt.name_of(order[0])
        bad += [n.upper(), n + '0', n[:44] + ('0' if n[44] != '0' else '1'), n[:3], n[:4] + 'z']
        amb = [fmt.name_of(i)[:4] for i in order if sum(fmt.name_of(j)[:4] == fmt.name_of(i)[:4] for j in order) > 1]
        bad += amb * 3
    if kind in ('named', 'several', 'dry') and order:
        ids = r.sample(order, 1 if kind == 'named' else r.randrange(1, min(5, len(order)) + 1))
        ks = [names(r, R, i) for i in ids]
        if kind == 'dry':
            dry = ['-n']
        res = w.ok('forget', *dry, *[k[1] for k in ks])
        removed(w, before, [] if dry else ids, 'forget %s' % [k[1] for k in ks], res)
        c.see(kind, bool(dry), *sorted({k[0] for k in ks}))
        gone = ids
    elif kind == 'bad':
        args = r.sample(bad, r.choice([1, 1, 2]))
        res = w.fails('forget', *dry, '--', *args)
        removed(w, before, [], 'forget %s' % args, res)
        c.see('bad', *[str(a)[:8] for a in args])
        gone = []
    elif kind == 'mixed' and order:
        ids = r.sample(order, r.randrange(1, min(3, len(order)) + 1))
        args = [fmt.name_of(i) for i in ids] + [r.choice(bad + ['DUPLICATES'])]
        r.shuffle(args)
        res = w.fails('forget', *dry, '--', *args)
        gone = [i for i in order if not os.path.exists(os.path.join(w.repo, snap(i)))]
        # The good ones go, one failed name notwithstanding.
        if set(gone) != (set() if dry else set(ids)):
            raise Violation('forget %s removed %s' % (args, [fmt.name_of(i) for i in gone]))
        removed(w, before, gone, 'forget %s' % args, res)
        c.see('mixed', len(gone))
        dry = []
    elif kind == 'repeat' and order:
        i = r.choice(order)
        a, b = names(r, R, i)[1], names(r, R, i)[1]
        res = w.run('forget', *dry, a, b)
        c.clean_fail(res)
        # Whether naming it twice is an error is not said.
        removed(w, before, [] if dry else [i], 'forget %s %s' % (a, b), res)
        c.see('repeat', res.rc)
        gone = [i]
    elif kind == 'dup':
        gone, last = [], None
        for s in R.ordered():
            if s.tree == last:
                gone.append(s.id)
            last = s.tree
        res = w.ok('forget', *dry, 'DUPLICATES')
        removed(w, before, [] if dry else gone, 'forget DUPLICATES', res)
        c.see('dup', min(len(gone), 3), bool(dry))
    else:
        return
    c.eval()
    if not dry:
        for i in gone:
            model.pop(i, None)


def filters(c, w):
    """Filter-snapshot adds at most one and removes none."""
    r = c.rng
    if not w.model:
        return
    before = whole(w)
    i = r.choice(sorted(w.model))
    R = w.open()
    pats = r.sample(SKIPS, r.choice([1, 2]))
    args = [x for p in pats for x in ('-s', p)]
    snaps = w.snap_files()
    res = w.ok('filter-snapshot', *r.choice([[], ['-k'], ['-a', 'filterer'], ['-t', 'x', '-t', 'y']]), *args, names(r, R, i)[1])
    after = whole(w)
    # (The snapshot it makes may be there already, and be written again.)
    lost = {f: v for f, v in before.items() if after.get(f, (0, 0, 0))[2] != v[2] or after[f] != v and not f.startswith('snap')}
    if lost:
        raise Violation('filter-snapshot changed or removed %s' % sorted(lost))
    want = filtered(w.model[i], pats)
    new = w.note_new(snaps, want, expect_new=False, r=res)
    if new and want == w.model[i]:
        raise Violation('filtering out nothing added a snapshot')
    w.clean_cwd()
    c.eval()
    c.see('filter', bool(new))


def hist(c, item):
    r = c.rng
    w = random_world(c)
    h = History(c, w, ops=['backup', 'rebackup', 'rebackup', 'filter'])
    for _ in range(r.choice([3, 6])):
        h.step()
    for _ in range(r.choice([3, 5, 8])):
        if not w.model:
            h.step('backup')
        if r.random() < 0.25:
            h.step()
        if r.random() < 0.3:
            filters(c, w)
        forgets(c, w, w.model)
    w.verify(unindexed=False)
    if w.model:
        w.restored(r.choice(sorted(w.model)))
    if r.random() < 0.3:
        h.step('prune')
        w.verify()
    c.sample(ops=h.log, steps=c.steps[-6:])


def crafted(c, item):
    """Many snapshots of few trees, at equal, close, reversed and negative times, some sharing the start of their IDs."""
    r = c.rng
    w = World(c)
    x = c19.Writer(w)
    d = c19.meta('d', r, c19.BASE)
    trees = [x.tree({'x': ('d', {'n%d' % k: ('f', b'%d' % k, c19.BASE)}, d)}) for k in range(3)] + [x.tree({})]
    x.flush()
    times = [10 ** 18 + r.choice([0, 0, 1, 2, 10 ** 9]) for _ in range(6)] + [-5, -10 ** 18, 0, 10 ** 18 - 1, 3 * 10 ** 18]
    made = {}
    n = r.choice([3, 8, 20])
    want_pair = r.random() < 0.5
    k = 0
    pre = {}
    while len(made) < n:
        t = r.choice(trees)
        tm = r.choice(times)
        i, data = fmt.make_snapshot(tm, r.choice(['UTC', 'Asia/Tokyo', '-11:00']), 'a%d' % k, r.choice([(), (), ('t',), ('t', 'u')]), r.choice([('/s/x',), ('/s/x',), ('/s/y',), ('/s/x', '/z')]), t)
        k += 1
        if want_pair and len(made) == n - 2 and k < 300000:
            # Some two that begin alike.
            q = fmt.name_of(i)[:4]
            if q in pre and pre[q][0] != i:
                made[pre[q][0]] = pre[q][1]
                made[i] = data
                c.see('alike')
                break
            pre[q] = (i, data)
            continue
        made[i] = data
    for i, data in made.items():
        fmt.put(w.repo, 'snapshot', i, data)
    model = dict.fromkeys(made)
    for _ in range(14):
        forgets(c, w, model)
    left = {fmt.raw_of(s) for s in w.snap_files()}
    if left != set(model):
        raise Violation('snapshots left are %s, should be %s' % (left, set(model)))


def case(c, item):
    (crafted if item[0] == 'crafted' else hist)(c, item)


def run(ctx):
    items = [('crafted', k) for k in range(16)] + [('hist', k) for k in range(20)]
    items += [('hist' if k % 2 else 'crafted', k) for k in range(100, 6000)]
    ctx.cases(case, items, must=30)

"""C17: copy transfers snapshots exactly and sends only what is missing."""
import os

import fmt
import tree
from c03 import listing
from core import Violation
from ops import History, SKIPS, filtered
from world import World, FILTERS, random_world, sources

LEVEL = 'exploration'
BUDGET = (30, 600)
RULE = ('Random source and destination repositories (histories, filters, caches, pack sizes, version-1 and forgotten snapshots, overlapping contents, superseded indexes) and sequences of copies of '
        'random selections with and without skip patterns. After each, both are decoded: the destination has gained just the expected snapshots (facts and contents; ID and tree too when nothing is '
        'skipped), the packs it gained hold just the missing blobs, each once and indexed, and the source is the same to the byte. Restores from the destination are made with the source moved away. Distinct: '
        '(selection, skips, situation, figures).')


def v1(c, w, r):
    """Adds a version-1 snapshot of something already stored."""
    R = w.open(streams=False, leftovers=True)
    s = R.snaps[r.choice(sorted(w.model))]
    text, ns, tz = r.choice([
        ('2020-02-29T12:34:56.789+00:00', 1582979696789000000, None),
        ('2021-11-07T01:30:00.000000001-08:00[America/Los_Angeles]', None, 'America/Los_Angeles'),
        ('1969-12-31T23:59:59.5+00:00', -500000000, None),
        ('2022-07-01T00:00:00+05:30', 1656613800000000000, '+05:30'),
    ])
    i, data = fmt.make_snapshot_v1(text, r.choice(['old author', 'ünï', '']), r.choice([[], ['t1', 'ö2']]), s.paths, s.tree)
    fmt.put(w.repo, 'snapshot', i, fmt.run_filter(w.filt[1], data) if w.filt else data)
    w.model[i] = w.model[s.id]
    return i, ns


def bytes_of(repo):
    out = {}
    for d, _, fs in os.walk(repo):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, repo)] = fh.read()
    return out


def plain(s):
    return (s.author, tuple(s.tags), tuple(s.paths))


def copied(c, w, dst, ids, args, pats, old, **kw):
    """Copies and judges."""
    r = c.rng
    S0, L0 = w.open(streams=False, leftovers=True), bytes_of(w.repo)
    D0 = dst.open(leftovers=True)
    l0 = bytes_of(dst.repo)
    res = w.ok('copy', '-t', dst.repo, *args, **kw)
    if bytes_of(w.repo) != L0:
        raise Violation('the copy changed its source: %s' % tree.changed(L0, bytes_of(w.repo)))
    D = dst.open(leftovers=True)
    D.audit(unindexed=True, stale_indexes=True)
    l1 = bytes_of(dst.repo)
    for f, b in l0.items():
        if l1.get(f) != b:
            raise Violation('the copy changed or removed %s of its destination' % f)
    # The snapshots.
    new = {i: s for i, s in D.snaps.items() if i not in D0.snaps}
    wants = []
    for i in ids:
        s = S0.snaps[i]
        ent = filtered(w.model[i], pats)
        same = ent == w.model[i]
        wants.append((i, s, ent, same))
    used = set()
    for i, s, ent, same in wants:
        hit = None
        for j, t in D.snaps.items():
            if s.version == 2 and same and j != i:
                continue
            if plain(t) != plain(s) or (same and t.tree != s.tree):
                continue
            ns = s.time
            if ns is not None and t.time != ns or (s.version == 2 and t.tz != s.tz):
                continue
            if not same and tree.differences(ent, D.entries(t)):
                continue
            hit = j
            break
        if hit is None:
            near = [tree.differences(ent, D.entries(t)) for t in new.values() if plain(t) == plain(s)]
            raise Violation('snapshot %s %s has no copy with its time, author, tags, paths and contents: %s' % (fmt.name_of(i)[:8], s.facts()[:-1], near[:1]), log=res.stdout[-1500:])
        used.add(hit)
        dst.model[hit] = ent
    extra = set(new) - used
    if extra:
        raise Violation('the copy made snapshots nobody asked for: %s' % [fmt.name_of(i)[:8] for i in extra])
    # The blobs.
    need = set()
    for i in used:
        need |= set(D.reach(D.snaps[i].tree))
    sent = {}
    for p in set(D.packs) - set(D0.packs):
        if p not in D.indexed:
            raise Violation('pack %s was sent but is in no index' % fmt.name_of(p))
        for t, n, b in D.packs[p]:
            sent[b] = sent.get(b, 0) + 1
    had = {b for m in D0.indexed.values() for _, _, b in m}
    for b, n in sent.items():
        if n > 1:
            raise Violation('blob %s was sent %d times' % (fmt.name_of(b), n))
        if b in had:
            raise Violation('blob %s was sent though the destination has it' % fmt.name_of(b))
        if b not in need:
            raise Violation('blob %s was sent though no copied snapshot needs it' % fmt.name_of(b))
    lack = [b for b in need if b not in sent and b not in had]
    if lack:
        raise Violation('%d blobs the copies need are not there' % len(lack))
    if not sent and not new and set(l1) != set(l0):
        raise Violation('a copy of nothing new added %s' % sorted(set(l1) - set(l0))[:4])
    for i in used:
        if D0.snaps.get(i) is None or r.random() < 0.2:
            d = tree.differences(dst.model[i], D.entries(D.snaps[i]))
            if d:
                raise Violation('the copy of snapshot %s differs: %s' % (fmt.name_of(i)[:8], d))
            c.count('snapshot entries compared', len(dst.model[i]))
    dst.clean_cwd(w.cwd)
    c.count('blobs sent', len(sent))
    c.count('blobs needed but there', len([b for b in need if b in had]))
    c.count('copies judged')
    c.see('copy', len(ids), bool(pats), min(len(sent), 12), min(len(new), 4), len([s for s in wants if not s[3]]))
    c.eval()
    return D


def config_skips(c, w, pats):
    """Skips from a configuration file and the command line; returns (keywords, arguments)."""
    r = c.rng
    if r.random() < 0.3:
        p = c.path('conf%d.toml' % r.randrange(10 ** 9))
        k = r.randrange(len(pats) + 1)
        with open(p, 'w') as f:
            f.write('skips = [%s]\n' % ', '.join("'''%s'''" % x for x in pats[:k]))
        return dict(config=p), [a for x in pats[k:] for a in ('-s', x)]
    return {}, [a for x in pats for a in ('-s', x)]


def case(c, item):
    r = c.rng
    w = random_world(c)
    h = History(c, w, ops=['backup'] * 5 + ['rebackup', 'forget', 'prune', 'rebuild', 'filter'])
    old = {}
    for _ in range(r.choice([2, 3, 5, 7])):
        h.step()
    if not w.model:
        h.step('backup')
    if r.random() < 0.35:
        i, ns = v1(c, w, r)
        old[i] = ns
    dst = World(c, name='dst', pack_size=r.choice([None, '4KB', '60KB', '1MB']), filt=r.choice(FILTERS) if r.random() < 0.12 else None, cached=r.random() < 0.2)
    sit = r.choice(['empty', 'same sources', 'subset', 'other', 'pruned'])
    if sit in ('same sources', 'pruned'):
        dst.backup(h.srcs, '--allow-repeat', '--allow-empty')
    if sit in ('other', 'pruned'):
        o = sources(c, n=1, size='tiny')
        dst.backup(o, '--allow-repeat', '--allow-empty')
    if sit == 'pruned':
        i = r.choice(sorted(dst.model))
        dst.ok('forget', fmt.name_of(i))
        del dst.model[i]
        if r.random() < 0.6:
            dst.ok('prune')
    c.see('destination', sit)
    for k in range(r.choice([2, 3, 4])):
        R = w.open(streams=False, leftovers=True)
        order = [s.id for s in R.ordered()]
        ids = r.sample(order, r.randrange(1, len(order) + 1))
        pats = r.sample(SKIPS, r.choice([1, 1, 2])) if r.random() < 0.45 else []
        kw, sk = config_skips(c, w, pats) if pats else ({}, [])
        if r.random() < 0.35:
            ids, sel = order, ['--all']
        else:
            sel = []
            for i in ids:
                n = fmt.name_of(i)
                k2 = next((x for x in range(6, 46) if sum(fmt.name_of(j).startswith(n[:x]) for j in order) == 1), 45)
                sel.append(r.choice([n, n[:k2], 'LAST~%d' % (len(order) - 1 - order.index(i))]))
            if r.random() < 0.1:
                sel.append(sel[0])
        copied(c, w, dst, ids, sk + sel, pats, old, **kw)
        if r.random() < 0.3:
            # Again: nothing is left to be sent.
            l = set(listing(dst.repo))
            copied(c, w, dst, ids, sk + sel, pats, old, **kw)
            if set(listing(dst.repo)) != l:
                raise Violation('copying the same again added files: %s' % (set(listing(dst.repo)) - l))
        if r.random() < 0.4:
            h.step()
            if not w.model:
                h.step('backup')
            old = {i: n for i, n in old.items() if i in w.model}
    # Without the source.
    os.rename(w.repo, w.repo + '-away')
    D = dst.verify(unindexed=True, stale_indexes=True, leftovers=True)
    for i in r.sample(sorted(dst.model), min(2, len(dst.model))):
        dst.restored(i, R=D)
    dst.ok('check', '-r')
    os.rename(w.repo + '-away', w.repo)
    # And on to a third, or back.
    if r.random() < 0.4:
        third = World(c, name='third', pack_size=r.choice(['10KB', None]))
        dst.ok('copy', '-t', third.repo, '--all')
        third.model = dict(dst.model)
        third.verify()
        c.see('third')
    elif r.random() < 0.5 and not old:
        before = set(w.model)
        w.model.update(dst.model)
        dst.ok('copy', '-t', w.repo, '--all')
        w.verify(unindexed=True, stale_indexes=True, leftovers=True)
        c.see('back', len(set(w.model) - before))
    c.sample(destination=sit, snapshots=len(dst.model), steps=c.steps[-6:])


def big(c, item):
    """Large files, small packs, and a destination that has parts of them."""
    r = c.rng
    w = World(c, pack_size=r.choice(['1MB', '3MB']))
    d = c.mkdir('s', 'top')
    a = r.randbytes(9 << 20)
    tree.write(os.path.join(d, 'a'), a)
    tree.write(os.path.join(d, 'b'), a[:5 << 20] + r.randbytes(1000) + a[5 << 20:])
    w.backup([d])
    os.unlink(os.path.join(d, 'a'))
    tree.write(os.path.join(d, 'c'), a + a)
    w.backup([d])
    dst = World(c, name='dst', pack_size=r.choice(['700KB', '40MB']))
    order = [s.id for s in w.open(streams=False).ordered()]
    for i in r.choice([order, order[::-1]]):
        copied(c, w, dst, [i], [fmt.name_of(i)], [], {})
    dst.verify()
    dst.restored(order[1])


def run(ctx):
    ctx.cases(lambda c, i: (big if i[0] == 'big' else case)(c, i), [('big', 0), ('big', 1)] + [('big' if k % 60 == 59 else 'any', k) for k in range(4000)], must=30)

"""C03: every chunk and directory is uploaded only if it is not there yet, and once."""
import os

import fmt
import tree
from core import Violation
from world import World, random_world, sources, freeze_atimes

LEVEL = 'exploration'
BUDGET = (25, 500)
RULE = ('Conservation over recorded histories: after each backup the blobs in the packs it added are compared with (blobs the new snapshot reaches) minus (blobs indexed '
        'before), each once; a repeat of an unchanged tree must leave the repository\'s listing as it was. Sources contain duplicates within and across files, directories, '
        'size classes and snapshots, forgotten ones included, and files holding the bytes of a directory object. Distinct: situations (see `see` calls) that occurred.')
ASSUMES = ['access times are fixed before repeats, since they are part of what is backed up']


def listing(repo):
    out = {}
    for d, _, fs in os.walk(repo):
        for f in fs:
            p = os.path.join(d, f)
            st = os.stat(p)
            out[os.path.relpath(p, repo)] = (st.st_size, st.st_mtime_ns)
    return out


def accounted(c, w, R0, paths, *args, **kw):
    before = set(R0.packs)
    have = set(R0.blobs)
    i = w.backup(paths, '--allow-repeat', '--allow-empty', *args, **kw)
    R = w.open()
    need = R.reach(R.snaps[i].tree)
    sent = {}
    for p in set(R.packs) - before:
        if p not in R.indexed:
            raise Violation('pack %s was uploaded but is in no index' % fmt.name_of(p))
        for t, n, b in R.packs[p]:
            sent[b] = sent.get(b, 0) + 1
    if before - set(R.packs):
        raise Violation('a backup removed packs')
    twice = [fmt.name_of(b) for b, n in sent.items() if n > 1]
    if twice:
        raise Violation('blobs were uploaded more than once in one backup: %s' % twice[:4])
    again = [fmt.name_of(b) for b in sent if b in have]
    if again:
        raise Violation('blobs were uploaded that the repository held: %s' % again[:4])
    extra = [fmt.name_of(b) for b in sent if b not in need]
    if extra:
        raise Violation('blobs were uploaded that the snapshot does not need: %s' % extra[:4])
    missing = [fmt.name_of(b) for b in need if b not in sent and b not in have]
    if missing:
        raise Violation('blobs the snapshot needs were not uploaded: %s' % missing[:4])
    c.count('blobs uploaded', len(sent))
    c.count('blobs reused', len([b for b in need if b in have]))
    c.eval()
    c.see('sent', min(len(sent), 20), 'reused', min(20, len([b for b in need if b in have])))
    return i, R


def repeat(c, w, paths):
    """An unchanged tree."""
    for p in paths:
        freeze_atimes(p)
    R0 = w.open()
    i, R = accounted(c, w, R0, paths)
    one = listing(w.repo)
    w.backup(paths, expect_new=False)
    if listing(w.repo) != one:
        raise Violation('backing up an unchanged tree changed the repository: %s' % tree.changed(one, listing(w.repo)))
    j = w.backup(paths, '--allow-repeat')
    two = listing(w.repo)
    new = set(two) - set(one)
    if {k: two[k] for k in one} != one or len(new) != 1 or not new.pop().startswith('snapshots/'):
        raise Violation('repeating a backup of an unchanged tree with --allow-repeat changed more than one snapshot: %s' % tree.changed(one, two))
    if w.open(streams=False).snaps[j].tree != R.snaps[i].tree:
        raise Violation('an unchanged tree was recorded as another one')
    c.see('repeat', len(paths))
    c.eval(2)


def history(c, item):
    kind, k = item
    r = c.rng
    w = random_world(c)
    srcs = sources(c, size='medium' if kind == 'medium' else None)
    if kind == 'wide':
        for s in srcs:
            tree.widen(r, s)
        repeat(c, w, srcs)
    R = w.open()
    if r.random() < 0.4:
        repeat(c, w, srcs)
        R = w.open()
    for n in range(r.choice([2, 3, 5])):
        what = r.choice(['edit', 'dup', 'other path', 'forget', 'undo', 'rebuild', 'move', 'deref', 'prune'])
        c.see('situation', what)
        ps, kw = srcs, {}
        if what == 'edit':
            for p in ps:
                tree.mutate(r, p, 2)
        elif what == 'dup':
            tree.mutate(r, srcs[0], 3, edits=['dup', 'copydir', 'dup'])
        elif what == 'other path':
            d = c.fresh('other')
            tree.copy(srcs[0], os.path.join(d, 'copied'))
            ps = [os.path.join(d, 'copied')]
        elif what == 'forget' and w.model:
            for i in list(w.model):
                w.ok('forget', fmt.name_of(i))
                del w.model[i]
        elif what == 'rebuild' and w.model:
            w.ok('rebuild-index')
        elif what == 'prune' and w.model:
            w.ok('prune')
        elif what == 'move':
            tree.mutate(r, srcs[0], 3, edits=['movedir', 'rename', 'exchange'])
        R = w.open()
        i, R = accounted(c, w, R, ps, **kw)
    w.verify()
    if r.random() < 0.6:
        repeat(c, w, r.choice([srcs, srcs[:1]]))
        w.verify()
    c.sample(snapshots=len(w.model), blobs=len(R.blobs))


def sizeclass(c, item):
    """The same bytes in mapped and buffered files, in one backup and over several."""
    r = c.rng
    w = World(c, pack_size=r.choice([None, '2MB']))
    d = c.mkdir('s', 'top')
    a = tree.blob_bytes(r, 11 * tree.MI + r.randrange(1000), 'rand')
    order = r.choice([('big', 'small'), ('small', 'big'), ('both',), ('big', 'big2', 'both')])
    for o in order:
        if o in ('big', 'both', 'big2'):
            tree.write(os.path.join(d, 'n' + o), a)
        if o in ('small', 'both'):
            tree.write(os.path.join(d, 'prefix'), a[:9 * tree.MI])
            tree.write(os.path.join(d, 'zz'), a[:10 * tree.MI])
        R = w.open()
        accounted(c, w, R, [d])
    c.see('sizeclass', *order)
    w.verify()
    # All the prefix's chunks but its last are the large file's.
    R = w.open()
    total = sum(n for t, n, b in (e for m in R.packs.values() for e in m) if t == 'chunk')
    if total > len(a) + 4 * 8 * tree.MI:
        raise Violation('%d bytes of chunks are stored for %d bytes of data' % (total, len(a)))


def twin(c, item):
    """A file that holds the very bytes of a directory object."""
    r = c.rng
    base = c.mkdir('b', 'top')
    sub = os.path.join(base, 'a-sub')
    tree.Gen(r, sub, size='tiny', odd=False)
    for p in [base]:
        freeze_atimes(p)
    w0 = World(c, name='probe')
    w0.backup([sub])
    R0 = w0.open()
    s = R0.ordered()[0]
    t = R0.tree(s.tree)['a-sub'][1]
    if t not in R0.blobs:
        return
    body = R0.blob(t)
    first = item[1] % 3
    where = os.path.join(base, ['0-before', 'z-after', 'z-after'][first])
    tree.write(where, body)
    freeze_atimes(base)
    w = World(c, pack_size=r.choice([None, '1KB']))
    if first == 2:
        # The file first, the directory later.
        other = c.mkdir('b2', 'top2')
        tree.write(os.path.join(other, 'f'), body)
        accounted(c, w, w.open(), [other])
    i, R = accounted(c, w, w.open(), [base])
    if R.tree(R.tree(R.snaps[i].tree)['top'][1])['a-sub'][1] != t:
        return      # the times moved; nothing coincided
    c.see('twin', first)
    w.verify()
    w.restored(i)
    w.ok('check', '-r')
    w.ok('rebuild-index')
    w.verify()
    repeat(c, w, [base])
    w.verify()


def any_case(c, item):
    dict(any=history, medium=history, wide=history, sizeclass=sizeclass, twin=twin)[item[0]](c, item)


def run(ctx):
    items = [('sizeclass', 0), ('twin', 0), ('twin', 1), ('twin', 2), ('medium', 0), ('wide', 0), ('wide', 1)] + [('any', k) for k in range(25)]
    for k in range(100, 4000):
        items.append(('sizeclass' if k % 40 == 0 else 'twin' if k % 15 == 0 else 'medium' if k % 11 == 0 else 'wide' if k % 11 == 5 else 'any', k))
    ctx.cases(any_case, items, must=25)

"""C08: prune keeps exactly what snapshots need."""
import os

import fmt
import tree
from core import Violation
from ops import History
from world import random_world, World

LEVEL = 'exploration'
BUDGET = (25, 500)
RULE = ('Random histories with forgets, plus packs of other writers that hold duplicates and junk; before each prune the reachable blobs and wholly used packs are computed '
        'from the decoded repository, afterwards the decoded repository is compared: reachable blobs kept with their bytes, unreachable ones gone, wholly used packs the same '
        'files, all snapshots equal to the model, a second prune changes nothing. Distinct: (packs kept, rewritten, dropped) classes and repository shapes.')


def pack_stat(w):
    out = {}
    d = os.path.join(w.repo, 'packs')
    for f in os.listdir(d):
        st = os.stat(os.path.join(d, f))
        out[fmt.raw_of(f.split('.')[0])] = (st.st_ino, st.st_mtime_ns, st.st_size)
    return out


def whole(w):
    out = {}
    for d, _, fs in os.walk(w.repo):
        for f in fs:
            st = os.stat(os.path.join(d, f))
            out[os.path.relpath(os.path.join(d, f), w.repo)] = (st.st_ino, st.st_mtime_ns, st.st_size)
    return out


def junk_tree(r):
    meta = dict(type='posix', mode=0o100644, size=0, uid=1, gid=1, atime=r.getrandbits(60), mtime=5)
    return fmt.cbor({'junk': fmt.Indef(chunks=[], metadata=meta)})


def foreign(c, w):
    """Adds packs as another writer would have: duplicates of stored blobs, and blobs nobody needs."""
    r = c.rng
    R = w.open()
    if not R.blobs:
        return
    packs = {}
    for kind in ('chunk', 'tree'):
        have = sorted(i for i, (t, n, p, off) in R.blobs.items() if t == kind and p in R.packs and n == len(R.blob(i)) and fmt.sha(R.blob(i)) == i)
        bs = [(kind, R.blob(i)) for i in r.sample(have, r.randrange(0, min(6, len(have)) + 1))]
        if r.random() < 0.6:
            bs.append((kind, fmt.cbor({}) if kind == 'tree' and r.random() < 0.2 else junk_tree(r) if kind == 'tree' else r.randbytes(r.randrange(1, 3000))))
        r.shuffle(bs)
        seen = set()
        bs = [b for b in bs if not (fmt.sha(b[1]) in seen or seen.add(fmt.sha(b[1])))]
        if not bs:
            continue
        i, data, man = fmt.make_pack(bs)
        if w.filt:
            data = fmt.run_filter(w.filt[1], data)
        fmt.put(w.repo, 'pack', i, data)
        packs[i] = man
    if packs:
        i, data = fmt.make_index(packs)
        if w.filt:
            data = fmt.run_filter(w.filt[1], data)
        fmt.put(w.repo, 'index', i, data)
        c.see('foreign', len(packs))


def prune(c, w):
    R0 = w.open()
    need = R0.reach_all()
    used = {p for p, m in R0.indexed.items() if all(i in need for _, _, i in m)}
    partly = {p for p, m in R0.indexed.items() if p not in used and any(i in need for _, _, i in m)}
    stat0 = pack_stat(w)
    all0 = whole(w)
    res = w.ok('prune')
    R1 = w.verify(R=w.open())
    w.clean_cwd()
    stat1 = pack_stat(w)
    for p in used:
        if stat1.get(p) != stat0[p]:
            raise Violation('pack %s was wholly in use but was rewritten or removed' % fmt.name_of(p))
    have = {i for m in R1.packs.values() for _, _, i in m}
    for i in need:
        if i not in R1.blobs:
            raise Violation('blob %s is needed and gone' % fmt.name_of(i))
    need1 = R1.reach_all()
    junk = [fmt.name_of(i) for i in have if i not in need1]
    if junk:
        raise Violation('blobs no snapshot needs are still stored after a prune: %s' % junk[:4])
    # What was moved is stored once.
    moved = {}
    for p in set(R1.packs) - set(R0.packs):
        for _, _, i in R1.packs[p]:
            moved[i] = moved.get(i, 0) + 1
            if any(i == j for q in used for _, _, j in R0.indexed[q]):
                raise Violation('blob %s was stored again though a pack in use holds it' % fmt.name_of(i))
    if any(n > 1 for n in moved.values()):
        raise Violation('blobs were stored twice by a prune')
    if used == set(R0.indexed) and all0 != whole(w):
        raise Violation('a prune with nothing to do changed the repository')
    c.see('prune', min(len(used), 3), min(len(partly), 3), min(len(R0.indexed) - len(used) - len(partly), 3))
    c.count('prunes')
    c.count('packs kept', len(used))
    c.count('packs rewritten', len(partly))
    c.count('packs dropped', len(R0.indexed) - len(used) - len(partly))
    c.eval()
    one = whole(w)
    w.ok('prune')
    if whole(w) != one:
        raise Violation('pruning again changed the repository: %s' % tree.changed(one, whole(w)))
    return res


def thinned(c, w, src):
    """Packs of very many blobs of which a few, most or all but one stay in use."""
    r = c.rng
    t = tree.widen(r, src, r.choice([80, 210, 300, 600]))
    w.backup([src])
    fs = sorted(os.listdir(t))
    for f in r.sample(fs, r.choice([1, 2, len(fs) // 2, len(fs) - 1])):
        os.unlink(os.path.join(t, f))
    w.backup([src])
    first = [s.id for s in w.open(streams=False).ordered()][0]
    w.ok('forget', fmt.name_of(first))
    del w.model[first]
    c.see('thinned', len(fs), len(os.listdir(t)) * 10 // len(fs))
    prune(c, w)


def hist(c, item):
    kind, k = item
    r = c.rng
    w = random_world(c)
    h = History(c, w, size='medium' if kind == 'medium' else None, ops=['backup'] * 5 + ['rebackup', 'filter', 'forget', 'forget', 'forgetdup', 'rebuild'])
    if kind == 'wide':
        thinned(c, w, h.srcs[0])
    for _ in range(r.choice([1, 2, 3])):
        for _ in range(r.choice([2, 4, 6])):
            h.step()
        if r.random() < 0.3:
            foreign(c, w)
        if r.random() < 0.3 and w.model:
            h.step('forget')
        prune(c, w)
    if w.model:
        w.restored(r.choice(sorted(w.model)))
    if r.random() < 0.4:
        w.ok('check', '-r')
    if w.model and r.random() < 0.3:
        # Down to nothing.
        w.ok('forget', *[fmt.name_of(i) for i in w.model])
        w.model.clear()
        prune(c, w)
        c.see('pruned to nothing')
    h.step('backup')
    w.verify()
    c.sample(ops=h.log)


def run(ctx):
    items = [('medium', 0), ('wide', 0), ('wide', 1), ('wide', 2)] + [('any', k) for k in range(30)]
    items += [('wide' if k % 10 == 5 else 'any' if k % 15 else 'medium', k) for k in range(100, 5000)]
    ctx.cases(hist, items, must=25)

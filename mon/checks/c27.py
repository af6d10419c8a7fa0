"""C27: rebuilt indexes describe exactly the packs that exist."""
import os

import fmt
import tree
from core import Violation
from ops import History
from world import random_world
import c08

LEVEL = 'exploration'
BUDGET = (25, 400)
RULE = ('Repositories of random history are put into hostile index states (none, some removed, superseded chains, indexes naming packs that are gone, packs no index names, '
        'duplicate listings, damaged indexes removed, packs removed that no snapshot needs); rebuild-index runs; the decoded result must be one index listing exactly the packs '
        'there with exactly their manifests, all old indexes gone, all snapshots as in the model. Distinct: index states that occurred.')


def idx_dir(w):
    return os.path.join(w.repo, 'indexes')


def enc(w, data):
    return fmt.run_filter(w.filt[1], data) if w.filt else data


def upset(c, w):
    r = c.rng
    did = []
    for _ in range(r.choice([1, 1, 2, 3])):
        R = fmt.open_repo(w.repo)
        what = r.choice(['none', 'some', 'chain', 'stale', 'foreign', 'merge', 'unindexed', 'nothing', 'lost', 'corrupt listing', 'drop pack'])
        ids = sorted(R.indexes)
        if what == 'none':
            for i in ids:
                os.unlink(os.path.join(idx_dir(w), fmt.name_of(i) + '.index'))
        elif what == 'some' and ids:
            for i in r.sample(ids, r.randrange(1, len(ids) + 1)):
                os.unlink(os.path.join(idx_dir(w), fmt.name_of(i) + '.index'))
        elif what == 'chain' and ids:
            # An index that replaces others which were not removed yet.
            sup = r.sample(ids, r.randrange(1, len(ids) + 1))
            packs = {}
            for i in sup:
                for p, m in R.indexes[i][1].items():
                    packs[p] = [dict(type=t, length=n, id=b) for t, n, b in m]
            i, data = fmt.make_index(packs, sup)
            fmt.put(w.repo, 'index', i, enc(w, data))
        elif what == 'stale':
            # Names a pack that is not there.
            g, _, man = fmt.make_pack([('chunk', r.randbytes(20))])
            i, data = fmt.make_index({g: man})
            fmt.put(w.repo, 'index', i, enc(w, data))
        elif what == 'foreign':
            c08.foreign(c, w)
        elif what == 'merge' and R.packs:
            ps = r.sample(sorted(R.packs), r.randrange(1, len(R.packs) + 1))
            i, data = fmt.make_index({p: [dict(type=t, length=n, id=b) for t, n, b in R.packs[p]] for p in ps})
            fmt.put(w.repo, 'index', i, enc(w, data))
        elif what == 'unindexed':
            g, d, man = fmt.make_pack([('chunk', r.randbytes(200)), ('chunk', b'x' * r.randrange(1, 50))])
            fmt.put(w.repo, 'pack', g, enc(w, d))
        elif what == 'corrupt listing' and R.packs:
            # An index that lists a pack's blobs wrongly.
            p = r.choice(sorted(R.packs))
            m = [dict(type=t, length=n, id=b) for t, n, b in R.packs[p]]
            m[r.randrange(len(m))]['length'] += 1
            i, data = fmt.make_index({p: m}, ids if r.random() < 0.5 else ())
            fmt.put(w.repo, 'index', i, enc(w, data))
        elif what == 'drop pack':
            # A pack no snapshot needs is lost.
            try:
                need = R.reach_all() if all(i in R.blobs for s in R.snaps.values() for i in [s.tree]) else None
            except Violation:
                need = None
            if need is None:
                continue
            free = [p for p, m in R.packs.items() if not any(b in need for _, _, b in m)]
            if not free:
                continue
            os.unlink(os.path.join(w.repo, 'packs', fmt.name_of(r.choice(free)) + '.pack'))
        else:
            continue
        did.append(what)
    return did


def rebuild(c, w):
    R0 = fmt.open_repo(w.repo, streams=False)
    snaps = {f: open(os.path.join(w.repo, 'snapshots', f), 'rb').read() for f in os.listdir(os.path.join(w.repo, 'snapshots'))}
    packs = c08.pack_stat(w)
    dry = w.ok('rebuild-index', '-n')
    R = fmt.open_repo(w.repo, streams=False)
    if R.indexes != R0.indexes:
        raise Violation('a dry run changed the indexes')
    w.ok('rebuild-index')
    R = w.verify(R=w.open())
    w.clean_cwd()
    if len(R.indexes) != 1:
        raise Violation('%d indexes are there after rebuild-index' % len(R.indexes))
    (sup, listed), = R.indexes.values()
    if listed != R0.packs:
        raise Violation('the rebuilt index lists other packs than there are: %s' % [fmt.name_of(p) for p in set(listed) ^ set(R0.packs)])
    if c08.pack_stat(w) != packs:
        raise Violation('rebuild-index changed packs')
    if {f: open(os.path.join(w.repo, 'snapshots', f), 'rb').read() for f in os.listdir(os.path.join(w.repo, 'snapshots'))} != snaps:
        raise Violation('rebuild-index changed snapshots')
    c.count('indexes rebuilt')
    c.count('packs listed', len(listed))
    c.eval()
    w.ok('rebuild-index')
    R2 = w.open(streams=False)
    if len(R2.indexes) != 1 or list(R2.indexes.values())[0][1] != R0.packs:
        raise Violation('rebuilding again lists something else')
    c.eval()


def hist(c, item):
    kind, k = item
    r = c.rng
    w = random_world(c)
    h = History(c, w, size='medium' if kind == 'medium' else None, ops=['backup'] * 5 + ['rebackup', 'filter', 'forget', 'prune'])
    for _ in range(r.choice([1, 2])):
        for _ in range(r.choice([1, 3, 5])):
            h.step()
        if not w.open(streams=False).packs:
            h.step('backup')
        if not w.open(streams=False).packs:
            continue
        did = upset(c, w)
        for d in did:
            c.see('state', d)
        c.see('states', ' '.join(sorted(did)))
        rebuild(c, w)
    if w.model and r.random() < 0.5:
        w.ok('check', '-r')
        w.restored(r.choice(sorted(w.model)))
    h.step('backup')
    if r.random() < 0.3:
        w.ok('prune')
    w.verify()
    c.sample(ops=h.log)


def empty(c, item):
    """No pack at all: nothing to index, and nothing may be lost."""
    w = random_world(c)
    w.fails('rebuild-index')
    w.clean_cwd()
    w.verify()
    c.eval()


def any_case(c, item):
    (empty if item[0] == 'empty' else hist)(c, item)


def run(ctx):
    items = [('medium', 0), ('empty', 0)] + [('any', k) for k in range(30)]
    items += [('any' if k % 15 else 'medium', k) for k in range(100, 5000)]
    ctx.cases(any_case, items, must=25)

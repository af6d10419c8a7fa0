"""C02: after every command all repository files are well-formed, rightly named and closed under reference."""
import os

import fmt
import tree
from core import Violation
from ops import History
from world import random_world, sources

LEVEL = 'exploration'
BUDGET = (25, 600)
RULE = ('Random histories of backup, forget, prune, rebuild-index, filter-snapshot and copy in repositories of random configuration. After each command a decoder '
        'written from the format documentation reads every file and checks magic, names, blob hashes, lengths, types, index closure and reachability, and that nothing else '
        'is left in the repository or the working directory. Distinct: operations, configurations, edits and (operation, previous operation) pairs seen.')


def hist(c, item):
    kind, k = item
    r = c.rng
    w = random_world(c)
    h = History(c, w, size='medium' if kind == 'medium' else None)
    prev = '-'
    for _ in range(r.choice([4, 8, 12])):
        op = h.step()
        c.see('pair', prev, op)
        prev = op
        # Unreferenced packs are all indexed, or gone.
        R = w.verify()
        w.clean_cwd()
        if h.dst:
            h.dst.verify()
            c.count('repositories audited')
        c.count('repositories audited')
        c.count('objects decoded', len(R.packs) + len(R.indexes) + len(R.snaps))
        c.count('blobs hashed', sum(map(len, R.packs.values())))
        types(R)
        c.eval()
    if r.random() < 0.5:
        w.ok('check', '-r')
    c.sample(ops=h.log, packs=len(R.packs), snapshots=len(R.snaps))


def types(R):
    """Chunks and directories are in packs of their own kind, and listed as what they are used as."""
    need = R.reach_all()
    for i, t in need.items():
        have = R.types.get(i, set())
        if t == 'both':
            continue
        if t not in have:
            raise Violation('blob %s is used as a %s but listed as %s' % (fmt.name_of(i), t, have))


def run(ctx):
    items = [('medium', 0)] + [('any', k) for k in range(30)]
    items += [('any' if k % 15 else 'medium', k) for k in range(100, 5000)]
    ctx.cases(hist, items, must=25)

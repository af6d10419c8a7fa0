"""Random histories of operations on a repository, with what each snapshot then has to hold."""
import os
import re
import time

import fmt
import tree
from core import Violation
from world import World, sources

SKIPS = [r'\.hidden', r'foo', r'/n[0-9]', r'a$', r'[0-9]$', r'^[^/]+/[a-z]$', r'é', r'(?:/|^)sub/', r'\.bar$', 'nothing-matches-this', r'[A-Z]', r'/[^/]*b[^/]*$', r'n[0-4]']


def filtered(entries, pats):
    """The entries left when all that match, and all below them, are dropped."""
    out = {}
    dropped = []
    rs = [re.compile(p) for p in pats]
    for p in sorted(entries, key=lambda p: p.split('/')):
        parts = p.split('/')
        if any('/'.join(parts[:k]) in dropped for k in range(1, len(parts))):
            dropped.append(p)
            continue
        if any(x.search(p) for x in rs):
            dropped.append(p)
        else:
            out[p] = entries[p]
    return out


class History:
    """Runs random operations. `after(op)` is called after each, with everything in its place."""

    OPS = ['backup'] * 6 + ['rebackup'] * 2 + ['forget'] * 3 + ['forgetdup'] + ['prune'] * 2 + ['rebuild'] + ['filter'] * 2 + ['copy'] * 2

    def __init__(self, c, w, srcs=None, ops=None, size=None):
        self.c, self.w, self.r = c, w, c.rng
        self.ops = ops or self.OPS
        self.srcs = srcs or sources(c, size=size)
        self.sets = [self.srcs] + ([[self.srcs[0]]] if len(self.srcs) > 1 else [])
        self.dst = None
        self.dirty = False      # whether something unreferenced may be stored
        self.log = []

    def order(self):
        R = self.w.open(streams=False, leftovers=True)
        return [s.id for s in R.ordered()]

    def step(self, op=None):
        op = op or self.r.choice(self.ops)
        w, r = self.w, self.r
        if not w.model and op not in ('prune', 'forgetdup', 'copy'):
            op = 'backup'
        if op in ('prune', 'rebuild') and not w.model:
            op = 'backup'
        getattr(self, 'do_' + op)()
        self.log.append(op)
        self.c.see('op', op)
        self.c.count('operations')
        return op

    def do_backup(self):
        r = self.r
        ps = r.choice(self.sets)
        for p in ps:
            if os.path.isdir(p) and self.w.model:
                for e in tree.mutate(r, p, r.choice([1, 1, 3])):
                    self.c.see('edit', e)
        args = []
        if r.random() < 0.2:
            args += ['-a', r.choice(['someone', 'ünï author', ''])]
        for _ in range(r.choice([0, 0, 1, 2])):
            args += ['-t', r.choice(['tag', 'täg', 'two words', 'x'])]
        self.w.backup(ps, '--allow-repeat', '--allow-empty', *args)

    def do_rebackup(self):
        self.w.backup(self.r.choice(self.sets), '--allow-repeat', '--allow-empty')

    def do_forget(self):
        ids = self.r.sample(sorted(self.w.model), self.r.randrange(1, min(3, len(self.w.model)) + 1))
        self.w.ok('forget', *[fmt.name_of(i) for i in ids])
        for i in ids:
            del self.w.model[i]
        self.dirty = True

    def do_forgetdup(self):
        R = self.w.open(streams=False, leftovers=True)
        self.w.ok('forget', 'DUPLICATES')
        last = None
        for s in R.ordered():
            if s.tree == last:
                del self.w.model[s.id]
            last = s.tree

    def do_prune(self):
        self.w.ok('prune')
        self.dirty = False

    def do_rebuild(self):
        self.w.ok('rebuild-index')

    def do_filter(self):
        pats = self.r.sample(SKIPS, self.r.choice([1, 1, 2]))
        i = self.r.choice(sorted(self.w.model))
        keep = self.r.random() < 0.5
        want = filtered(self.w.model[i], pats)
        before = self.w.snap_files()
        args = []
        for p in pats:
            args += ['-s', p]
        res = self.w.ok('filter-snapshot', *(['-k'] if keep else []), *args, fmt.name_of(i))
        same = want == self.w.model[i]
        new = self.w.note_new(before, want, expect_new=not same and not keep, r=res)
        if not same and not new:
            # It may have been filtered the same way before.
            R = self.w.open(streams=False, leftovers=True)
            f = R.snaps[i].facts()[:-1]
            if not any(R.snaps[j].facts()[:-1] == f and m == want for j, m in self.w.model.items() if j != i):
                raise Violation('filtering added no snapshot: %s' % res.brief())
        if same and new:
            raise Violation('filtering out nothing added a snapshot: %s' % res.brief())

    def do_copy(self):
        if self.dst is None:
            self.dst = World(self.c, name='dst%d' % self.r.getrandbits(30), pack_size=self.r.choice([None, '30KB', '1MB']))
        if not self.w.model:
            return
        ids = self.r.sample(sorted(self.w.model), self.r.randrange(1, min(3, len(self.w.model)) + 1))
        R = self.w.open(streams=False, leftovers=True)
        self.w.ok('copy', '-t', self.dst.repo, *[fmt.name_of(i) for i in ids])
        for i in ids:
            self.dst.model[v2_id(R.snaps[i])] = self.w.model[i]


def v2_id(s):
    """The ID a snapshot has when it is written again (same as before unless it was of an old version)."""
    if s.version == 2:
        return s.id
    raise NotImplementedError

"""C01: what was backed up is what is restored."""
import os

import fmt
import tree
from core import Violation
from world import World, random_world, sources

LEVEL = 'exploration'
BUDGET = (30, 600)
RULE = ('Each case makes hostile source trees (odd names, edge sizes, modes, times, links, duplicates), backs them up several times with edits and other backups '
        'between, restores every snapshot with backpak into empty places, over stale copies and in place, and compares names, kinds, bytes, link targets, modes and '
        'times with what the file system held at backup time. Distinct: configurations, tree sizes, edits and restore ways that occurred.')
ASSUMES = ['Python\'s view of the file system is right', 'entries are readable by the user backing them up and stale copies writable']


def writable(root):
    for d, dirs, files in os.walk(root):
        os.chmod(d, 0o755)
        for f in files:
            p = os.path.join(d, f)
            if not os.path.islink(p):
                os.chmod(p, 0o644)


def history(c, item):
    kind, k = item
    r = c.rng
    w = random_world(c, small_packs=kind != 'big')
    n = r.choice([1, 1, 2, 3]) if kind != 'big' else 1
    srcs = sources(c, n, size=kind if kind in ('big', 'medium') else None, special=r.random() < 0.2)
    sets = [srcs]
    if n > 1:
        sets.append([r.choice(srcs)])
    if r.random() < 0.3:
        one = os.path.join(os.path.dirname(srcs[0]), 'single file')
        tree.write(one, tree.blob_bytes(r, r.choice([0, 10, 100000])))
        sets.append([one])
    if r.random() < 0.3:
        sets.append(sources(c, 1, size='small'))
    rounds = r.choice([1, 2, 3, 4]) if kind != 'big' else 2
    order = []
    for i in range(rounds):
        ps = r.choice(sets) if i else srcs
        if i:
            for p in ps:
                if os.path.isdir(p):
                    for e in tree.mutate(r, p, r.choice([1, 2, 5])):
                        c.see('edit', e)
        deref = False
        s = w.backup(ps, '--allow-repeat', deref=deref)
        order.append((s, ps))
        if r.random() < 0.15:
            w.ok('prune')
        if r.random() < 0.1:
            w.ok('rebuild-index')
    R = w.verify()
    w.clean_cwd()
    for s, ps in order:
        flags = r.choice([('-t', '-p'), ('-t', '-p'), ('-d', '-t', '-p'), ('-t',), ('-p',), ()])
        c.see('restore', 'fresh', ' '.join(flags))
        w.restored(s, flags=flags, R=R)
        c.eval()
    # Over a stale copy of another snapshot of the same paths.
    for s, ps in order:
        others = [t for t, qs in order if qs == ps and t != s]
        if not others or not os.path.isdir(ps[0]):
            continue
        out = c.fresh('stale')
        if not all(os.path.isdir(p) for p in ps):
            continue
        w.restored(r.choice(others), into=out, R=R)
        writable(out)
        if r.random() < 0.3:
            tree.mutate(r, out, 3) if len(ps) == 1 else None
            writable(out)
        shared = tree.hardlinked(out)
        w.restored(s, flags=('-d', '-t', '-p'), into=out, R=R, mode=not shared, mtime=not shared)
        c.see('restore', 'stale')
        c.eval()
        tree.wipe(out)
    # In place.
    s, ps = r.choice(order)
    if all(os.path.isdir(p) for p in ps):
        for p in ps:
            if r.random() < 0.2:
                tree.wipe(p)
                c.see('restore', 'in place of nothing')
            else:
                tree.mutate(r, p, 4)
                writable(p)
        # Metadata of files that share an inode is set through whichever comes last.
        shared = any(os.path.isdir(p) and tree.hardlinked(p) for p in ps)
        w.ok('restore', '-d', '-t', '-p', fmt.name_of(s))
        d = tree.differences(w.model[s], tree.source(ps), mode=not shared, mtime=not shared)
        if d:
            raise Violation('snapshot %s restored in place differs: %s' % (fmt.name_of(s), d))
        c.see('restore', 'in place')
        c.eval()
    # What was restored can be backed up again with the same result.
    c.sample(paths=srcs, snapshots=len(order), entries=len(w.model[order[0][0]]), first=sorted(w.model[order[0][0]])[:4])


def run(ctx):
    q = ctx.quick
    items = [('big', 0), ('medium', 0), ('medium', 1)] + [('any', k) for k in range(30)] + [('big', 1)]
    items += [('any' if k % 12 else ('big' if k % 24 else 'medium'), k) for k in range(100, 5000)]
    ctx.cases(history, items, must=30)

"""C32: packs are filled to the configured size, by kind, with nothing lost or doubled."""
import os

import fmt
import tree
from core import Violation
from ops import History
from world import World

LEVEL = 'exploration'
BUDGET = (25, 400)
RULE = ('Backups, copies and prunes of data of known compressibility into repositories with pack sizes from 1 KB to 30 MB; each command\'s new packs are decoded: one kind of '
        'blob per pack, at most one pack per kind and command below the configured size, incompressible packs no larger than it plus one blob and overhead (evenly compressible ones, than a quarter more), manifests in stream '
        'order with right lengths, blobs in exactly one of the new packs. Distinct: (size, data kind, packs per command) seen.')

SIZES = [('1KB', 1000), ('20KB', 20000), ('300KB', 300000), ('1MB', 10 ** 6), ('3MB', 3 * 10 ** 6), ('30MB', 3 * 10 ** 7), (None, 10 ** 8)]


def judge(c, w, before, target, incompressible, op, noise=()):
    R = w.open()
    new = sorted(set(R.packs) - set(before))
    small = {}
    seen = set()
    for p in new:
        m = R.packs[p]
        kinds = {t for t, _, _ in m}
        if len(kinds) != 1:
            raise Violation('pack %s of %s holds %s' % (fmt.name_of(p), op, kinds))
        k = kinds.pop()
        size = R.sizes['packs/%s.pack' % fmt.name_of(p)]
        if size < target:
            small[k] = small.get(k, 0) + 1
        if small.get(k, 0) > 1:
            raise Violation('%s left more than one %s pack below the size of %d' % (op, k, target))
        body = sum(n for _, n, _ in m)
        last = m[-1][1]
        if k == 'chunk' and (incompressible or all(i in noise for _, _, i in m)):
            c.count('incompressible packs judged')
            # Its stream before the last blob was short of the target, or it would have been closed.
            over = len(m) * 40 + body // 200 + 3000
            if size > target + last + over:
                raise Violation('pack %s has %d bytes, its last blob %d, at a pack size of %d' % (fmt.name_of(p), size, last, target))
            if size > target and body - last > target + over:
                raise Violation('pack %s went on after reaching its size: %d bytes before its last blob' % (fmt.name_of(p), body - last))
        for _, n, i in m:
            if i in seen:
                raise Violation('blob %s is in two new packs of one %s' % (fmt.name_of(i), op))
            seen.add(i)
    c.count('packs judged', len(new))
    c.count('blobs in them', len(seen))
    c.see(op, target, incompressible, min(len(new), 8))
    c.eval()
    return R


def phases(c, item):
    """Stretches of data that compress well, hardly, and not at all, one after the other."""
    r = c.rng
    name, target = r.choice(SIZES[1:4])
    w = World(c, pack_size=name)
    d = c.mkdir('s', 'top')
    noise = set()
    n = 0
    for _ in range(r.choice([2, 3, 4])):
        kind = 'low' if not n else r.choice(['rand', 'rand', 'rep', 'low', 'text'])
        many = r.choice([6, 14]) * (2 if kind == 'rand' else 1)
        for _ in range(many):
            s = int(target * r.choice([0.1, 0.2, 0.4])) if kind == 'rand' else min(500000, int(target * r.choice([0.5, 1, 2])))
            if kind == 'rand':
                b = r.randbytes(s)
            else:
                # About as compressible as wanted, and never the same twice.
                x = {'rep': 64, 'low': 24, 'text': 3}[kind]
                b = b''.join(u * x for u in (r.randbytes(40) for _ in range(s // (40 * x) + 1)))
            if len(b) < 500000 and kind == 'rand':
                noise.add(fmt.sha(b))
            os.makedirs(os.path.join(d, 'p%02d' % (n // 40)), exist_ok=True)
            tree.write(os.path.join(d, 'p%02d' % (n // 40), 'f%04d' % n), b)
            n += 1
    w.backup([d])
    judge(c, w, {}, target, False, 'phased backup', noise)
    dst = World(c, name='dst', pack_size=name)
    w.ok('copy', '--all', '-t', dst.repo)
    judge(c, dst, {}, target, False, 'phased copy', noise)
    c.sample(pack_size=name, files=n, noise=len(noise))


def even(c, item):
    """Data that compresses to half everywhere: the size to come can be foreseen, and packs must not go far beyond theirs."""
    r = c.rng
    name, target = r.choice([('300KB', 300000), ('700KB', 700000), ('1MB', 10 ** 6)])
    w = World(c, pack_size=name)
    d = c.mkdir('s', 'top')
    left, n = target * r.choice([5, 7.5, 11]), 0
    while left > 0:
        s = r.randrange(target // 40, target // 8)
        tree.write(os.path.join(d, 'f%04d' % n), r.randbytes(s // 2).hex().encode())
        left -= s
        n += 1
    w.backup([d])
    dst = World(c, name='dst', pack_size=name)
    w.ok('copy', '--all', '-t', dst.repo)
    for x, op in ((w, 'backup'), (dst, 'copy')):
        R = judge(c, x, {}, target, False, 'even ' + op)
        for p, m in R.packs.items():
            size = R.sizes['packs/%s.pack' % fmt.name_of(p)]
            if m[0][0] == 'chunk' and size > 1.25 * target + m[-1][1]:
                raise Violation('an even %s made a pack of %d bytes, its last blob %d, at a pack size of %d' % (op, size, m[-1][1], target))
            c.count('evenly compressible packs judged')
    c.sample(pack_size=name, files=n)


def case(c, item):
    if item[0] == 'phases':
        return phases(c, item)
    if item[0] == 'even':
        return even(c, item)
    kind, k = item
    r = c.rng
    name, target = SIZES[k % len(SIZES)]
    w = World(c, pack_size=name)
    d = c.mkdir('s', 'top')
    inc = kind == 'rand'
    total = r.choice([10 ** 5, 10 ** 6, 6 * 10 ** 6]) if kind != 'big' else 45 * 10 ** 6
    if target >= 3 * 10 ** 7 and kind != 'big':
        total = 4 * 10 ** 6
    inc = inc or kind == 'big'
    n = 0
    while total > 0:
        s = min(total, r.choice([r.randrange(1, 2000), r.randrange(1, 40000), r.randrange(1, 500000)] + ([r.randrange(1, 12 * 10 ** 6)] if total > 10 ** 6 else [])))
        sub = os.path.join(d, 'd%d' % (n % 7), 'e%d' % (n % 3))
        os.makedirs(sub, exist_ok=True)
        tree.write(os.path.join(sub, 'f%d' % n), tree.blob_bytes(r, s, 'rand' if inc else r.choice(['text', 'zero', 'rep', 'low', 'rand'])))
        total -= s
        n += 1
        if n > 400:
            break
    before = w.open(streams=False).packs
    i = w.backup([d])
    R = judge(c, w, before, target, inc, 'backup')
    w.verify(R=R)
    # Many small directories as well.
    if r.random() < 0.5:
        for x in range(r.choice([30, 150])):
            sub = os.path.join(d, 'many', 'm%d' % x)
            os.makedirs(sub)
            tree.write(os.path.join(sub, 'only'), r.randbytes(30))
        before = R.packs
        w.backup([d])
        R = judge(c, w, before, target, inc, 'second backup')
    dname, dt = r.choice([('7KB', 7000), ('200KB', 200000), (name, target)])
    dst = World(c, name='dst', pack_size=dname)
    w.ok('copy', '--all', '-t', dst.repo)
    dst.model = dict(w.model)
    judge(c, dst, {}, dt, inc, 'copy')
    dst.verify()
    # Make holes, then repack.
    if len(w.model) > 1 or r.random() < 0.8:
        tree.mutate(r, d, 12, edits=['delete', 'rewrite', 'deldir', 'newfile'])
        w.backup([d])
        old = [x for x in w.model if x != max(w.model, key=lambda x: w.open(streams=False).snaps[x].key())]
        w.ok('forget', *[fmt.name_of(x) for x in old])
        for x in old:
            del w.model[x]
        before = w.open(streams=False).packs
        w.ok('prune')
        R = judge(c, w, before, target, inc, 'prune')
        w.verify(R=R)
    c.sample(pack_size=name, files=n, packs=len(R.packs))


def run(ctx):
    items = [('phases', k) for k in range(6)] + [('even', k) for k in range(3)] + [('rand', k) for k in range(7)] + [('mixed', k) for k in range(7)] + [('big', 5)]
    items += [(('rand', 'mixed', 'rand', 'big')[k % 4] if k % 20 == 3 else ('rand', 'mixed', 'phases', 'even')[k % 4], k) for k in range(100, 3000)]
    ctx.cases(case, items, must=24)

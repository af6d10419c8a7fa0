"""C04: how files are cut into chunks."""
import hashlib
import json
import os

import core
import fmt
import tree
from checks.c24 import cpus, probe
from core import Violation
from world import World

LEVEL = 'exploration'
BUDGET = (40, 500)
NEEDS = ['main', 'probe', 'probe-tsan']
MIN, MAX = 512 << 10, 8 << 20
RULE = ('Files of every kind (random, constant, periodic, text, sparse, mixed) and of lengths around every chunk bound and around the size from which files are mapped are chunked by the library (alone, among others, by several threads, '
        'iterators abandoned half-way, under ThreadSanitizer) and by whole backups. Chunks in order must be the file, each ID the SHA-224 of its bytes, sizes within 512 KiB and 8 MiB but for the last, the cuts those FastCDC makes of '
        'these bytes alone, equal to IDs recorded once for fixed contents, equal whatever the size class and neighbours; after edits (overwrite, insert, delete) chunks that end before the edit stay and the cuts meet again. '
        'Distinct: (content, length class, edit).')
GOLDEN = os.path.join(core.VERIF, 'mon', 'golden_chunks.json')
EDGE = [0, 1, 2, 63, 64, 65, 4096, MIN - 1, MIN, MIN + 1, 1 << 20, (1 << 20) + 1, 2 * MIN + 1, MAX - 1, MAX, MAX + 1, (10 << 20) - 1, 10 << 20, (10 << 20) + 1, 2 * MAX, 2 * MAX + 1]


def content(r, kind, n):
    if kind == 'random':
        return r.randbytes(n)
    if kind == 'zeros':
        return bytes(n)
    if kind == 'constant':
        return bytes([r.randrange(256)]) * n
    if kind == 'periodic':
        p = r.randbytes(r.choice([2, 3, 7, 64, 1000, 4096, 70000]))
        return (p * (n // len(p) + 1))[:n]
    if kind == 'text':
        words = [('%x' % r.getrandbits(r.choice([4, 12, 24]))).encode() for _ in range(500)]
        one = b' '.join(r.choice(words) for _ in range(20000)) + b'\n'
        two = b' '.join(r.choice(words) for _ in range(20000)) + b'\n'
        return b''.join(r.choice([one, two, one[r.randrange(5000):]]) for _ in range(n // 40000 + 2))[:n].ljust(n, b'.')
    # mixed
    out, left = [], n
    while left > 0:
        k = min(left, r.choice([1, 100, 70000, 700000, 3000000, 9000000]))
        out.append(r.choice([r.randbytes(k), bytes(k), b'\xff' * k]))
        left -= k
    return b''.join(out)


def fixed(name, n):
    """The same bytes wherever and whenever: SHAKE-128 of a name."""
    return hashlib.shake_128(name.encode()).digest(n)


def write(c, data, where=None, name='f'):
    p = os.path.join(where or c.fresh('in'), name)
    with open(p, 'wb') as f:
        # Some with holes.
        if c.rng.random() < 0.3 and not any(data[:4096]) and len(data) > 4096:
            f.seek(4096)
            f.write(data[4096:])
            f.truncate(len(data))
        else:
            f.write(data)
    return p


def judge(data, chunks, what):
    """chunks: [(length, id name)]"""
    at = 0
    for k, (n, i) in enumerate(chunks):
        if n > MAX or n < 1 or n < MIN and k != len(chunks) - 1:
            raise Violation('%s: chunk %d of %d has %d bytes' % (what, k, len(chunks), n))
        if fmt.name_of(fmt.sha(data[at:at + n])) != i:
            raise Violation('%s: chunk %d is not named by its bytes' % (what, k))
        at += n
    if at != len(data):
        raise Violation('%s: %d of %d bytes are in chunks' % (what, at, len(data)))


def chunked(c, paths, threads=1, flavor='probe'):
    """What the library makes of them: [[(length, id)]]"""
    q = probe(c, flavor, cpus(c), 'chunks', threads, c.rng.getrandbits(60), *paths)
    out = {}
    for line in q.stdout.splitlines():
        k, text, how = line.split('|')
        if how != 'as FastCDC':
            raise Violation('%s is not cut as FastCDC cuts these bytes: %s' % (paths[int(k)], text[:500]))
        out[int(k)] = [(int(x.split(':')[0]), x.split(':')[1]) for x in text.split()]
    if sorted(out) != list(range(len(paths))):
        raise Violation('probe gave no chunks for some file: %s' % q.brief())
    c.count('files chunked', len(paths) * threads)
    c.count('chunks seen', sum(map(len, out.values())))
    return [out[k] for k in range(len(paths))]


KINDS = ['random', 'random', 'zeros', 'constant', 'periodic', 'text', 'mixed']


def library(c, item):
    r = c.rng
    datas = []
    for _ in range(r.choice([1, 3, 5])):
        k, n = r.choice(KINDS), r.choice(EDGE + [r.randrange(1, 30 << 20), r.randrange(1, 6 << 20)])
        datas.append(content(r, k, n))
        c.see(k, n if n in EDGE else n.bit_length())
    d = c.fresh('in')
    paths = [write(c, b, d, 'f%d' % k) for k, b in enumerate(datas)]
    got = chunked(c, paths, r.choice([1, 1, 2, 4]), 'probe-tsan' if r.random() < 0.15 else 'probe')
    for b, g, p in zip(datas, got, paths):
        judge(b, g, p)
        c.eval()
    # In one piece or two classes: the cuts before the end are the same.
    k = r.randrange(len(datas))
    b = datas[k]
    more = b + content(r, r.choice(KINDS), r.choice([1, 5 << 20, 11 << 20]))
    g2 = chunked(c, [write(c, more)])[0]
    judge(more, g2, 'longer')
    n = max(0, len(got[k]) - 1)
    if got[k][:n] != g2[:n]:
        raise Violation('appending to a file changed the chunks before the last: %s, then %s' % (got[k], g2))
    c.see('appended', len(b) < 10 << 20, len(more) < 10 << 20)


def edits(c, item):
    r = c.rng
    n = r.choice([9, 24, 40]) << 20
    kind = r.choice(['random', 'random', 'text'])
    b = content(r, 'random', n) if kind == 'random' else b''.join(b'%x\n' % r.getrandbits(60) for _ in range(n // 15))[:n]
    was = chunked(c, [write(c, b)])[0]
    judge(b, was, 'original')
    for _ in range(3):
        at = r.choice([0, len(b) // 4, r.randrange(len(b) // 3), sum(x[0] for x in was[:2])])
        how = r.choice(['overwrite', 'insert', 'delete'])
        k = r.choice([1, 1, 7, 1000, 100000])
        new = b[:at] + (b'' if how == 'delete' else r.randbytes(k)) + b[at + (0 if how == 'insert' else k):]
        now = chunked(c, [write(c, new)])[0]
        judge(new, now, 'edited')
        pos = kept = 0
        for x in was:
            pos += x[0]
            if pos > at - 64:       # A cut also depends on what is right behind it
                break
            kept += 1
        if now[:kept] != was[:kept]:
            raise Violation('%s %d bytes at %d changed chunks that end before: %s, then %s' % (how, k, at, was, now))
        tail = 0
        while tail < min(len(was), len(now)) and was[-1 - tail] == now[-1 - tail]:
            tail += 1
        # The cuts meet again well before the end.
        far = sum(x[0] for x in was[len(was) - tail:])
        if n >= 24 << 20 and far < 2 << 20:
            raise Violation('%s %d bytes at %d of %d changed everything up to the end: %s, then %s' % (how, k, at, len(b), was, now))
        c.see('edit', how, k, kind, n >> 20)
        c.count('chunks kept', kept + tail)
        c.eval()
    c.sample(length=n, chunks=len(was), last_edit=how, kept=kept + tail)


def backups(c, item):
    """The same through whole backups."""
    r = c.rng
    src = c.mkdir('src')
    datas = {}
    for k in range(r.choice([1, 3, 6])):
        n = r.choice([0, 1, 1000, MIN - 1, MIN, MIN + 1, 3 << 20, (10 << 20) - 1, 10 << 20, r.randrange(1, 15 << 20)])
        kind = r.choice(KINDS)
        datas['f%d' % k] = content(r, kind, n)
        c.see('backup', kind, n.bit_length())
    if r.random() < 0.5:
        datas['twin'] = datas['f0']
    if r.random() < 0.5:
        # One that begins as another does, in the other size class
        datas['longer'] = datas['f0'] + r.randbytes((10 << 20) + 5)
    for name, b in datas.items():
        write(c, b, src, name)
    w = World(c, pack_size=r.choice([None, '100KB', '5MB']), cached=False)
    i = w.backup([src])
    R = w.verify()
    lists = {}
    kids = R.tree(R.snaps[i].tree)['src'][1]
    for name, (k, cs, m) in R.tree(kids).items():
        lists[name] = [(len(R.blob(x)), fmt.name_of(x)) for x in cs]
        judge(datas[name], lists[name], name)
        c.count('files backed up')
        c.eval()
    names = sorted(datas)
    for name, g in zip(names, chunked(c, [os.path.join(src, x) for x in names])):
        if g != lists[name]:
            raise Violation('%s is chunked otherwise in a backup: %s and %s' % (name, lists[name], g))
    if 'twin' in lists and lists['twin'] != lists['f0']:
        raise Violation('the same bytes give other chunks')
    if 'longer' in lists and lists['longer'][:max(0, len(lists['f0']) - 1)] != lists['f0'][:-1]:
        raise Violation('the same beginning gives other chunks: %s, %s' % (lists['f0'], lists['longer']))
    # Each file alone, in a repository of its own
    name = r.choice(names)
    w2 = World(c, name='alone', pack_size='1MB', cached=False)
    j = w2.backup([os.path.join(src, name)], '-a', 'x')
    R2 = w2.verify()
    cs = R2.tree(R2.snaps[j].tree)[name][1]
    if [(len(R2.blob(x)), fmt.name_of(x)) for x in cs] != lists[name]:
        raise Violation('%s alone is chunked otherwise' % name)
    # Another backup after an edit far behind stores only what changed.
    big = [x for x in names if len(datas[x]) >= 3 << 20 and len(lists[x]) > 2]
    if big:
        x = r.choice(big)
        b = bytearray(datas[x])
        b[-1] ^= 255
        write(c, bytes(b), src, x)
        have = {z for z in w.open().blobs}
        i2 = w.backup([src])
        R = w.verify()
        new = {z for z in R.blobs if R.blobs[z][0] == 'chunk'} - have
        if len(new) > 1:
            raise Violation('a change of one byte at the end stored %d chunks' % len(new))
        c.see('stored again', len(new))



def golden(c, item):
    """Contents whose chunks were recorded once: other versions of the program have stored them like this."""
    with open(GOLDEN) as f:
        want = json.load(f)
    paths = []
    for key in want:
        name, n = key.split(':')
        b = fixed(name, int(n)) if name != 'zeros' else bytes(int(n))
        paths.append(write(c, b))
    got = chunked(c, paths)
    for (key, w), g in zip(want.items(), got):
        if [list(x) for x in g] != w:
            raise Violation('%s was once chunked as %s, now as %s' % (key, w, g))
        c.eval()
    c.see('recorded', len(want))


def run(ctx):
    fs = dict(library=library, edits=edits, backups=backups, golden=golden)
    items = [('golden', 0)]
    for k in range(2000):
        items += [('library', k), ('backups', k), ('edits', k)]
    ctx.cases(lambda c, i: fs[i[0]](c, i), items, workers=6, must=19)

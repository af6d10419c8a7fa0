"""What listings, dumps, diffs and reports have to say, worked out from the decoded repository."""
import hashlib
import os
import stat
from datetime import datetime, timedelta, timezone
from decimal import Decimal, ROUND_HALF_EVEN

import fmt


class Node:
    """kind f/d/l; content: a hash of the bytes, or the target; meta: everything recorded of it; kids: of a directory."""
    __slots__ = ('kind', 'content', 'meta', 'kids', 'chunks', 'tree')

    def __init__(self, kind, content, meta, kids=None, chunks=(), tree=None):
        self.kind, self.content, self.meta, self.kids, self.chunks, self.tree = kind, content, meta, kids, chunks, tree


def load(R, tree, cache=None):
    """{name: Node} of a stored tree."""
    cache = R.__dict__.setdefault('_nodes', {})
    if tree in cache:
        return cache[tree]
    out = {}
    for name, (k, c, m) in R.tree(tree).items():
        if k == 'f':
            h = hashlib.sha1()
            for i in c:
                h.update(R.blob(i))
            out[name] = Node('f', tuple(c) if getattr(R, 'by_chunks', False) else h.hexdigest(), m, chunks=tuple(c))
        elif k == 'l':
            out[name] = Node('l', c, m)
        else:
            out[name] = Node('d', None, m, load(R, c), tree=c)
    cache[tree] = out
    return out


def load_fs(path):
    """A node of the file system, as a backup would record it; None for what it would not."""
    st = os.lstat(path)
    m = dict(type='posix', mode=st.st_mode, user_id=st.st_uid, group_id=st.st_gid, access_time=st.st_atime_ns, modify_time=st.st_mtime_ns)
    if stat.S_ISLNK(st.st_mode):
        return Node('l', os.readlink(path), m)
    if stat.S_ISDIR(st.st_mode):
        kids = {}
        for n in sorted(os.listdir(path)):
            x = load_fs(os.path.join(path, n))
            if x:
                kids[n] = x
        return Node('d', None, m, kids)
    if stat.S_ISREG(st.st_mode):
        m['size'] = st.st_size
        with open(path, 'rb') as f:
            return Node('f', hashlib.sha1(f.read()).hexdigest(), m)
    return None


def norm(m):
    """Metadata under one set of names."""
    g = lambda *ks: next((m[k] for k in ks if k in m), None)
    return (g('uid', 'user_id'), g('gid', 'group_id'), m['mode'], g('mtime', 'modify_time'), g('atime', 'access_time'), g('size'))


def label(path, n):
    return path + ('/' if n.kind == 'd' else ' -> ' + n.content if n.kind == 'l' else '')


def walk(kids, pre=''):
    """(path, node) of everything below."""
    for name in sorted(kids, key=lambda s: s.encode()):
        n = kids[name]
        yield pre + name, n
        if n.kind == 'd':
            yield from walk(n.kids, pre + name + '/')


def ls(kids, pre=''):
    return [label(p, n) for p, n in walk(kids, pre)]


def diff(a, b, meta=False, pre=''):
    """[(code, path, node)] of what differs between two {name: Node}."""
    out = []
    for name in sorted(set(a) | set(b), key=lambda s: s.encode()):
        p = pre + name
        x, y = a.get(name), b.get(name)
        if x is not None and (y is None or x.kind != y.kind):
            out += [('-', q, n) for q, n in walk({p: x})]
        if y is not None and (x is None or x.kind != y.kind):
            out += [('+', q, n) for q, n in walk({p: y})]
        if x is None or y is None or x.kind != y.kind:
            continue
        if x.kind == 'd':
            out += diff(x.kids, y.kids, meta, p + '/')
        elif x.content != y.content:
            out += [('-', p, x), ('+', p, y)] if x.kind == 'l' else [('C', p, x)]
            continue
        if meta and norm(x.meta) != norm(y.meta):
            u, v = norm(x.meta), norm(y.meta)
            c = 'O' if u[:2] != v[:2] else 'P' if u[2] != v[2] else 'T' if u[3] != v[3] else 'A' if u[4] != v[4] else 'M'
            out.append((c, p, y))
    return out


def diff_lines(recs, lead=''):
    return [lead + c + ' ' + label(p, n) for c, p, n in recs]


def same(out, lines):
    """The output holds exactly these lines, in whatever order (names may have line breaks in them)."""
    want = ''.join(l + '\n' for l in lines)
    return out == want or sorted(out.split('\n')) == sorted(want.split('\n'))


def off(out, lines):
    """What is amiss with the output."""
    from collections import Counter
    a, b = Counter(out.split('\n')), Counter(''.join(l + '\n' for l in lines).split('\n'))
    return 'missing %s; too much %s' % (list((b - a).elements())[:5], list((a - b).elements())[:5])


UNITS = ['B', 'KB', 'MB', 'GB', 'TB']


MODES = ('ROUND_HALF_EVEN', 'ROUND_HALF_UP', 'ROUND_HALF_DOWN')


def nice(n, mode='ROUND_HALF_EVEN'):
    """A size in decimal units; the very middle may be rounded either way."""
    k = 0
    while k < 4 and n >= 1000 ** (k + 1):
        k += 1
    q = (Decimal(n) / Decimal(1000 ** k)).quantize(Decimal(1).scaleb(0 if k < 2 else -2), rounding=mode)
    return '%s %s' % (q, UNITS[k])


def nodate(out):
    import re
    return re.sub(r'(?m)^Date:   .*$', 'Date:', out)


def header(s, sizes=None, mode=MODES[0]):
    """What the snapshots command says of a snapshot, its date left out."""
    out = ['snapshot ' + s.name + (' (%s)' % ' '.join(sorted(s.tags, key=lambda t: t.encode())) if s.tags else '')]
    if sizes:
        t, c, i, r, _ = sizes
        z = lambda n: nice(n, mode)
        out.append('Sizes: %s total (%s files, %s metadata / %s new, %s reused)' % (z(t + c), z(c), z(t), z(i), z(r)))
    out += ['Author: ' + s.author, 'Date:']
    if s.paths:
        out.append('')
    out += ['  - ' + p for p in s.paths] + ['']
    return out


def snapshots(R, ids=None, reverse=False, stat=False, meta=False, sizes=False, files=False, mode=MODES[0]):
    """The lines the snapshots command has to print."""
    acc = Sizes(R)
    prev = {}
    blocks = []
    for s in R.ordered():
        z = acc.add(s) if sizes or files else None
        cur = load(R, s.tree) if stat else None
        if ids is None or s.id in ids:
            b = header(s, z, mode)
            if stat:
                for d, p, n in diff(prev, cur, meta):
                    l = ' ' + d + ' ' + label(p, n)
                    if files and p in z[4] and n.kind == 'f' and d != '-':
                        l += ' | %s new, %s reused' % (nice(z[4][p][0], mode), nice(z[4][p][1], mode))
                    b.append(l)
                b.append('')
            elif files:
                fs = [(p, x) for p, x in z[4].items() if x[0] > 0]
                if fs:
                    b += [' %s | %s new, %s reused' % (p, nice(x[0], mode), nice(x[1], mode))
                          for p, x in sorted(fs, key=lambda f: -f[1][0])] + ['']
            blocks.append(b)
        prev = cur
    if reverse:
        blocks.reverse()
    return [l for b in blocks for l in b]


def unpad(out):
    """Printed text without the blanks that align sizes."""
    import re
    return '\n'.join(re.sub(r' +(\| \S+ [KMGT]?B new, \S+ [KMGT]?B reused)$', r' \1', l).rstrip(' ') for l in out.split('\n'))


class Sizes:
    """What snapshots bring in, in the order of time."""

    def __init__(self, R, empty=True):
        self.R = R
        self.empty = empty      # whether a stored empty tree counts
        self.seen = set()
        self.total = [0, 0]     # introduced, reused

    def length(self, i):
        if i == fmt.EMPTY_TREE and (not self.empty or i not in self.R.blobs):
            return 0
        return self.R.blobs[i][1]

    def add(self, s):
        """(tree bytes, chunk bytes, introduced, reused, {path: (introduced, reused)}) of the next snapshot."""
        t = [0, 0, 0, 0]
        files = {}

        def blob(i, which):
            n = self.length(i)
            t[which] += n
            new = i not in self.seen
            self.seen.add(i)
            t[2 if new else 3] += n
            return n if new else 0, 0 if new else n

        def tree(i, kids, pre):
            blob(i, 0)
            for name in sorted(kids, key=lambda s: s.encode()):
                n = kids[name]
                if n.kind == 'f':
                    a = b = 0
                    for c in n.chunks:
                        x, y = blob(c, 1)
                        a, b = a + x, b + y
                    files[pre + name] = (a, b)
                elif n.kind == 'd':
                    tree(n.tree, n.kids, pre + name + '/')
        tree(s.tree, load(self.R, s.tree), '')
        self.total[0] += t[2]
        self.total[1] += t[3]
        return t[0], t[1], t[2], t[3], files


def zone(name):
    if name in ('UTC', 'Etc/UTC'):
        return timezone.utc
    if name and name[0] in '+-':
        h, m = int(name[1:3]), int(name[4:6] or 0) if len(name) > 4 else 0
        d = timedelta(hours=h, minutes=m)
        return timezone(-d if name[0] == '-' else d)
    import zoneinfo
    return zoneinfo.ZoneInfo(name)


def local(s):
    """A snapshot's time where it was made, or None if Python cannot say."""
    try:
        z = zone(s.tz)
        return (datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=s.time // 1000)).astimezone(z)
    except Exception:
        return None


def date_line(s):
    d = local(s)
    if d is None:
        return None
    return '%s %s %d %d %02d:%02d:%02d' % (['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun'][d.weekday()],
                                           ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec'][d.month - 1],
                                           d.day, d.year, d.hour, d.minute, d.second)


def report(out):
    """The snapshots command's output without what it says while it works."""
    import re
    m = re.search(r'(?m)^snapshot [0-9a-v]{45}', out)
    return nodate(out[m.start():]) if m else ''

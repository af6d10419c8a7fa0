"""C25: no race, memory error or undefined behaviour; malformed input gives an error."""
import json
import os
import random
import re
import shutil
import struct

import core
import fmt
import tree
from core import Violation, Inconclusive
from ops import History
from world import World, FILTERS, random_world, sources

LEVEL = 'exploration'
BUDGET = (90, 800)
MIRI = True
NEEDS = ['main', 'tsan', 'asan', 'probe']
RULE = ('Histories of random commands (plain, filtered and cached repositories, small packs, files on both sides of the mapping threshold) run with backpak and its standard library built for ThreadSanitizer, with AddressSanitizer, and under Valgrind; any report is a violation. '
        'The decoders and hashers, which need no foreign code, run in Miri on well-formed and random input. Malformed input: indexes, snapshots, manifests and trees whose structure was changed but whose IDs are right, raw damage, hostile names, configurations, caches, '
        'unfinished work in the working directory and arguments, for every command, with the address space limited to 6 GB (or under AddressSanitizer): it must end, without panic or signal, with a message if it fails. Distinct: (tool, command) and (what was malformed, how, command, exit).')
ASSUMES = ['ThreadSanitizer does not know the fences crossbeam-epoch relies on: races inside it are suppressed (C24 runs it in Miri)', 'foreign code (zstd, SQLite) is not instrumented; Valgrind sees it',
           'mapped files cut short while they are read: known finding, decided with C26']

TSAN_SUPP = 'race:crossbeam_epoch\nrace:sqlite3\n'


def sanitized(c, item):
    """A history, every command under a tool."""
    r = c.rng
    tool = item[1]
    if tool in ('tsan', 'asan'):
        c.flavor = tool
        supp = c.path('supp')
        with open(supp, 'w') as f:
            f.write(TSAN_SUPP)
        c.env0['TSAN_OPTIONS'] = 'halt_on_error=1 exitcode=66 report_thread_leaks=0 suppressions=%s' % supp
        c.env0['ASAN_OPTIONS'] = 'detect_leaks=0 exitcode=67 detect_stack_use_after_return=1'
    else:
        c.wrap = [shutil.which('valgrind') or 'valgrind', '-q', '--error-exitcode=77', '--undef-value-errors=yes', '--fair-sched=try', '--num-callers=30']
    w = random_world(c)
    size = r.choice(['tiny', 'small', 'small', 'medium']) if tool != 'valgrind' else 'tiny'
    srcs = sources(c, n=r.choice([1, 2]), size=size)
    if tool != 'valgrind' and r.random() < 0.5:
        with tree.Writable(srcs[0]):
            tree.write(os.path.join(srcs[0], 'mapped'), r.randbytes(r.choice([10, 11, 15]) * (1 << 20) + 5))
    h = History(c, w, srcs=srcs)
    for k in range(r.choice([3, 5]) if tool != 'valgrind' else 3):
        if c.ctx.time_left() < 0 and k:
            break
        op = h.step('backup' if k == 0 else None)
        c.see(tool, op, bool(w.filt), bool(w.cached))
        c.eval()
    for cmd in r.sample([['check', '-r'], ['snapshots', '--stat', '-f', '-s'], ['usage'], ['prune', '-n']], 2 if tool != 'valgrind' else 1):
        w.ok(*cmd)
        c.see(tool, cmd[0])
        c.eval()
    if w.model:
        i = r.choice(sorted(w.model))
        w.restored(i)
        w.ok('ls', fmt.name_of(i))
        w.ok('diff', '-m', fmt.name_of(i), 'LAST')
        c.see(tool, 'restore')
        c.eval(3)
        w.ok('cat', 'snapshot', fmt.name_of(i))
        R = w.open()
        w.ok('cat', 'blob', fmt.name_of(r.choice(sorted(R.blobs))))
        w.ok('cat', r.choice(['pack']), fmt.name_of(r.choice(sorted(R.packs))))
        w.ok('cat', 'index', fmt.name_of(r.choice(sorted(R.indexes))))
        c.see(tool, 'cat')
        c.eval(3)
    c.count('histories under ' + tool)
    c.count('commands under ' + tool, c.counts.get('commands run', 0))
    c.sample(tool=tool, ops=h.log)
    w.verify(unindexed=True, stale_indexes=True)


# ---------------------------------------------------------------- malformed input

class Raw(bytes):
    """CBOR as it is."""


def cbor(v):
    """Like fmt's, of anything."""
    if isinstance(v, Raw):
        return bytes(v)
    if isinstance(v, float):
        return b'\xfb' + struct.pack('>d', v)
    if isinstance(v, dict):
        return head(5, len(v)) + b''.join(cbor(k) + cbor(x) for k, x in v.items())
    if isinstance(v, list):
        return head(4, len(v)) + b''.join(map(cbor, v))
    if isinstance(v, bool) or v is None:
        return {None: b'\xf6', True: b'\xf5', False: b'\xf4'}[v]
    if isinstance(v, int):
        return head(0, min(v, 2 ** 64 - 1)) if v >= 0 else head(1, min(-1 - v, 2 ** 64 - 1))
    if isinstance(v, str):
        b = v.encode('utf-8', 'surrogateescape')
        return head(3, len(b)) + b
    return head(2, len(v)) + v


def head(major, n):
    for k, (lim, f) in enumerate([(24, None), (256, '>B'), (65536, '>H'), (2 ** 32, '>I'), (2 ** 64, '>Q')]):
        if n < lim:
            return bytes([major << 5 | (n if f is None else 23 + k)]) + (struct.pack(f, n) if f else b'')


def deep(n):
    return Raw(b'\x81' * n + b'\x80')


def value(r):
    return r.choice([None, True, False, 0, 1, -1, 23, 24, 255, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1, -2 ** 63, -2 ** 64, b'', b'\0', bytes(27), bytes(28), bytes(29), r.randbytes(28), bytes(300), '', 'x', 'tree', 'chunk', 'é' * 50,
                     'a' * 5000, [], [0] * 28, [[]], {}, {'a': 1}, {1: 2}, {b'': []}, ['', ''], 1.5, float('nan'), float('inf'), '\0', '../x', '/', '.', '2020-01-01T00:00:00Z', '9999-12-31T23:59:59+14:00', '-9999-01-01T00:00:00Z', deep(100), deep(5000)])


def nodes(v, path=()):
    yield path
    if isinstance(v, dict):
        for k in v:
            yield from nodes(v[k], path + (('k', k),))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from nodes(x, path + (('i', i),))


def at(v, path):
    for _, k in path:
        v = v[k]
    return v


def change(r, v):
    """A changed copy, and how."""
    v = json_copy(v)
    ps = [p for p in nodes(v)]
    p = r.choice(ps)
    if not p:
        return (value(r), 'whole') if r.random() < 0.3 else change(r, v) if len(ps) > 1 else (value(r), 'whole')
    up, (_, k) = at(v, p[:-1]), p[-1]
    how = r.choice(['value', 'value', 'value', 'remove', 'duplicate', 'rename', 'swap', 'number'])
    if how == 'remove':
        del up[k]
    elif how == 'duplicate' and isinstance(up, list):
        for _ in range(r.choice([1, 1, 3])):
            up.insert(r.randrange(len(up) + 1), json_copy(up[k]))
    elif how == 'rename' and isinstance(up, dict):
        k2 = value(r) if r.random() < 0.3 else r.choice(['type', 'length', 'id', 'x', 'metadata', 'chunks', 'target', 'tree'])
        up[Raw(cbor(k2)) if isinstance(k2, (list, dict)) else k2] = up.pop(k)
    elif how == 'swap':
        q = r.choice([x for x in ps if x])
        try:
            b = json_copy(at(v, q))
            up[k] = b
        except (KeyError, IndexError, TypeError):
            up[k] = value(r)
    elif how == 'number' and isinstance(up[k], int):
        up[k] = r.choice([up[k] + 1, max(0, up[k] - 1), up[k] * 2, -up[k] - 1, up[k] ^ 1 << 40, up[k] + 2 ** 32])
    else:
        how = 'value'
        up[k] = value(r)
    return v, how


def json_copy(v):
    if isinstance(v, dict):
        return {k: json_copy(x) for k, x in v.items()}
    if isinstance(v, list):
        return [json_copy(x) for x in v]
    return v


def bytes_change(r, b):
    """Damage below CBOR's structure."""
    b = bytearray(b)
    how = r.choice(['flip', 'cut', 'huge length', 'insert', 'random', 'indefinite', 'tail', 'empty', 'tags'])
    k = r.randrange(len(b) + 1)
    if how == 'flip':
        for _ in range(r.choice([1, 1, 4])):
            if b:
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    elif how == 'cut':
        del b[k:]
    elif how == 'huge length':
        b[k:k + 1] = bytes([r.choice([0x5b, 0x7b, 0x9b, 0xbb])]) + r.choice([b'\xff' * 8, b'\0\0\0\xff\xff\xff\xff\xff', b'\x7f' + b'\xff' * 7, b'\0\0\0\0\x80\0\0\0'])
    elif how == 'insert':
        b[k:k] = r.randbytes(r.choice([1, 3, 20]))
    elif how == 'random':
        b = bytearray(r.randbytes(r.choice([1, 10, 500])))
    elif how == 'indefinite':
        b[k:k] = r.choice([b'\x9f', b'\xbf', b'\x5f', b'\x7f', b'\xff']) * r.choice([1, 1, 300, 100000])
    elif how == 'tail':
        b += r.randbytes(r.choice([1, 100]))
    elif how == 'tags':
        b[k:k] = b'\xc0' * r.choice([1, 200, 100000])
    else:
        b = bytearray()
    return bytes(b), how


def enc(r, v):
    """CBOR of a changed value, by structure or below it."""
    if r.random() < 0.7:
        x, how = change(r, v)
        if r.random() < 0.3:
            x, _ = change(r, x) if isinstance(x, (dict, list)) and x else (x, 0)
        return cbor(x), how
    return bytes_change(r, cbor(v))


HOSTILE = ['..', '.', '', '/', '../escaped', '../../escaped', '@/escaped', '@/escaped', 'a/b', 'a/../b', 'a/../../escaped', 'f0/../../../escaped', '\0', 'x\0y', 'n' * 300, 'é' * 200, '\n', '-r', ' ', '*', '\\', 'C:', 'x/', '//', './x', 'CON']


class Bed:
    """A repository of a few snapshots, taken apart so that pieces can be replaced."""

    def __init__(self, c):
        r = c.rng
        self.c, self.r = c, r
        self.w = w = World(c, name='w%d' % r.getrandbits(40), pack_size=r.choice([None, '20KB']))
        self.src = s = c.fresh('src')
        os.mkdir(os.path.join(s, 'd'))
        for k in range(3):
            tree.write(os.path.join(s, 'd', 'f%d' % k), r.randbytes(r.choice([0, 10, 3000])))
        os.symlink('f0', os.path.join(s, 'd', 'l'))
        w.backup([s])
        tree.write(os.path.join(s, 'more'), b'more')
        w.backup([s])
        self.R = w.open()

    def files(self, d):
        return sorted(os.listdir(os.path.join(self.w.repo, d)))

    def own(self, d, n):
        with open(os.path.join(self.w.repo, d, n), 'rb') as f:
            return f.read()

    def replace_index(self, body, keep=False):
        for n in ([] if keep else self.files('indexes')):
            os.unlink(os.path.join(self.w.repo, 'indexes', n))
        fmt.put(self.w.repo, 'index', fmt.sha(body), fmt.IDX + fmt.zstd(body))

    def renamed(self, v, n, depth):
        """The tree with an entry of that name so far down, and the trees below."""
        r = self.r
        dirs = [k for k in sorted(v) if isinstance(v[k].get('tree'), bytes)]
        if not depth or not dirs:
            k = r.choice(sorted(v))
            v[n] = json_copy(v[k])
            if r.random() < 0.5:
                v.pop(k)
            return cbor(v), []
        k = r.choice(dirs)
        b, extra = self.renamed(fmt.uncbor(self.R.blob(v[k]['tree'])), n, depth - 1)
        v[k]['tree'] = fmt.sha(b)
        return cbor(v), extra + [b]

    def malform(self):
        """Does one thing; returns its name."""
        r, w = self.r, self.w
        kind = r.choice(['index', 'index', 'snapshot', 'snapshot', 'manifest', 'manifest', 'tree', 'tree', 'tree', 'names', 'names', 'raw', 'links'])
        if kind == 'index':
            n = r.choice(self.files('indexes'))
            v = fmt.uncbor(fmt.unzstd(self.own('indexes', n)[len(fmt.IDX):]))
            b, how = enc(r, v)
            self.replace_index(b, keep=r.random() < 0.5)
        elif kind == 'snapshot':
            n = r.choice(self.files('snapshots'))
            v = fmt.uncbor(self.own('snapshots', n)[len(fmt.SNP) + 1:])
            b, how = enc(r, v)
            if r.random() < 0.3:
                os.unlink(os.path.join(w.repo, 'snapshots', n))
            fmt.put(w.repo, 'snapshot', fmt.sha(b), fmt.SNP + r.choice([b'2', b'2', b'2', b'1', b'0', b'3', b'\xff']) + b)
        elif kind == 'manifest':
            blobs = [(t, b) for t, b in ((min(self.R.types[i]), self.R.blob(i)) for i in sorted(self.R.blobs))]
            _, _, man = fmt.make_pack(blobs)
            m, how = enc(r, man)
            i = fmt.sha(m)
            z = fmt.zstd(m)
            body = b''.join(b for _, b in blobs)
            if r.random() < 0.2:
                body = body[:r.randrange(len(body) + 1)]
            tail = struct.pack('>I', r.choice([len(z)] * 8 + [0, 1, 2 ** 32 - 1, 2 ** 31, len(z) + 1]))
            for n in self.files('packs'):
                os.unlink(os.path.join(w.repo, 'packs', n))
            fmt.put(w.repo, 'pack', i, fmt.PAK + fmt.zstd(body) + z + tail)
            try:
                v = fmt.uncbor(m)
            except Exception:
                v = man
            self.replace_index(cbor(dict(supersedes=[], packs={i: v if r.random() < 0.7 else man})))
        elif kind in ('tree', 'names', 'links'):
            s = self.R.snaps[r.choice(sorted(self.R.snaps))]
            v = fmt.uncbor(self.R.blob(s.tree))
            extra = []
            if kind == 'tree':
                b, how = enc(r, v)
            elif kind == 'names':
                n = r.choice(HOSTILE)
                how = repr(n)[:20]
                n = n.replace('@', self.c.place)
                b, extra = self.renamed(v, n, r.choice([0, 1, 1, 2]))
            else:
                # Chunks that are trees, trees that are chunks, themselves missing, repeated.
                ids = sorted(self.R.blobs) + [bytes(28)]
                how = 'links'
                for p in list(nodes(v)):
                    x = at(v, p) if p else None
                    if isinstance(x, bytes) and len(x) == 28 and r.random() < 0.7:
                        at(v, p[:-1])[p[-1][1]] = r.choice(ids)
                b = cbor(v)
            blobs = [(min(self.R.types[i]), self.R.blob(i)) for i in sorted(self.R.blobs)] + [('tree', x) for x in extra] + [(r.choice(['tree', 'tree', 'tree', 'chunk']), b)]
            i, data, man = fmt.make_pack(blobs)
            fmt.put(w.repo, 'pack', i, data)
            self.replace_index(fmt.cbor(dict(supersedes=[], packs={i: man})))
            i, data = fmt.make_snapshot(s.time, s.tz, s.author, s.tags, s.paths, fmt.sha(b))
            fmt.put(w.repo, 'snapshot', i, data)
        else:
            d = r.choice(['packs', 'indexes', 'snapshots'])
            n = r.choice(self.files(d))
            how = d + ' ' + r.choice(['flip', 'cut', 'empty', 'zeros', 'random', 'directory', 'long', 'name', 'link', 'unreadable'])
            p = os.path.join(w.repo, d, n)
            b = self.own(d, n)
            e = how.split()[1]
            os.unlink(p)
            if e == 'directory':
                os.mkdir(p)
            elif e == 'link':
                os.symlink('nowhere', p)
            elif e == 'name':
                with open(os.path.join(w.repo, d, r.choice(['x', 'é', '.' + n, n + '.part', n[:-1], n.upper(), 'v' * 45 + n[45:], n.replace('.', '..'), '\x01', 'x' * 200])), 'wb') as f:
                    f.write(b)
            else:
                with open(p, 'wb') as f:
                    k = r.randrange(len(b))
                    f.write({'flip': b[:k] + bytes([b[k] ^ 1 << r.randrange(8)]) + b[k + 1:], 'cut': b[:k], 'empty': b'', 'zeros': bytes(len(b)), 'random': r.randbytes(len(b)), 'long': b + r.randbytes(1000), 'unreadable': b}[e])
                if e == 'unreadable':
                    os.chmod(p, 0)
        return kind, how


def cage(c):
    d = c.fresh('cage')
    os.mkdir(os.path.join(d, 'out'))
    return os.path.join(d, 'out')


def commands(c, w, src):
    r = c.rng
    snap = lambda: r.choice(['LAST', 'LAST~', 'LAST~2', fmt.name_of(r.choice(sorted(w.model))), fmt.name_of(r.choice(sorted(w.model)))[:6]])
    names = [f.split('.')[0] for d in ('packs', 'indexes', 'snapshots') for f in sorted(os.listdir(os.path.join(w.repo, d)))]
    def copy():
        d = World(c, name='to%d' % r.getrandbits(40))
        return ['copy', '-t', d.repo, r.choice(['--all', snap()])]
    return [lambda: ['check'], lambda: ['check', '-r'], lambda: ['snapshots', '--stat', '-f', '-s'], lambda: ['snapshots', '-m', '-r'], lambda: ['ls', snap()], lambda: ['usage'], lambda: ['diff', '-m', snap(), snap()],
            lambda: ['restore', '-t', '-p', '-o', cage(c), snap()], lambda: ['restore', '-n', '-d', '-o', cage(c), snap()], lambda: ['restore', '-d', '-t', '-o', cage(c), snap()], lambda: ['dump', snap(), r.choice(['d/f0', 'd', 'd/l', 'x', '', '/', '..'])],
            copy, copy, lambda: ['prune', '-n'], lambda: ['prune'], lambda: ['rebuild-index'], lambda: ['rebuild-index', '-n'], lambda: ['backup', '--allow-repeat', src], lambda: ['filter-snapshot', '-s', 'f0', snap()], lambda: ['forget', snap()], lambda: ['forget', 'DUPLICATES'],
            lambda: ['cat', r.choice(['blob', 'pack', 'index']), r.choice(names)], lambda: ['cat', 'snapshot', snap()], lambda: ['cat', 'blob', fmt.name_of(r.choice(sorted(c.bed.R.blobs)))], lambda: ['diff', snap()]]


def judged(c, q, what):
    c.eval()
    c.clean_fail(q)
    if q.rc and not q.err.strip():
        raise Violation('%s: fails without a word: %s' % (what, q.brief()))
    if q.rc not in (0, 1, 2):
        raise Violation('%s: strange exit: %s' % (what, q.brief()))
    for name, text in (('standard error', q.err), ('standard output', q.out)):
        if name == 'standard output' and set(q.args) & {'cat', 'dump'}:
            continue            # these print contents
        try:
            text.decode()
        except UnicodeDecodeError as e:
            raise Violation('%s: what it prints on %s is not UTF-8 (%r), so it made a string of arbitrary bytes' % (what, name, text[max(0, e.start - 60):e.start + 20]))


def limited(c):
    """Memory errors and memory hunger show."""
    if c.rng.random() < 0.2:
        c.flavor = 'asan'
        c.env0['ASAN_OPTIONS'] = 'detect_leaks=0 exitcode=67'
    else:
        c.wrap = [shutil.which('prlimit') or 'prlimit', '--as=6000000000', '--core=0']


def malformed(c, item):
    r = c.rng
    limited(c)
    bed = c.bed = Bed(c)
    keep = c.path('keep')
    shutil.copytree(bed.w.repo, keep, symlinks=True)
    for rnd in range(5 if c.quick else 10):
        if rnd and c.ctx.time_left() < 0:
            break
        if rnd:
            for d in ('packs', 'indexes', 'snapshots'):
                p = os.path.join(bed.w.repo, d)
                tree.wipe(p)
                shutil.copytree(os.path.join(keep, d), p, symlinks=True, dirs_exist_ok=True)
        what = bed.malform()
        c.step('malformed: %s, %s' % what)
        c.count('malformed: ' + what[0])
        for mk in r.sample(commands(c, bed.w, bed.src), 5):
            a = mk()
            q = bed.w.run(*a, cwd=c.fresh('cwd'))
            judged(c, q, '%s after %s' % (a[0], what))
            c.see('malformed', what, a[0], q.rc)
            c.count('commands on malformed input that %s' % ('fail' if q.rc else 'finish'))
        # Names must not lead out of the target.
        for x in sorted(os.listdir(c.place)):
            if x == 'escaped' or x.startswith('cage') and set(os.listdir(c.path(x))) - {'out'}:
                raise Violation('a restore with %s wrote outside of its target: %s' % (what, x if x == 'escaped' else os.listdir(c.path(x))))


def text(r, good):
    """A malformed configuration."""
    lines = good.split('\n')
    how = r.choice(['drop', 'junk', 'type', 'flip', 'repeat', 'empty', 'binary', 'huge', 'unknown', 'nest'])
    k = r.randrange(len(lines))
    if how == 'drop':
        del lines[k]
    elif how == 'junk':
        lines.insert(k, r.choice(['=', '[', '[[x]]', 'x = ', 'x = "', "'''", '\t\0', 'é = 1', '[backend]', 'a.b.c = 1']))
    elif how == 'type':
        lines[k] = lines[k].split('=')[0] + '= ' + r.choice(['1', '"x"', 'true', '[]', '{}', '-1', '1e400', '99999999999999999999', '""', '"1 XB"', '"-1 MB"', '"1e30 GB"', '0', '"0 B"', '1.5', 'nan', '1979-05-27'])
    elif how == 'repeat':
        lines.insert(k, lines[k])
    elif how == 'empty':
        return b'', how
    elif how == 'binary':
        return r.randbytes(200), how
    elif how == 'huge':
        lines[k] += ' ' * 100000 + '#' + 'x' * 100000
    elif how == 'unknown':
        lines.insert(k, 'what_is_this = 1')
    elif how == 'nest':
        lines.insert(0, 'x = ' + '[' * 3000 + ']' * 3000)
    b = '\n'.join(lines).encode()
    if how == 'flip':
        b = bytearray(b)
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    return bytes(b), how


def configured(c, item):
    """Configurations, caches and unfinished work."""
    r = c.rng
    limited(c)
    bed = c.bed = Bed(c)
    w = bed.w
    for rnd in range(8 if c.quick else 16):
        if rnd and c.ctx.time_left() < 0:
            break
        what = r.choice(['config.toml', 'config.toml', 'global', 'global', '.backpak', 'cache', 'cache', 'unfinished', 'unfinished'])
        cwd = c.fresh('cwd')
        kw = dict(cwd=cwd)
        good = open(os.path.join(w.repo, 'config.toml')).read()
        how = ''
        if what == 'config.toml':
            b, how = text(r, good if r.random() < 0.7 else 'pack_size = "20 KB"\nfilter = "cat"\nunfilter = "cat"\n[backend]\ntype = "Filesystem"\nforce_cache = true\n')
            with open(os.path.join(w.repo, 'config.toml'), 'wb') as f:
                f.write(b)
        elif what in ('global', '.backpak'):
            b, how = text(r, 'cache_size = "1 GB"\nskips = ["a", "b"]\n[backup]\ndereference = false\n[restore]\noutput = "/nonexistent"\n' if what == 'global' else 'repository = "%s"\nskips = ["x"]\n' % w.repo)
            if what == 'global':
                p = c.path('conf%d' % rnd)
                kw['config'] = p
            else:
                p = os.path.join(cwd, '.backpak')
                kw['config'] = c.path('nothing%d' % rnd)
                with open(kw['config'], 'w'):
                    pass
            with open(p, 'wb') as f:
                f.write(b)
        elif what == 'cache':
            with open(os.path.join(w.repo, 'config.toml'), 'w') as f:
                f.write(good.replace('force_cache = false', 'force_cache = true'))
            w.run('check', '-r')
            d = os.path.join(c.env0['HOME'], '.cache', 'backpak')
            if not os.path.isdir(d):
                raise Inconclusive('no cache at ' + d)
            how = r.choice(['sqlite', 'sqlite', 'file', 'file', 'directory', 'gone', 'not a directory', 'read-only', 'schema', 'rows'])
            fs = [x for x in os.listdir(d) if 'sqlite' not in x]
            if how == 'sqlite':
                p = os.path.join(d, 'cache_metadata.sqlite')
                b = bytearray(open(p, 'rb').read())
                for x in ('-wal', '-shm'):
                    if os.path.exists(p + x):
                        os.unlink(p + x)
                e = r.choice(['flip', 'cut', 'random', 'empty', 'zeros'])
                how += ' ' + e
                if e == 'flip':
                    for _ in range(r.choice([1, 20, 200])):
                        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                with open(p, 'wb') as f:
                    f.write(dict(flip=bytes(b), cut=bytes(b[:r.randrange(len(b) + 1)]), random=r.randbytes(5000), empty=b'', zeros=bytes(8192))[e])
            elif how in ('schema', 'rows'):
                import sqlite3
                db = sqlite3.connect(os.path.join(d, 'cache_metadata.sqlite'))
                try:
                    if how == 'schema':
                        db.execute(r.choice(['DROP TABLE cache', 'DROP TABLE settings', 'PRAGMA user_version=99', 'PRAGMA user_version=0', 'ALTER TABLE cache DROP COLUMN size']))
                    else:
                        db.execute("REPLACE INTO cache(name, time, size) VALUES (?, ?, ?)", (r.choice(['', '../../x', 'nope', '/']), r.choice([-1, 2 ** 63 - 1]), r.choice([-2 ** 63, 2 ** 62, 2 ** 63 - 1])))
                        if r.random() < 0.5:
                            db.execute("REPLACE INTO settings(key, value) VALUES ('size', ?)", (r.choice([-5, 'x', None if False else 0, 2 ** 63 - 1]),))
                    db.commit()
                except sqlite3.Error:
                    pass
                db.close()
            elif how == 'gone':
                tree.wipe(d)
            elif how == 'not a directory':
                tree.wipe(d)
                tree.write(d, b'x')
            elif how == 'read-only':
                os.chmod(d, 0o500)
            elif fs:
                p = os.path.join(d, r.choice(fs))
                b = open(p, 'rb').read()
                os.unlink(p)
                if how == 'directory':
                    os.mkdir(p)
                else:
                    with open(p, 'wb') as f:
                        f.write(r.choice([b'', b[:len(b) // 2], r.randbytes(len(b)), b + b'x', bytes(len(b))]))
        else:
            n = r.choice(['backpak-wip.index', 'backpak-wip.index', 'x.pack', fmt.name_of(bytes(28)) + '.pack', fmt.name_of(r.randbytes(28)) + '.pack', 'temp-backpak-x', '.pack', 'é.pack', bed.files('packs')[0]])
            how = n if len(n) < 20 else 'ID'
            good_i = bed.own('indexes', bed.files('indexes')[0])
            b = r.choice([b'', b'junk', r.randbytes(1000), good_i, good_i[:-3], bed.own('packs', bed.files('packs')[0]), fmt.IDX + fmt.zstd(enc(r, fmt.uncbor(fmt.unzstd(good_i[len(fmt.IDX):])))[0])])
            if r.random() < 0.15:
                os.mkdir(os.path.join(cwd, n))
            else:
                with open(os.path.join(cwd, n), 'wb') as f:
                    f.write(b)
        c.step('malformed: %s, %s' % (what, how))
        c.count('malformed: ' + what)
        for mk in r.sample(commands(c, w, bed.src), 4):
            a = mk()
            q = w.run(*a, **kw)
            judged(c, q, '%s with malformed %s (%s)' % (a[0], what, how))
            c.see('malformed', what, how, a[0], q.rc)
            c.count('commands on malformed input that %s' % ('fail' if q.rc else 'finish'))
        if what == 'config.toml' and r.random() < 0.3:
            judged(c, w.run('init', 'filesystem'), 'init over it')
        with open(os.path.join(w.repo, 'config.toml'), 'w') as f:
            f.write(good)
        d = os.path.join(c.env0['HOME'], '.cache')
        if os.path.isdir(d):
            tree.wipe(d)
        # What it did to the repository in the meantime does not matter here.
        w.model = {i: {} for i in w.open(streams=False, leftovers=True).snaps}
        if not w.model:
            w.backup([bed.src], '--allow-repeat')


WORDS = ['', '-', '--', '-n', '-d', 'LAST', 'LAST~', 'LAST~~', 'LAST~-1', 'LAST~99999999999999999999999', 'HEAD', 'LAST^', '..', '/', '.', '~', '*', '(', '[a-', '(?P<x', 'x{100000}', '(a{1000}){1000}', '\0'.replace('\0', '\x01'), 'é', 'x' * 5000, '0', '-1', '1e9', '18446744073709551616', '0B', '1 PiB',
         '-1MB', '1.5.5MB', 'MB', 'NaN', '0000000', 'v' * 45, 'w' * 45, '0' * 45, '0' * 44, '0' * 46, '0' * 1000, '/nonexistent/x', '/dev/null', '/dev/full', '\x1b[2J', '%s%n', '--help', '--version', '-vvvvvvvv', '$(x)']
SUBS = ['init', 'backup', 'cat', 'check', 'copy', 'diff', 'dump', 'filter-snapshot', 'forget', 'ls', 'prune', 'rebuild-index', 'restore', 'snapshots', 'usage', 'help', 'nonsense']
FLAGS = ['-n', '-q', '-s', '-t', '-a', '-o', '-p', '-d', '-m', '-r', '-f', '-k', '--all', '--stat', '-L', '-P', '--allow-empty', '--allow-repeat', '-c', '-b', '--gpg', '--force-cache', '-e', 'filesystem', 'backblaze', 'blob', 'pack', 'index', 'snapshot', 'DUPLICATES']


def arguments(c, item):
    """Command lines nobody meant."""
    r = c.rng
    limited(c)
    bed = c.bed = Bed(c)
    w = bed.w
    for k in range(40 if c.quick else 80):
        if k and c.ctx.time_left() < 0:
            break
        cwd = c.fresh('cwd')
        sub = r.choice(SUBS)
        n = r.choice([0, 1, 2, 3, 5])
        a = [sub] + [r.choice(WORDS + FLAGS + [os.path.join(c.place, 'no'), bed.src, w.repo, cwd, fmt.name_of(sorted(w.model)[0])]) for _ in range(n)]
        if any(x in ('/', '/dev/full', '/dev/null', '/nonexistent/x') for x in a) and sub in ('backup', 'restore', 'init', 'copy', 'dump') or sub == 'backup' and '..' in a:
            continue        # Those would walk or write outside.
        repo = r.choice([w.repo] * 6 + ['', '.', cwd, os.path.join(w.repo, 'config.toml'), os.path.join(c.place, 'none'), '/dev/null', 'x' * 5000, bed.src])
        glob = r.choice([[]] * 6 + [['-C', r.choice(['', '.', cwd, 'nope', os.path.join(w.repo, 'config.toml')])], ['-v'] * 9, ['--color', 'x']])
        raw = r.random() < 0.1
        env = None
        if r.random() < 0.15:
            env = r.choice([dict(HOME=''), dict(HOME='/nonexistent'), dict(TZ='Nowhere/Else'), dict(TZ=''), dict(TZ='\x01'), dict(COLUMNS='0'), dict(TERM='dumb'), dict(LANG='tr_TR'), dict(RUST_LOG='x=y=z'), dict(PATH='')])
        kw = dict(cwd=cwd, glob=glob)
        if env:
            kw['env'] = env
        if raw:
            a.append(os.fsdecode(b'\xff\xfe'))
        if r.random() < 0.05 and w.model:
            a, repo, raw = ['restore', '-n', '-o', r.choice(['/', '/../', '//']), fmt.name_of(sorted(w.model)[0])], w.repo, False
        q = c.run(repo, *a, **kw)
        judged(c, q, 'arguments %r' % (a,))
        c.see('arguments', sub, n, q.rc)
        c.count('odd command lines that %s' % ('fail' if q.rc else 'finish'))
        w.model = {i: {} for i in w.open(streams=False, leftovers=True).snaps} if os.path.isdir(w.repo) else {}
        if not w.model:
            w.backup([bed.src], '--allow-repeat')


def interpreted(ctx):
    r = ctx.rng('miri')
    lo, n = r.randrange(10 ** 6), 1 if ctx.quick else 8
    args = ['codec', r.randrange(1 << 40), 10 if ctx.quick else 80]
    rc, out = core.miri(args, lo, lo + n, timeout=60 if ctx.quick else 600)
    if rc is None:
        ctx._take(0, 'miri', dict(counts={'Miri runs that took too long': 1}))
        return
    bad = re.findall(r'^(?:error|WRONG|thread .* panicked).*', out, re.M)
    ctx._take(0, 'miri', dict(evaluations=n, distinct=['miri|codec'], counts={'values decoded in Miri': sum(int(x) for x in re.findall(r'=(\d+)', out))}))
    if rc or bad:
        if re.search('Undefined Behavior|WRONG|panicked', out):
            ctx._take(0, 'miri', dict(violation=dict(msg='Miri: %s: %s' % (args, bad[:3]), info=dict(out=out[-6000:]), steps=[])))
        else:
            raise RuntimeError('Miri failed: ' + out[-3000:])


def one(c, item):
    dict(sanitized=sanitized, malformed=malformed, configured=configured, arguments=arguments)[item[0]](c, item)


def run(ctx):
    interpreted(ctx)
    tools = ['tsan', 'asan', 'tsan', 'valgrind', 'tsan']
    if not shutil.which('valgrind'):
        tools = ['tsan', 'asan']
    rest = []
    for i in range(20000):
        rest += [('sanitized', tools[i % len(tools)], i), ('malformed', i), ('malformed', -i - 1), ('configured', i), ('malformed', 10 ** 6 + i), ('arguments', i) if i % 2 == 0 else ('configured', -i - 1)]
    ctx.cases(one, [('sanitized', 'valgrind', -1)] + rest, must=14)

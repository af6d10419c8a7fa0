"""Source trees: making hostile ones, editing them, and comparing what is there with what should be."""
import hashlib
import os
import shutil
import stat

KI, MI = 1 << 10, 1 << 20
# The chunker's limits, and the size from which files are mapped.
EDGES = [0, 1, 2, 63, 4095, 4096, 4097, 65535, 65536, 512 * KI - 1, 512 * KI, 512 * KI + 1, MI - 1, MI, MI + 1]
BIG_EDGES = [8 * MI - 1, 8 * MI, 8 * MI + 1, 10 * MI - 1, 10 * MI, 10 * MI + 1, 12 * MI + 345]

NAMES = ['a', 'b', 'Z', 'foo', 'foo.bar', '.hidden', '..double', 'sp ace', ' lead', 'trail ', 'new\nline', 'tab\t', "quo'te", 'dq"', 'back\\slash',
         '-dash', '--all', '*star?', '[x]', '$HOME', '~', '#hash', '%41', 'ünï', 'e\u0301', '\u00e9', '日本語', '🦀', '\u202ertl', 'a' * 255, 'n' * 120 + 'é' * 60,
         'con.', 'LAST', '+', 'C x', ' -> y', 'x.pack', 'config.toml', 'packs', 'null', '0', '1e9', 'A', 'ａ', '\x01\x02', '\x7f', 'é' * 127, '{}', '%s%n', '&', ';', '!', '^', '(', 'aé', 'ab', 'a-b', 'a.b', 'a b', '…']
FILE_MODES = [0o644, 0o600, 0o755, 0o444, 0o640, 0o666, 0o400, 0o777, 0o4755, 0o2755, 0o1644, 0o604, 0o711]
DIR_MODES = [0o755, 0o700, 0o711, 0o750, 0o777, 0o1777, 0o555, 0o500, 0o2755]
SEC = 10 ** 9
TIMES = [0, 1, -1, -SEC, -SEC - 1, 999999999, 1234567890 * SEC + 123456789, -86400 * 365 * 30 * SEC + 7, 2 ** 31 * SEC + 5, 2 ** 32 * SEC, 7 * 10 ** 18,
         1700000000 * SEC, 1700000000 * SEC + 1, -(2 ** 31) * SEC - 3, 4102444800 * SEC + 999999999, -9 * 10 ** 18, 9 * 10 ** 18 + 223]
TARGETS = ['a', '../b', '/', '/etc/passwd', 'nowhere', './x/../y', 'a//b', 'dir/', '🦀/x', ' ', 'new\nline', '.', '..', 'x' * 300, '-n', 'a/./b', '/dev/null']

_POOL = {}


def blob_bytes(rng, n, kind=None):
    """n bytes of some kind of data."""
    kind = kind or rng.choice(['rand', 'rand', 'rand', 'zero', 'text', 'rep', 'low'])
    if n == 0:
        return b''
    if kind == 'rand':
        return rng.randbytes(n)
    if kind == 'zero':
        return bytes(n)
    if kind == 'text':
        w = [b'lorem', b'ipsum', b'dolor', b'%d' % rng.randrange(10 ** 6), b'\n', b' ']
        unit = b' '.join(rng.choice(w) for _ in range(400))
        return (unit * (n // len(unit) + 1))[:n]
    if kind == 'rep':
        unit = rng.randbytes(rng.choice([7, 1000, 70000]))
        return (unit * (n // len(unit) + 1))[:n]
    unit = rng.randbytes(4096)
    return bytes(b & 3 for b in unit) * (n // 4096) + unit[:n % 4096]


def write(p, data):
    with open(p, 'wb') as f:
        f.write(data)


class Gen:
    """Makes a tree below root. `size` is small, medium or big; everything made is readable by its maker."""

    def __init__(self, rng, root, size='small', entries=None, modes=True, times=True, depth=4, odd=True, links=True, special=False):
        self.rng, self.root = rng, root
        self.size, self.modes, self.times, self.depth, self.odd, self.links, self.special = size, modes, times, depth, odd, links, special
        self.left = entries or {'tiny': 5, 'small': 14, 'medium': 18, 'big': 16}[size]
        self.seen = []          # contents made so far, to be duplicated
        self.bigs = {'tiny': 0, 'small': 0, 'medium': 2, 'big': 3}[size]
        self.dirs = []
        self.used = set()
        os.makedirs(root, exist_ok=True)
        self.fill(root, 0)
        while self.left > 0:
            self.fill(self.rng.choice(self.dirs), 1)
        if size == 'big' and rng.random() < 0.7:
            # Runs of nothing as long as the longest chunk.
            p = os.path.join(root, self.name(root))
            write(p, rng.choice([b'', b'x']) + bytes(rng.choice([16, 16, 24]) * MI) + rng.choice([b'', b'', b'y' * 5000]))
        if size in ('small', 'medium') and rng.random() < 0.06:
            widen(rng, rng.choice(self.dirs))
        # Last, so that neither spoils the making.
        for d in sorted(self.dirs, key=len, reverse=True):
            if self.modes and rng.random() < 0.4:
                os.chmod(d, rng.choice(DIR_MODES) | 0o500)
            if self.times and rng.random() < 0.5:
                settime(d, self.time())

    def time(self):
        """No time is given twice: a file moved over another must not look unchanged."""
        t = self.rng.choice(TIMES)
        if t in self.used or self.rng.random() < 0.5:
            t = self.rng.randrange(-SEC * 10 ** 9, 4 * SEC * 10 ** 9)
        self.used.add(t)
        return t

    def name(self, d):
        for _ in range(50):
            n = self.rng.choice(NAMES) if self.odd and self.rng.random() < 0.6 else 'n%d' % self.rng.randrange(1000)
            if self.rng.random() < 0.1:
                n = n[:40] + str(self.rng.randrange(100))
            if len(n.encode()) <= 255 and not os.path.lexists(os.path.join(d, n)) and len(os.path.join(d, n).encode()) < 3000:
                return n
        return 'u%d' % self.rng.getrandbits(60)

    def length(self):
        r = self.rng
        if self.bigs > 0 and r.random() < 0.5:
            self.bigs -= 1
            if self.size == 'big':
                return r.choice(BIG_EDGES) if r.random() < 0.7 else r.randrange(10 * MI, 16 * MI)
            return r.choice([r.randrange(MI, 4 * MI), r.randrange(512 * KI, 2 * MI), 3 * MI])
        if self.size != 'tiny' and r.random() < 0.12:
            return r.choice(EDGES)
        return r.choice([0, 1, r.randrange(100), r.randrange(5000), r.randrange(5000), r.randrange(60000)])

    def fill(self, d, level):
        r = self.rng
        if d not in self.dirs:
            self.dirs.append(d)
        n = r.choice([0, 1, 2, 3, 4, 5]) if level else max(2, self.left // 2)
        for _ in range(n):
            if self.left <= 0:
                return
            self.left -= 1
            p = os.path.join(d, self.name(d))
            x = r.random()
            if x < 0.27 and level < self.depth:
                os.mkdir(p)
                if r.random() < 0.25:
                    self.dirs.append(p)     # stays empty, perhaps
                else:
                    self.fill(p, level + 1)
            elif x < 0.40 and self.links:
                os.symlink(r.choice(TARGETS), p)
                if self.times and r.random() < 0.3:
                    settime(p, self.time())
            elif x < 0.44 and self.special:
                os.mkfifo(p)
            elif x < 0.46 and self.seen and self.links:
                try:
                    os.link(r.choice(self.seen)[0], p)
                except OSError:
                    write(p, b'x')
            else:
                self.file(p)

    def file(self, p):
        r = self.rng
        if self.seen and r.random() < 0.2:
            shutil.copyfile(r.choice(self.seen)[0], p)
        else:
            write(p, blob_bytes(r, self.length()))
        self.seen.append((p,))
        if self.modes:
            os.chmod(p, r.choice(FILE_MODES) | 0o400)
        if self.times:
            settime(p, self.time())


def widen(rng, d, n=None):
    """Puts many small files into a directory."""
    t = os.path.join(d, 'wide%d' % rng.randrange(10))
    mode = os.stat(d).st_mode & 0o7777
    os.chmod(d, mode | 0o700)
    os.makedirs(t, exist_ok=True)
    for k in range(n or rng.choice([45, 70, 130, 260])):
        write(os.path.join(t, 'w%d' % k), rng.randbytes(rng.choice([10, 30, 200])))
    os.chmod(d, mode)
    return t


def settime(p, ns, atime=None):
    os.utime(p, ns=(ns if atime is None else atime, ns), follow_symlinks=False)


# ---------------------------------------------------------------- looking

def entry(p, deref=False, content=True):
    st = os.stat(p) if deref else os.lstat(p)
    m = st.st_mode
    if stat.S_ISLNK(m):
        return ('l', os.readlink(p), m, st.st_mtime_ns, 0)
    if stat.S_ISDIR(m):
        return ('d', None, m, st.st_mtime_ns, 0)
    if stat.S_ISREG(m):
        h = None
        if content:
            hh = hashlib.sha1()
            with open(p, 'rb') as f:
                while True:
                    b = f.read(1 << 22)
                    if not b:
                        break
                    hh.update(b)
            h = hh.hexdigest()
        return ('f', h, m, st.st_mtime_ns, st.st_size)
    return ('s', None, m, st.st_mtime_ns, 0)


def capture(root, deref=False, content=True, skip=None, special=False, into=None, prefix=''):
    """{relative path: entry}; the root itself is ''. Special files are left out unless asked for, as is whatever
    skip(absolute path) says."""
    out = {} if into is None else into
    if skip and skip(root):
        return out
    e = entry(root, deref, content)
    if e[0] == 's' and not special:
        return out
    out[prefix] = e
    if e[0] == 'd':
        for n in sorted(os.listdir(root)):
            capture(os.path.join(root, n), deref, content, skip, special, out, prefix + '/' + n if prefix else n)
    return out


def source(paths, deref=False, skip=None, content=True):
    """What a snapshot of these paths holds, keyed as in the snapshot: {basename/...: entry}."""
    out = {}
    for p in paths:
        capture(p, deref=deref, content=content, skip=skip, into=out, prefix=os.path.basename(p))
    return out


def differences(want, got, mode=True, mtime=True, link_mtime=False, limit=6, ignore=()):
    """Human-readable differences of two {path: entry}."""
    out = []
    for p in sorted(set(want) | set(got)):
        if p in ignore:
            continue
        if p not in got:
            out.append('%r is missing (%s)' % (p, want[p][0]))
        elif p not in want:
            out.append('%r should not be there (%s)' % (p, got[p][0]))
        else:
            w, g = want[p], got[p]
            if w[0] != g[0]:
                out.append('%r is %s, not %s' % (p, g[0], w[0]))
            elif w[1] != g[1]:
                out.append('%r holds %s, not %s (sizes %d, %d)' % (p, g[1], w[1], g[4], w[4]))
            elif w[0] == 'f' and w[4] != g[4]:
                out.append('%r has size %d, not %d' % (p, g[4], w[4]))
            elif mode and w[0] != 'l' and w[2] & 0o7777 != g[2] & 0o7777:
                out.append('%r has mode %o, not %o' % (p, g[2] & 0o7777, w[2] & 0o7777))
            elif mtime and (w[0] != 'l' or link_mtime) and w[3] != g[3]:
                out.append('%r has mtime %d, not %d' % (p, g[3], w[3]))
        if len(out) >= limit:
            break
    return out


def print_of(root, content=True, ctime=False):
    """A fingerprint of everything under root, for telling that nothing whatever changed."""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in [''] + dirs + files:
            p = os.path.join(d, n) if n else d
            try:
                st = os.lstat(p)
            except FileNotFoundError:
                continue
            rel = os.path.relpath(p, root)
            c = None
            if stat.S_ISLNK(st.st_mode):
                c = os.readlink(p)
            elif stat.S_ISREG(st.st_mode) and content:
                try:
                    with open(p, 'rb') as f:
                        c = hashlib.sha1(f.read()).hexdigest()
                except PermissionError:
                    c = 'unreadable'
            out[rel] = (st.st_mode, st.st_size if stat.S_ISREG(st.st_mode) else 0, st.st_mtime_ns, c) + ((st.st_ino, st.st_ctime_ns) if ctime else ())
    return out


def changed(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append('%r: %s -> %s' % (k, a.get(k), b.get(k)))
    return out[:6]


# ---------------------------------------------------------------- editing

_clock = [0]


def _later(p, rng):
    """Gives p an mtime nothing had before, so that the edit can be seen."""
    _clock[0] += 1
    settime(p, 1600000000 * SEC + rng.randrange(10 ** 8) * SEC + _clock[0])


class Writable:
    """Makes a directory writable for a while, putting its mode (not its time) back."""

    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.m = os.lstat(self.d).st_mode & 0o7777
        os.chmod(self.d, 0o755)

    def __exit__(self, *a):
        if os.path.isdir(self.d):
            os.chmod(self.d, self.m)


def _all(root):
    fs, ds, ls = [], [root], []
    for d, dirs, files in os.walk(root):
        for n in sorted(dirs + files):
            p = os.path.join(d, n)
            m = os.lstat(p).st_mode
            if stat.S_ISLNK(m):
                ls.append(p)
            elif stat.S_ISDIR(m):
                ds.append(p)
            elif stat.S_ISREG(m):
                fs.append(p)
    return sorted(fs), sorted(ds), sorted(ls)


def _remove(p):
    with Writable(os.path.dirname(p)):
        if os.path.isdir(p) and not os.path.islink(p):
            wipe(p)
        else:
            os.unlink(p)


def wipe(p):
    """Removes a tree whatever its modes."""
    os.chmod(p, 0o755)
    for d, dirs, files in os.walk(p):
        for n in dirs:
            q = os.path.join(d, n)
            if not os.path.islink(q):
                os.chmod(q, 0o755)
    shutil.rmtree(p)


EDITS = ['rewrite', 'append', 'truncate', 'flip', 'insert', 'rename', 'delete', 'newfile', 'newdir', 'swap', 'chmod', 'touch', 'retarget', 'chmoddir', 'touchdir',
         'movedir', 'deldir', 'copydir', 'newlink', 'exchange', 'dup', 'hardlink', 'empty']


def mutate(rng, root, n=4, edits=EDITS, names=None, size='small'):
    """Makes n random edits; returns their names."""
    done = []
    for _ in range(n * 3):
        if len(done) >= n:
            break
        fs, ds, ls = _all(root)
        e = rng.choice(edits)
        sub = [d for d in ds if d != root]
        try:
            if e in ('rewrite', 'append', 'truncate', 'flip', 'insert', 'chmod', 'touch', 'delete', 'rename', 'exchange', 'dup', 'empty') and not fs:
                continue
            if e == 'rewrite':
                p = rng.choice(fs)
                _data(p, blob_bytes(rng, rng.choice([0, 5, 3000, 70000, os.path.getsize(p)])), rng)
            elif e == 'append':
                p = rng.choice(fs)
                _data(p, _read(p) + blob_bytes(rng, rng.choice([1, 100, 5000])), rng)
            elif e == 'truncate':
                p = rng.choice(fs)
                b = _read(p)
                _data(p, b[:rng.randrange(len(b) + 1)], rng)
            elif e == 'flip':
                p = rng.choice(fs)
                b = bytearray(_read(p))
                if b:
                    b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
                _data(p, bytes(b), rng)
            elif e == 'insert':
                p = rng.choice(fs)
                b = _read(p)
                k = rng.randrange(len(b) + 1)
                _data(p, b[:k] + rng.randbytes(rng.choice([1, 3, 1000])) + b[k:], rng)
            elif e == 'empty':
                _data(rng.choice(fs), b'', rng)
            elif e == 'rename':
                p = rng.choice(fs + ls)
                d = rng.choice(ds)
                q = os.path.join(d, _new(rng, d))
                with Writable(os.path.dirname(p)), Writable(d):
                    os.rename(p, q)
            elif e == 'dup':
                p = rng.choice(fs)
                d = rng.choice(ds)
                q = os.path.join(d, _new(rng, d))
                with Writable(d):
                    shutil.copyfile(p, q)
                _later(q, rng)
            elif e == 'exchange':
                a, b = rng.choice(fs), rng.choice(fs)
                if a == b:
                    continue
                t = os.path.join(os.path.dirname(a), 'xchg-tmp')
                with Writable(os.path.dirname(a)), Writable(os.path.dirname(b)):
                    os.rename(a, t)
                    os.rename(b, a)
                    os.rename(t, b)
                _later(a, rng)
                _later(b, rng)
            elif e == 'delete':
                _remove(rng.choice(fs + ls))
            elif e == 'newfile':
                d = rng.choice(ds)
                q = os.path.join(d, _new(rng, d))
                with Writable(d):
                    write(q, blob_bytes(rng, rng.choice([0, 10, 4000, 100000])))
                _later(q, rng)
            elif e == 'newdir':
                d = rng.choice(ds)
                q = os.path.join(d, _new(rng, d))
                with Writable(d):
                    os.mkdir(q)
                if rng.random() < 0.7:
                    write(os.path.join(q, 'f'), rng.randbytes(50))
            elif e == 'newlink':
                d = rng.choice(ds)
                with Writable(d):
                    os.symlink(rng.choice(TARGETS), os.path.join(d, _new(rng, d)))
            elif e == 'retarget':
                if not ls:
                    continue
                p = rng.choice(ls)
                old = os.readlink(p)
                with Writable(os.path.dirname(p)):
                    os.unlink(p)
                    os.symlink(rng.choice([t for t in TARGETS if t != old]), p)
            elif e == 'swap':
                p = rng.choice(fs + ls + sub)
                k = kind(p)
                to = rng.choice([x for x in 'fdl' if x != k])
                _remove(p)
                with Writable(os.path.dirname(p)):
                    if to == 'f':
                        write(p, rng.randbytes(rng.choice([0, 30])))
                        _later(p, rng)
                    elif to == 'l':
                        os.symlink(rng.choice(TARGETS), p)
                    else:
                        os.mkdir(p)
                        if rng.random() < 0.6:
                            write(os.path.join(p, 'in'), rng.randbytes(20))
            elif e == 'chmod':
                p = rng.choice(fs)
                os.chmod(p, rng.choice(FILE_MODES) | 0o400)
            elif e == 'touch':
                _later(rng.choice(fs), rng)
            elif e == 'chmoddir':
                os.chmod(rng.choice(ds), rng.choice(DIR_MODES) | 0o500)
            elif e == 'touchdir':
                _later(rng.choice(ds), rng)
            elif e in ('movedir', 'copydir', 'deldir'):
                if not sub:
                    continue
                p = rng.choice(sub)
                if e == 'deldir':
                    _remove(p)
                else:
                    d = rng.choice([x for x in ds if not (x + '/').startswith(p + '/')])
                    q = os.path.join(d, _new(rng, d))
                    m = os.lstat(p).st_mode & 0o7777
                    if e == 'movedir':
                        with Writable(os.path.dirname(p)), Writable(d):
                            os.chmod(p, 0o755)
                            os.rename(p, q)
                            os.chmod(q, m)
                    else:
                        with Writable(d):
                            shutil.copytree(p, q, symlinks=True)
            elif e == 'hardlink':
                if len(fs) < 2:
                    continue
                a, b = rng.sample(fs, 2)
                with Writable(os.path.dirname(b)):
                    os.unlink(b)
                    os.link(a, b)
                _later(a, rng)
            done.append(e)
        except (FileNotFoundError, NotADirectoryError, shutil.Error, PermissionError, IndexError):
            continue
    return done


def hardlinked(root):
    return any(os.lstat(p).st_nlink > 1 for p in _all(root)[0])


def kind(p):
    m = os.lstat(p).st_mode
    return 'l' if stat.S_ISLNK(m) else 'd' if stat.S_ISDIR(m) else 'f'


def _new(rng, d):
    while True:
        n = rng.choice(NAMES + ['new%d' % rng.randrange(10 ** 6)] * 20)
        if not os.path.lexists(os.path.join(d, n)):
            return n


def _read(p):
    m = os.lstat(p).st_mode & 0o7777
    if not m & 0o400:
        os.chmod(p, m | 0o400)
    with open(p, 'rb') as f:
        return f.read()


def _data(p, data, rng):
    m = os.lstat(p).st_mode & 0o7777
    os.chmod(p, 0o600)
    write(p, data)
    os.chmod(p, m | 0o400)
    _later(p, rng)


def copy(a, b):
    """A copy of a tree, times and modes and all."""
    shutil.copytree(a, b, symlinks=True)

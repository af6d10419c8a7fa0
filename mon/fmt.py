"""An independent reading of backpak's repository format (docs/src/formats.md): codec, decoder, auditor, writer."""
import base64
import calendar
import ctypes
import hashlib
import os
import re
import struct
import subprocess
import tomllib

from core import Violation

# ---------------------------------------------------------------- IDs

_STD, _HEX = b'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567', b'0123456789abcdefghijklmnopqrstuv'
_TO = bytes.maketrans(_STD, _HEX)
_FROM = bytes.maketrans(_HEX, _STD)


def name_of(raw):
    return base64.b32encode(raw).rstrip(b'=').translate(_TO).decode()


def raw_of(name):
    b = name.encode().translate(_FROM)
    return base64.b32decode(b + b'=' * (-len(b) % 8))


def sha(b):
    return hashlib.sha224(b).digest()


ID_LEN = 45     # characters of a name

# ---------------------------------------------------------------- zstd

_z = ctypes.CDLL('libzstd.so.1')


class _Buf(ctypes.Structure):
    _fields_ = [('p', ctypes.c_void_p), ('size', ctypes.c_size_t), ('pos', ctypes.c_size_t)]


for _n in ('ZSTD_createDStream', 'ZSTD_createCCtx'):
    getattr(_z, _n).restype = ctypes.c_void_p
_z.ZSTD_freeDStream.argtypes = [ctypes.c_void_p]
_z.ZSTD_DCtx_setParameter.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int]
_z.ZSTD_decompressStream.argtypes = [ctypes.c_void_p, ctypes.POINTER(_Buf), ctypes.POINTER(_Buf)]
_z.ZSTD_decompressStream.restype = ctypes.c_size_t
_z.ZSTD_isError.argtypes = [ctypes.c_size_t]
_z.ZSTD_compressBound.argtypes = [ctypes.c_size_t]
_z.ZSTD_compressBound.restype = ctypes.c_size_t
_z.ZSTD_compress.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_int]
_z.ZSTD_compress.restype = ctypes.c_size_t


class Bad(Exception):
    """The bytes do not follow the documented format."""


def unzstd(data):
    """Decompresses exactly one frame that fills data."""
    d = _z.ZSTD_createDStream()
    try:
        _z.ZSTD_DCtx_setParameter(d, 100, 31)   # ZSTD_d_windowLogMax
        src = ctypes.create_string_buffer(bytes(data), len(data))
        i = _Buf(ctypes.cast(src, ctypes.c_void_p), len(data), 0)
        cap = 1 << 20
        dst = ctypes.create_string_buffer(cap)
        out = []
        rc = 1
        while rc:
            o = _Buf(ctypes.cast(dst, ctypes.c_void_p), cap, 0)
            before = i.pos
            rc = _z.ZSTD_decompressStream(d, ctypes.byref(o), ctypes.byref(i))
            if _z.ZSTD_isError(rc):
                raise Bad('zstd stream is corrupt')
            out.append(ctypes.string_at(dst, o.pos))
            if rc and i.pos == before and o.pos == 0:
                raise Bad('zstd stream is cut short')
        if i.pos != len(data):
            raise Bad('bytes after the zstd frame')
        return b''.join(out)
    finally:
        _z.ZSTD_freeDStream(d)


def zstd(data, level=3):
    cap = _z.ZSTD_compressBound(len(data))
    dst = ctypes.create_string_buffer(cap)
    n = _z.ZSTD_compress(ctypes.cast(dst, ctypes.c_void_p), cap, bytes(data), len(data), level)
    assert not _z.ZSTD_isError(n)
    return dst.raw[:n]


# ---------------------------------------------------------------- CBOR

class _Dec:
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise Bad('CBOR is cut short')
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def head(self):
        c = self.take(1)[0]
        maj, ai = c >> 5, c & 31
        if ai < 24:
            return maj, ai, False
        if ai <= 27:
            return maj, int.from_bytes(self.take(1 << (ai - 24)), 'big'), False
        if ai == 31:
            return maj, None, True
        raise Bad('reserved CBOR head')

    def value(self, depth=0):
        if depth > 60:
            raise Bad('CBOR nests too deep')
        maj, n, indef = self.head()
        if maj == 0:
            return n
        if maj == 1:
            return -1 - n
        if maj in (2, 3):
            if indef:
                parts = []
                while self.b[self.i:self.i + 1] != b'\xff':
                    parts.append(self.value(depth + 1))
                self.i += 1
                return (b'' if maj == 2 else '').join(parts)
            r = self.take(n)
            if maj == 2:
                return bytes(r)
            try:
                return bytes(r).decode('utf-8')
            except UnicodeDecodeError:
                raise Bad('text is not UTF-8')
        if maj == 4:
            out = []
            while self.more(n, indef, len(out)):
                out.append(self.value(depth + 1))
            return out
        if maj == 5:
            out = {}
            k = 0
            while self.more(n, indef, k):
                key = self.value(depth + 1)
                if key in out:
                    raise Bad('key %r twice' % key)
                out[key] = self.value(depth + 1)
                k += 1
            return out
        if maj == 6:
            v = self.value(depth + 1)
            if n == 2:
                return int.from_bytes(v, 'big')
            if n == 3:
                return -1 - int.from_bytes(v, 'big')
            return v
        if n == 20:
            return False
        if n == 21:
            return True
        if n in (22, 23):
            return None
        raise Bad('unexpected CBOR simple value')

    def more(self, n, indef, k):
        if not indef:
            return k < n
        if self.b[self.i:self.i + 1] == b'\xff':
            self.i += 1
            return False
        return True


def uncbor(b):
    d = _Dec(b)
    v = d.value()
    if d.i != len(b):
        raise Bad('bytes after the CBOR item')
    return v


class Indef(dict):
    """A map to be written with indefinite length."""


def cbor(v):
    def head(m, n):
        if n < 24:
            return bytes([m << 5 | n])
        for ai, w in ((24, 1), (25, 2), (26, 4), (27, 8)):
            if n < 1 << (8 * w):
                return bytes([m << 5 | ai]) + n.to_bytes(w, 'big')
        raise ValueError(n)
    if v is True or v is False:
        return b'\xf5' if v else b'\xf4'
    if v is None:
        return b'\xf6'
    if isinstance(v, int):
        return head(0, v) if v >= 0 else head(1, -1 - v)
    if isinstance(v, bytes):
        return head(2, len(v)) + v
    if isinstance(v, str):
        b = v.encode()
        return head(3, len(b)) + b
    if isinstance(v, (list, tuple)):
        return head(4, len(v)) + b''.join(map(cbor, v))
    if isinstance(v, Indef):
        return b'\xbf' + b''.join(cbor(k) + cbor(x) for k, x in v.items()) + b'\xff'
    if isinstance(v, dict):
        return head(5, len(v)) + b''.join(cbor(k) + cbor(x) for k, x in v.items())
    raise TypeError(type(v))


# ---------------------------------------------------------------- objects

PAK, IDX, SNP = b'MKBAKPAK1', b'MKBAKIDX1', b'MKBAKSNP'


def parse_pack(b):
    """Returns (manifest cbor, [(type, length, id)], stream)."""
    if b[:9] != PAK or len(b) < 13:
        raise Bad('not a pack')
    n = struct.unpack('>I', b[-4:])[0]
    if 9 + n + 4 > len(b):
        raise Bad('manifest length %d of a pack of %d bytes' % (n, len(b)))
    man = unzstd(b[len(b) - 4 - n:-4])
    stream = unzstd(b[9:len(b) - 4 - n])
    return man, parse_manifest(uncbor(man)), stream


def parse_manifest(v):
    out = []
    if not isinstance(v, list):
        raise Bad('manifest is not a list')
    for e in v:
        if not isinstance(e, dict) or list(e) != ['type', 'length', 'id']:
            raise Bad('manifest entry %r' % (e,))
        if e['type'] not in ('chunk', 'tree') or not isinstance(e['length'], int) or not isinstance(e['id'], bytes) or len(e['id']) != 28:
            raise Bad('manifest entry %r' % (e,))
        out.append((e['type'], e['length'], e['id']))
    return out


def parse_index(b):
    """Returns (cbor, {superseded ids}, {pack id: manifest})."""
    if b[:9] != IDX:
        raise Bad('not an index')
    c = unzstd(b[9:])
    v = uncbor(c)
    if not isinstance(v, dict) or set(v) != {'supersedes', 'packs'}:
        raise Bad('index of %r' % (v,))
    sup = v['supersedes']
    if len(set(sup)) != len(sup) or list(sup) != sorted(sup):
        raise Bad('superseded IDs are not a sorted set')
    if list(v['packs']) != sorted(v['packs']):
        raise Bad('packs of an index are not sorted')
    return c, set(sup), {k: parse_manifest(m) for k, m in v['packs'].items()}


class Snap:
    __slots__ = ('id', 'name', 'version', 'time', 'tz', 'author', 'tags', 'paths', 'tree', 'raw')

    def key(self):
        return (self.time, self.id)

    def facts(self):
        return (self.time, self.tz, self.author, tuple(self.tags), tuple(self.paths), self.tree)


def parse_snapshot(b):
    if b[:8] != SNP:
        raise Bad('not a snapshot')
    ver = b[8:9]
    v = uncbor(b[9:])
    s = Snap()
    s.raw, s.id = b[9:], sha(b[9:])
    s.name = name_of(s.id)
    s.version = int(ver)
    if ver == b'2':
        if set(v) - {'tags'} != {'time', 'tz', 'author', 'paths', 'tree'}:
            raise Bad('snapshot fields %r' % list(v))
        if 'tags' in v and not v['tags']:
            raise Bad('empty tags are written out')
        s.time, s.tz = v['time'], v['tz']
    elif ver == b'1':
        if set(v) != {'time', 'author', 'tags', 'paths', 'tree'}:
            raise Bad('snapshot fields %r' % list(v))
        s.time, s.tz = v1_time(v['time']), None
    else:
        raise Bad('snapshot version %r' % ver)
    s.author, s.tags, s.paths, s.tree = v['author'], v.get('tags', []), v['paths'], v['tree']
    if not isinstance(s.tree, bytes) or len(s.tree) != 28:
        raise Bad('snapshot tree %r' % s.tree)
    for l in (s.tags, s.paths):
        if list(l) != sorted(set(l), key=lambda x: x.split('/') if x.startswith('/') else x):
            raise Bad('snapshot lists %r out of order' % (l,))
    return s


def v1_time(text):
    """Nanoseconds since the epoch of a version-1 snapshot's time."""
    m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)[T ](\d\d):(\d\d):(\d\d)(?:\.(\d{1,9}))?(Z|[+-]\d\d:\d\d)(?:\[[^]]*\])?', text)
    if not m:
        raise Bad('time %r' % text)
    g = m.groups()
    t = calendar.timegm(tuple(int(x) for x in g[:6]) + (0, 0, 0))
    if g[7] != 'Z':
        t -= (1 if g[7][0] == '+' else -1) * (int(g[7][1:3]) * 3600 + int(g[7][4:6]) * 60)
    return t * 10 ** 9 + int((g[6] or '0').ljust(9, '0'))


KINDS = {'chunks': 'f', 'tree': 'd', 'symlink': 'l'}


def parse_tree(b):
    """{name: (kind, content, metadata)}"""
    v = uncbor(b)
    if not isinstance(v, dict):
        raise Bad('tree is not a map')
    out = {}
    for name, n in v.items():
        if not isinstance(name, str) or not name or '/' in name or name in ('.', '..') or '\0' in name:
            raise Bad('name %r in a tree' % (name,))
        ks = set(n) - {'metadata'}
        if len(ks) != 1 or not ks <= set(KINDS) or 'metadata' not in n:
            raise Bad('node %r' % (n,))
        k = ks.pop()
        m = n['metadata']
        if m.get('type') == 'posix':
            fmt = m['mode'] & 0o170000
            if fmt != {'f': 0o100000, 'd': 0o40000, 'l': 0o120000}[KINDS[k]]:
                raise Bad('%s has mode %o' % (k, m['mode']))
            if ('size' in m) != (k == 'chunks'):
                raise Bad('size of a %s' % k)
        out[name] = (KINDS[k], n[k], m)
    return out


def run_filter(cmd, data):
    """As backpak does: through the shell."""
    r = subprocess.run(['sh', '-c', cmd], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise Bad('unfilter failed: %s' % r.stderr[-300:])
    return r.stdout


class Repo:
    """What is in a repository directory, read without backpak."""

    def __init__(self, path):
        self.path = path
        with open(os.path.join(path, 'config.toml'), 'rb') as f:
            self.config = tomllib.load(f)
        self.unfilter = self.config.get('unfilter')
        self._stream = {}
        self._raw = {}

    def files(self):
        """All files, relative to the repository."""
        out = []
        for d, dirs, files in os.walk(self.path):
            for f in files:
                out.append(os.path.relpath(os.path.join(d, f), self.path))
        return sorted(out)

    def read(self, rel):
        with open(os.path.join(self.path, rel), 'rb') as f:
            b = f.read()
        if self.unfilter and rel != 'config.toml':
            b = run_filter(self.unfilter, b)
        return b

    def load(self, strict=True, streams=True, leftovers=False):
        """Decodes everything. Whatever is amiss is a violation."""
        self.packs, self.indexes, self.snaps, self.extra = {}, {}, {}, []
        self.sizes = {}
        for f in self.files():
            parts = f.split('/')
            if f == 'config.toml':
                continue
            ok = len(parts) == 2 and parts[0] in ('packs', 'indexes', 'snapshots') and parts[1].endswith({'packs': '.pack', 'indexes': '.index', 'snapshots': '.snapshot'}[parts[0]])
            if not ok:
                self.extra.append(f)
                continue
            stem = parts[1].rsplit('.', 1)[0]
            try:
                b = self.read(f)
                self.sizes[f] = os.path.getsize(os.path.join(self.path, f))
                if parts[0] == 'packs':
                    man, entries, stream = parse_pack(b)
                    if name_of(sha(man)) != stem:
                        raise Bad('its manifest hashes to %s' % name_of(sha(man)))
                    self._check_stream(entries, stream)
                    self.packs[raw_of(stem)] = entries
                    if streams:
                        self._stream[raw_of(stem)] = stream
                elif parts[0] == 'indexes':
                    c, sup, packs = parse_index(b)
                    if name_of(sha(c)) != stem:
                        raise Bad('its content hashes to %s' % name_of(sha(c)))
                    self.indexes[raw_of(stem)] = (sup, packs)
                else:
                    s = parse_snapshot(b)
                    if s.name != stem:
                        raise Bad('its content hashes to %s' % s.name)
                    self.snaps[s.id] = s
            except Bad as e:
                raise Violation('%s in the repository is not a well-formed object: %s' % (f, e))
        if self.extra and not leftovers:
            raise Violation('files that are no objects are left in the repository: %s' % self.extra[:5])
        self._resolve()
        return self

    @staticmethod
    def _check_stream(entries, stream):
        off = 0
        for t, n, i in entries:
            if sha(stream[off:off + n]) != i:
                raise Bad('blob %s does not hash to its ID' % name_of(i))
            off += n
        if off != len(stream):
            raise Bad('manifest lists %d bytes, the stream has %d' % (off, len(stream)))

    def _resolve(self):
        gone = set()
        for sup, _ in self.indexes.values():
            gone |= sup
        self.superseded = gone & set(self.indexes)
        self.inforce = {i: v for i, v in self.indexes.items() if i not in gone}
        self.indexed = {}
        for sup, packs in self.inforce.values():
            for p, m in packs.items():
                self.indexed[p] = m
        self.blobs = {}         # id -> (type, length, pack, offset)
        self.copies = {}
        self.types = {}
        for p, m in self.indexed.items():
            off = 0
            for t, n, i in m:
                self.blobs.setdefault(i, (t, n, p, off))
                self.copies[i] = self.copies.get(i, 0) + 1
                self.types.setdefault(i, set()).add(t)
                off += n

    def blob(self, i):
        if i not in self.blobs:
            raise Violation('%s is in no index in force' % name_of(i))
        t, n, p, off = self.blobs[i]
        if p not in self._stream:
            if p not in self.packs:
                raise Violation('pack %s that an index names is not there' % name_of(p))
            raise Violation('pack %s is not loaded' % name_of(p))
        return self._stream[p][off:off + n]

    def tree(self, i):
        b = b'\xa0' if i == EMPTY_TREE else self.blob(i)
        try:
            return parse_tree(b)
        except Bad as e:
            raise Violation('tree %s: %s' % (name_of(i), e))

    def reach(self, root, acc=None):
        """All blobs a tree reaches, {id: type}; the empty tree only where it is stored."""
        acc = {} if acc is None else acc
        if root in acc and acc[root] in ('tree', 'both'):
            return acc
        if root != EMPTY_TREE or root in self.blobs:
            acc[root] = 'tree' if root not in acc else 'both'
        for name, (k, c, m) in self.tree(root).items():
            if k == 'd':
                self.reach(c, acc)
            elif k == 'f':
                for i in c:
                    self.blob(i)
                    acc[i] = 'chunk' if acc.get(i, 'chunk') == 'chunk' else 'both'
        return acc

    def reach_all(self, snaps=None):
        acc = {}
        for s in (self.snaps.values() if snaps is None else snaps):
            self.reach(s.tree, acc)
        return acc

    def audit(self, one_copy=False, unindexed=False, stale_indexes=False):
        """Closure under reference."""
        for i, (sup, packs) in self.inforce.items():
            for p, m in packs.items():
                if p not in self.packs:
                    raise Violation('index %s names pack %s, which does not exist' % (name_of(i), name_of(p)))
                if self.packs[p] != m:
                    raise Violation('index %s lists pack %s wrongly' % (name_of(i), name_of(p)))
        for s in self.snaps.values():
            self.reach(s.tree)
            names = sorted(os.path.basename(p) for p in s.paths)
            if s.version == 2 and not set(self.tree(s.tree)) <= set(names):
                raise Violation('snapshot %s of %s has a root of %s' % (s.name, s.paths, sorted(self.tree(s.tree))))
        if self.superseded and not stale_indexes:
            raise Violation('superseded indexes are left: %s' % [name_of(i) for i in self.superseded])
        if not unindexed:
            un = set(self.packs) - set(self.indexed)
            if un:
                raise Violation('packs no index names: %s' % [name_of(p) for p in un])
        if one_copy:
            for i, n in self.copies.items():
                if n > len(self.types[i]):
                    raise Violation('blob %s is stored %d times' % (name_of(i), n))
        return self

    def ordered(self):
        return sorted(self.snaps.values(), key=Snap.key)

    def entries(self, s, sizes=True):
        """{path below the root: (kind, content, mode, mtime)} of a snapshot; content is a hash, a target or None."""
        out = {}
        cache = self.__dict__.setdefault('_fh', {})

        def walk(i, pre):
            for name, (k, c, m) in self.tree(i).items():
                p = pre + name
                mode, mtime = m['mode'], m['mtime']
                if k == 'f':
                    key = tuple(c)
                    if key not in cache:
                        h = hashlib.sha1()
                        n = 0
                        for x in c:
                            b = self.blob(x)
                            h.update(b)
                            n += len(b)
                        cache[key] = (h.hexdigest(), n)
                    hx, n = cache[key]
                    if sizes and n != m['size']:
                        raise Violation('%s is recorded with size %d but has %d bytes' % (p, m['size'], n))
                    out[p] = ('f', hx, mode, mtime, n)
                elif k == 'l':
                    out[p] = ('l', c, mode, mtime, 0)
                else:
                    out[p] = ('d', None, mode, mtime, 0)
                    walk(c, p + '/')
        walk(s.tree, '')
        return out


EMPTY_TREE = sha(b'\xa0')


def open_repo(path, **kw):
    return Repo(path).load(**kw)


# ---------------------------------------------------------------- writing (for documented-format inputs)

def make_pack(blobs, level=3):
    """blobs: [(type, bytes)]; returns (id, file bytes, manifest entries)."""
    man = [dict(type=t, length=len(b), id=sha(b)) for t, b in blobs]
    c = cbor(man)
    z = zstd(c, level)
    return sha(c), PAK + zstd(b''.join(b for _, b in blobs), level) + z + struct.pack('>I', len(z)), man


def make_index(packs, supersedes=()):
    c = cbor(dict(supersedes=sorted(supersedes), packs={k: packs[k] for k in sorted(packs)}))
    return sha(c), IDX + zstd(c)


def make_snapshot(time, tz, author, tags, paths, tree):
    v = dict(time=time, tz=tz, author=author)
    if tags:
        v['tags'] = sorted(tags)
    v.update(paths=sorted(paths), tree=tree)
    c = cbor(v)
    return sha(c), SNP + b'2' + c


def make_snapshot_v1(time, author, tags, paths, tree):
    c = cbor(dict(time=time, author=author, tags=sorted(tags), paths=sorted(paths), tree=tree))
    return sha(c), SNP + b'1' + c


def put(repo, kind, i, data):
    with open(os.path.join(repo, {'pack': 'packs', 'index': 'indexes', 'snapshot': 'snapshots'}[kind], '%s.%s' % (name_of(i), kind)), 'wb') as f:
        f.write(data)

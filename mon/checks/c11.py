"""C11: damage to stored data is detected and never restored as if good."""
import os
import re
import shutil

import fmt
import tree
from core import Violation
from ops import History
from world import FILTERS, World, random_world, sources

LEVEL = 'exploration'
BUDGET = (35, 1200)
RULE = ('Repositories made by random histories are damaged, once or a few times: bits flipped, bytes set, inserted, removed, zeroed or overwritten, files cut short, emptied, extended, deleted, swapped, replaced by others of '
        'their or another kind, by older ones, or by well-formed files of other contents, copied to other names, and (before the filter runs) manifests, frames and maps changed and packed again; one small '
        'repository at every single byte. Then either check -r fails or each snapshot that is left restores exactly, and any restore, dump, ls, diff or cat that succeeds gives what it gave before the damage; likewise after '
        'prune, rebuild-index, filter-snapshot, copy, forget or another backup ran on the damaged files. Distinct: (damage, kind of file, part of it, outcome of check, outcome of reading).')
ASSUMES = ['no damage keeps a SHA-224 hash', 'an index and its name altered together to hide packs (a forgery, not damage) is not tried']

SUBS = ('packs', 'indexes', 'snapshots')


def stored(repo):
    return ['%s/%s' % (s, f) for s in SUBS for f in sorted(os.listdir(os.path.join(repo, s)))]


def part(rel, b, at):
    """Which part of a file an offset is in."""
    if at < 8:
        return 'magic'
    if at == 8:
        return 'version'
    if rel.startswith('packs/') and b[:9] == fmt.PAK:
        n = int.from_bytes(b[-4:], 'big')
        if at >= len(b) - 4:
            return 'manifest length'
        if at >= len(b) - 4 - n:
            return 'manifest'
        return 'frame head' if at < 15 else 'stream'
    return 'frame head' if at < 15 else 'body'


def spot(r, b):
    """An offset, the interesting ones more often."""
    n = len(b)
    if r.random() < 0.35:
        m = int.from_bytes(b[-4:], 'big') if n > 13 else 0
        at = r.choice([0, 7, 8, 9, 10, 13, 14, n - 1, n - 2, n - 4, n - 5, n - 8, n - 9, n - 4 - m, n - 5 - m, n - m, n - 4 - m + 5, n // 2])
        if 0 <= at < n:
            return at
    return r.randrange(n)


BYTES = ['flip', 'flip', 'flip', 'flip', 'set', 'zero', 'overwrite', 'insert', 'remove', 'cut', 'empty', 'append', 'append zeros', 'double', 'exchange']
FILES = ['delete', 'delete', 'swap', 'replace', 'other kind', 'copy over', 'rename', 'remake', 'remake', 'as directory', 'older', 'forge', 'forge']


def spoil(r, how, b):
    """The bytes after some damage, and where it is."""
    if not b:
        return b'\0', 0
    at = spot(r, b)
    n = len(b)
    if how == 'flip':
        return b[:at] + bytes([b[at] ^ 1 << r.randrange(8)]) + b[at + 1:], at
    if how == 'set':
        return b[:at] + bytes([r.choice([0, 255, (b[at] + 1) % 256, b[at] ^ 0xff, r.randrange(256)])]) + b[at + 1:], at
    k = min(n - at, r.choice([1, 4, 16, 100, 4096]))
    if how == 'zero':
        return b[:at] + bytes(k) + b[at + k:], at
    if how == 'overwrite':
        return b[:at] + r.randbytes(k) + b[at + k:], at
    if how == 'insert':
        return b[:at] + r.randbytes(r.choice([1, 4, 30])) + b[at:], at
    if how == 'remove':
        return b[:at] + b[at + k:], at
    if how == 'cut':
        return b[:at], at
    if how == 'empty':
        return b'', 0
    if how == 'append':
        return b + r.randbytes(r.choice([1, 4, 100])), n
    if how == 'append zeros':
        return b + bytes(r.choice([1, 4, 512])), n
    if how == 'double':
        return b + b, n
    # Two runs of bytes change places.
    a2 = spot(r, b)
    x, y = sorted((at, a2))
    k = min(k, y - x, n - y)
    if k < 1:
        return b[::-1], 0
    return b[:x] + b[y:y + k] + b[x + k:y] + b[x:x + k] + b[y + k:], x


def remake(r, rel, b, pool, kinds=None):
    """A well-formed file with other contents under the old name. Returns the bytes and what was done."""
    if rel.startswith('packs/'):
        man, entries, stream = fmt.parse_pack(b)
        k = r.choice(['stream byte', 'blob order', 'drop blob', 'extra bytes', 'short stream', 'lengths', 'types', 'ids', 'manifest order', 'no blobs', 'other stream'])
        v = [dict(type=t, length=n, id=i) for t, n, i in entries]
        if k == 'stream byte' and stream:
            at = r.randrange(len(stream))
            stream = stream[:at] + bytes([stream[at] ^ 1 << r.randrange(8)]) + stream[at + 1:]
        elif k == 'blob order':
            stream = stream[::-1] if len(entries) < 2 else stream[entries[0][1]:] + stream[:entries[0][1]]
        elif k == 'drop blob' and len(v) > 1:
            at = r.randrange(len(v))
            off = sum(e['length'] for e in v[:at])
            stream = stream[:off] + stream[off + v[at]['length']:]
            if r.random() < 0.5:
                del v[at]
        elif k == 'extra bytes':
            stream += r.randbytes(r.choice([1, 50]))
        elif k == 'short stream':
            stream = stream[:-1]
        elif k == 'lengths' and len(v) > 1:
            a, c = r.sample(range(len(v)), 2)
            v[a]['length'], v[c]['length'] = v[c]['length'], v[a]['length']
        elif k == 'types':
            e = r.choice(v)
            e['type'] = 'tree' if e['type'] == 'chunk' else 'chunk'
        elif k == 'ids' and len(v) > 1:
            a, c = r.sample(range(len(v)), 2)
            v[a]['id'], v[c]['id'] = v[c]['id'], v[a]['id']
        elif k == 'manifest order':
            r.shuffle(v)
        elif k == 'no blobs':
            v, stream = [], b''
        else:
            stream = r.randbytes(len(stream))
        z = fmt.zstd(fmt.cbor(v))
        return fmt.PAK + fmt.zstd(stream) + z + len(z).to_bytes(4, 'big'), k
    if rel.startswith('indexes/'):
        c, sup, packs = fmt.parse_index(b)
        packs = {p: [dict(type=t, length=n, id=i) for t, n, i in m] for p, m in packs.items()}
        k = r.choice(kinds or ['no packs', 'drop pack', 'drop blob', 'supersede', 'lengths', 'ids', 'pack id', 'merge'])
        ids = sorted(packs)
        if k == 'no packs' or not ids:
            packs = {}
        elif k == 'drop pack':
            del packs[r.choice(ids)]
        elif k == 'supersede':
            sup = set(sup) | set(pool['indexes'])
        elif k == 'pack id':
            packs[r.choice(pool['packs'])] = packs.pop(r.choice(ids))
        elif k == 'merge':
            packs[r.randbytes(28)] = packs[r.choice(ids)]
        else:
            m = packs[r.choice(ids)]
            if k == 'types':
                e = r.choice(m)
                e['type'] = 'tree' if e['type'] == 'chunk' else 'chunk'
            elif k == 'drop blob':
                del m[r.randrange(len(m))]
            elif len(m) > 1:
                a, d = r.sample(range(len(m)), 2)
                f = 'length' if k == 'lengths' else 'id'
                m[a][f], m[d][f] = m[d][f], m[a][f]
        return fmt.IDX + fmt.zstd(fmt.cbor(dict(supersedes=sorted(sup), packs={p: packs[p] for p in sorted(packs)}))), k
    v = fmt.uncbor(b[9:])
    k = r.choice(['tree', 'author', 'time', 'paths', 'tags'])
    if k == 'tree':
        v['tree'] = r.choice(pool['trees'])
    elif k == 'author':
        v['author'] += 'x'
    elif k == 'time':
        v['time'] += 10 ** 9
    elif k == 'paths':
        v['paths'] = [p + 'x' for p in v['paths']]
    else:
        v['tags'] = ['forged']
    return b[:9] + fmt.cbor(v), k


class Subject:
    """A sound repository, what reading it gives, and copies to damage."""

    def __init__(self, c, w, R=None):
        self.c, self.w = c, w
        self.R = R = R or w.open(leftovers=True)
        self.files = {f: tree._read(os.path.join(w.repo, f)) for f in stored(w.repo)}
        self.pool = dict(packs=sorted(R.packs), indexes=sorted(R.indexes), trees=sorted({i for i, e in R.blobs.items() if e[0] == 'tree'} | {fmt.EMPTY_TREE}))
        r = c.rng
        self.reads = {}
        ids = [s.id for s in R.ordered()]
        cmds = []
        for i in ids:
            n = fmt.name_of(i)
            cmds += [('ls', n), ('cat', 'snapshot', n), ('diff', '-m', n, fmt.name_of(r.choice(ids)))]
            fs = sorted(p for p, e in w.model[i].items() if e[0] == 'f')
            cmds += [('dump', n, '--', p) for p in r.sample(fs, min(2, len(fs)))]
        bs = sorted(R.blobs)
        cmds += [('cat', 'blob', fmt.name_of(i)) for i in r.sample(bs, min(4, len(bs)))]
        for sub, kind in (('indexes', 'index'), ('packs', 'pack')):
            cmds += [('cat', kind, fmt.name_of(i)) for i in sorted(getattr(R, sub))[:2]]
        for a in cmds:
            p = w.run(*a)
            if p.rc == 0:
                self.reads[a] = p.out
        self.cmds = sorted(self.reads)
        self.repo = c.path('hurt')
        shutil.copytree(w.repo, self.repo)

    def mend(self):
        for s in SUBS:
            d = os.path.join(self.repo, s)
            for f in os.listdir(d):
                p = os.path.join(d, f)
                rel = '%s/%s' % (s, f)
                if os.path.isdir(p):
                    os.rmdir(p)
                elif rel not in self.files or os.path.getsize(p) != len(self.files[rel]) or tree._read(p) != self.files[rel]:
                    os.unlink(p)
        for rel, b in self.files.items():
            if not os.path.lexists(os.path.join(self.repo, rel)):
                tree.write(os.path.join(self.repo, rel), b)

    def put(self, rel, b):
        tree.write(os.path.join(self.repo, rel), b)

    def plain(self, b):
        return fmt.run_filter(self.w.filt[2], b) if self.w.filt else b

    def hide(self, b):
        return fmt.run_filter(self.w.filt[1], b) if self.w.filt else b

    def hurt(self, rel=None):
        """One damage; returns its name."""
        r = self.c.rng
        here = [f for f in stored(self.repo) if os.path.isfile(os.path.join(self.repo, f))]
        if not here:
            return None
        # Each kind of file as often as the others, however many there are.
        sub = r.choice(SUBS + ('packs', 'indexes'))
        mine = [f for f in here if f.startswith(sub)] or here
        rel = rel or r.choice(mine)
        b = tree._read(os.path.join(self.repo, rel))
        path = os.path.join(self.repo, rel)
        how = r.choice(BYTES) if r.random() < 0.6 else r.choice(FILES)
        where = ''
        if how in BYTES:
            inner = self.w.filt and r.random() < 0.6
            x = self.plain(b) if inner and self.files.get(rel) == b else b
            y, at = spoil(r, how, x)
            where = part(rel, x, at)
            self.put(rel, self.hide(y) if x is not b else y)
        elif how == 'delete':
            os.unlink(path)
        elif how == 'rename':
            os.rename(path, os.path.join(self.repo, rel.split('/')[0], fmt.name_of(r.randbytes(28)) + '.' + rel.rsplit('.', 1)[1]))
        elif how == 'as directory':
            os.unlink(path)
            os.mkdir(path)
        elif how in ('remake', 'forge'):
            if how == 'forge':
                rel = r.choice([f for f in here if f.startswith('indexes/')] or [rel])
                path = os.path.join(self.repo, rel)
                b = tree._read(path)
            if self.files.get(rel) != b:
                return None
            try:
                y, where = remake(r, rel, self.plain(b), self.pool, ['lengths', 'ids', 'types'] if how == 'forge' else None)
            except (IndexError, ValueError):
                return None
            if y == self.plain(b):
                return None
            if where in ('lengths', 'ids', 'types') and rel.startswith('indexes/') and (how == 'forge' or r.random() < 0.5):
                # Under the name it should have: nothing but the packs themselves tells that it is wrong.
                os.unlink(path)
                rel = 'indexes/%s.index' % fmt.name_of(fmt.sha(fmt.unzstd(y[9:])))
                where += ' renamed'
            self.put(rel, self.hide(y))
        elif how == 'older' or how == 'copy over':
            # A file of the same kind, well-formed, from here; `older` under a new, made-up name too.
            o = r.choice(mine)
            if o == rel:
                return None
            self.put(rel, tree._read(os.path.join(self.repo, o)))
            if how == 'older':
                os.unlink(os.path.join(self.repo, o))
        elif how == 'swap':
            o = r.choice(mine)
            if o == rel:
                return None
            x = tree._read(os.path.join(self.repo, o))
            self.put(o, b)
            self.put(rel, x)
        elif how in ('replace', 'other kind'):
            o = r.choice([f for f in here if how == 'replace' or not f.startswith(rel[:3])] or here)
            if o == rel:
                return None
            self.put(rel, tree._read(os.path.join(self.repo, o)))
        self.c.count('damages')
        self.c.step('damage: %s of %s %s' % (how, rel, where))
        return '%s|%s|%s' % (how, rel.split('/')[0], where)

    # ---------------------------------------------------------- judging

    def model_of(self, i):
        return self.w.model.get(i)

    def restore(self, i, repo):
        """Whether a snapshot could be restored; if so, exactly."""
        w, c = self.w, self.c
        want = w.model[i]
        paths = self.R.snaps[i].paths
        n = fmt.name_of(i)
        tops = sorted({p.split('/')[0] for p in want})
        if len(paths) == 1 and want and want[tops[0]][0] != 'd':
            (p, e), = want.items()
            if e[0] != 'f':
                self.last = self.run(repo, 'ls', n)
                return self.last.rc == 0
            q = self.last = self.run(repo, 'dump', n, '--', p)
            import hashlib
            if q.rc == 0 and hashlib.sha1(q.out).hexdigest() != e[1]:
                raise Violation('dump of a damaged repository gives other bytes: %s' % q.brief())
            return q.rc == 0
        out = c.fresh('out')
        q = self.last = self.run(repo, 'restore', '-t', '-p', '-o', out, n)
        if q.rc == 0:
            got = {}
            if len(paths) == 1:
                tree.capture(out, into=got, prefix=os.path.basename(paths[0]))
                want = want or {os.path.basename(paths[0]): got[os.path.basename(paths[0])]}
            else:
                for x in sorted(os.listdir(out)):
                    tree.capture(os.path.join(out, x), into=got, prefix=x)
            d = tree.differences(want, got)
            if d:
                raise Violation('a damaged repository restores %s as if good, but wrongly: %s' % (n, d))
            c.count('restores compared')
        tree.wipe(out)
        return q.rc == 0

    def run(self, repo, *a):
        return self.c.run(repo, *a, cwd=self.w.cwd, config=self.w.config)

    def agree(self, repo):
        """Once a full check passes, packs list what the indexes say they do."""
        found, gone = {}, set()
        for f in os.listdir(os.path.join(repo, 'indexes')):
            p = os.path.join(repo, 'indexes', f)
            if not f.endswith('.index') or not os.path.isfile(p):
                continue
            try:
                _, sup, packs = fmt.parse_index(self.plain(tree._read(p)))
            except (fmt.Bad, AssertionError, RuntimeError):
                return
            gone |= {fmt.name_of(i) for i in sup}
            found[f.split('.')[0]] = packs
        for n, packs in found.items():
            if n in gone:
                continue
            for i, m in packs.items():
                try:
                    b = self.plain(tree._read(os.path.join(repo, 'packs', fmt.name_of(i) + '.pack')))
                    k = int.from_bytes(b[-4:], 'big')
                    has = fmt.parse_manifest(fmt.uncbor(fmt.unzstd(b[len(b) - 4 - k:-4])))
                except (OSError, fmt.Bad, AssertionError, RuntimeError):
                    continue
                if [tuple(e) for e in has] != [tuple(e) for e in m]:
                    raise Violation('check -r passes, but pack %s lists other blobs than index %s has for it' % (fmt.name_of(i), n))
                self.c.count('manifests compared after passed checks')

    def judge(self, tag, repo=None, known=None, few=None):
        c, r = self.c, self.c.rng
        repo = repo or self.repo
        p = self.run(repo, 'check', '-r')
        if p.rc == 0:
            self.agree(repo)
        here = {f.split('.')[0] for f in os.listdir(os.path.join(repo, 'snapshots')) if f.endswith('.snapshot') and os.path.isfile(os.path.join(repo, 'snapshots', f))}
        mine = [i for i in sorted(self.R.snaps) if fmt.name_of(i) in here]
        good = bad = 0
        if p.rc == 0:
            for n in here:
                i = fmt.raw_of(n)
                if i not in self.R.snaps:
                    if known is None or n not in known:
                        raise Violation('check -r passes, and there is a snapshot %s that nobody made' % n)
                    continue
                if not self.restore(i, repo):
                    raise Violation('check -r passes, but snapshot %s does not restore: %s' % (n, self.last.brief()))
                good += 1
            c.count('checks that passed')
        else:
            c.count('checks that failed')
            for i in r.sample(mine, min(len(mine), few or 2)):
                if self.restore(i, repo):
                    good += 1
                else:
                    bad += 1
        for a in r.sample(self.cmds, min(len(self.cmds), few or 3)):
            q = self.run(repo, *a)
            # (An index that calls a directory a chunk has its very bytes printed.)
            if q.rc == 0 and q.out != self.reads[a] and not (a[:2] == ('cat', 'blob') and q.out == self.R.blob(fmt.raw_of(a[2]))):
                raise Violation('`%s` on a damaged repository succeeds and gives %r, not %r' % (' '.join(a), q.out[:300], self.reads[a][:300]))
            if q.rc == 0:
                good += 1
                c.count('reads compared')
            else:
                bad += 1
                if p.rc == 0 and a[0] in ('ls', 'diff', 'dump') and all(x in here for x in a if re.fullmatch('[0-9a-v]{45}', x)):
                    raise Violation('check -r passes, but `%s` fails: %s' % (' '.join(a), q.brief()))
        c.see(tag, p.rc == 0, bool(good), bool(bad))
        c.eval()
        return p.rc == 0


def history(c, w=None):
    r = c.rng
    w = w or random_world(c, filt=r.choice(FILTERS) if r.random() < 0.25 else False, cached=False)
    if w.filt is False:
        w.filt = None
    h = History(c, w, size=r.choice(['tiny', 'small', 'small', 'medium']))
    h.step('backup')
    for _ in range(r.choice([1, 3, 6])):
        h.step()
    if not w.model:
        h.step('backup')
    return w


def damage(c, item):
    r = c.rng
    w = history(c)
    s = Subject(c, w)
    if not s.judge('undamaged'):
        raise Violation('check -r fails on an undamaged repository')
    for _ in range(40 if c.quick else 150):
        if c.ctx.time_left() < 0:
            break
        tags = [t for t in (s.hurt() for _ in range(r.choice([1, 1, 1, 2, 4]))) if t]
        if tags:
            s.judge(tags[0] if len(tags) == 1 else 'several')
        s.mend()
        if r.random() < 0.05:
            del c.steps[:-30]
    c.sample(files=len(s.files), snapshots=len(w.model), steps=c.steps[-5:])


def after(c, item):
    """What other commands make of damage is no worse."""
    r = c.rng
    w = history(c)
    s = Subject(c, w)
    src = sources(c, size='tiny')
    for _ in range(12 if c.quick else 60):
        if c.ctx.time_left() < 0:
            break
        tags = [t for t in (s.hurt() for _ in range(r.choice([1, 1, 2]))) if t]
        if tags:
            known = set()
            target = s.repo
            for _ in range(r.choice([1, 1, 2])):
                before = set(os.listdir(os.path.join(s.repo, 'snapshots')))
                op = r.choice(['prune', 'rebuild-index', 'copy', 'filter-snapshot', 'backup', 'forget', 'again'])
                names = [fmt.name_of(i) for i in w.model]
                if op == 'copy':
                    target = c.path('to%d' % r.getrandbits(40))
                    c.ok(target, 'init', '-p', r.choice(['20KB', '1MB']), 'filesystem')
                    p = s.run(s.repo, 'copy', '-t', target, r.choice(names))
                elif op == 'filter-snapshot':
                    p = s.run(s.repo, op, '-k', '-s', r.choice(['a', 'n[0-4]', 'zzz']), r.choice(names))
                elif op == 'backup':
                    p = s.run(s.repo, op, '--allow-repeat', *src)
                elif op == 'again':
                    # What an existing snapshot holds, once more.
                    p = s.run(s.repo, 'backup', '--allow-repeat', '-a', 'again', *s.R.snaps[r.choice(sorted(w.model))].paths)
                elif op == 'forget':
                    p = s.run(s.repo, op, r.choice(names))
                else:
                    p = s.run(s.repo, op)
                known |= {n.split('.')[0] for n in set(os.listdir(os.path.join(s.repo, 'snapshots'))) - before}
                c.see('then', op, p.rc)
                if op == 'copy':
                    break
            s.judge('after ' + op + '|' + tags[0], repo=target, known=known)
            if target != s.repo:
                tree.wipe(target)
            for f in os.listdir(w.cwd):
                os.unlink(os.path.join(w.cwd, f))
        s.mend()


def every(c, item):
    """A small repository, at every byte."""
    k, of = item[1], item[2]
    r = c.rng
    import random
    c.rng = random.Random('every/%s' % c.ctx.seed)
    w = World(c, filt=FILTERS[0] if of < 0 else None)
    src = c.mkdir('src', 'd')
    tree.write(os.path.join(src, 'a'), b'hello')
    tree.write(os.path.join(src, 'b'), b'other')
    os.mkdir(os.path.join(src, 'e'))
    os.symlink('a', os.path.join(src, 'l'))
    w.backup([src])
    tree.write(os.path.join(src, 'e', 'c'), b'more')
    w.backup([src])
    s = Subject(c, w)
    c.rng = r
    spots = [(f, at) for f in sorted(s.files) for at in range(len(s.files[f]))]
    for f, at in spots[k::abs(of)]:
        if c.ctx.time_left() < 0:
            break
        b = s.files[f]
        for bit in ([r.randrange(8)] if c.quick else range(8)):
            s.put(f, b[:at] + bytes([b[at] ^ 1 << bit]) + b[at + 1:])
            c.step('bit %d of byte %d of %s' % (bit, at, f))
            s.judge('bit|%s|%s' % (f.split('/')[0], part(f, b, at)), few=1)
            c.count('single bits flipped')
        if r.random() < 0.3:
            s.put(f, b[:at])
            c.step('%s cut to %d' % (f, at))
            s.judge('cut|%s|%s' % (f.split('/')[0], part(f, b, at)), few=1)
        s.put(f, b)
        del c.steps[:-12]


def run(ctx):
    fs = dict(damage=damage, after=after, every=every)
    n = 14
    items = [('damage', k) for k in range(5)] + [('after', k) for k in range(3)] + [('every', k, n) for k in range(2)]
    if ctx.quick:
        rest = [('damage', 99), ('after', 99)] * 20
    else:
        rest = [('every', k, n) for k in range(2, n)] + [('every', k, -n) for k in range(n)]
    rest += [(('damage', 'after')[k % 2], k) for k in range(100, 5000)]
    ctx.cases(lambda c, i: fs[i[0]](c, i), items + rest, must=8)

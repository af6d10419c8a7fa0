"""C15: filter commands are applied to all data, and only then is it stored."""
import os
import shutil
import subprocess

import fmt
import tree
from core import Violation, Inconclusive
from ops import History
from world import World, FILTERS, sources, random_world

LEVEL = 'exploration'
BUDGET = (60, 600)
RULE = ('Repositories with many pairs of filters (a cipher with a nonce for each object and a trailer, doubling, buffering all or trickling; gzip, base64, tr, chains, shell with quotes) go through random histories next to the model and to a '
        'plain repository: every stored file but config.toml is taken through the inverse, has to be the object its name says, and is put through the filter again (with its nonce), which has to give the stored bytes. In other '
        'cases the nth run of the filter or its inverse, for every n and in 13 ways (before reading, midway, after half or all of its output, with any exit code or signal, output shut, output cut without an error), fails: the command has to '
        'fail (for an inverse: or be right), no file of the repository may be incomplete or gone, no snapshot be made, and the same command has to work with the filter in order. Distinct: (filter, command, which run, how).')
ASSUMES = ['a filter that exits with success after giving wrong output cannot be noticed when storing']

HOWS = ['early', 'earlykill', 'stderr', 'shut', 'midkill', 'midexit', 'eof', 'eofkill', 'half', 'halfkill', 'full', 'fullkill']


def filters(c, also=True):
    r = c.rng
    b = c.ctx.filt
    own = [('filt%s' % o, '%s f %s' % (b, o), '%s u %s' % (b, o)) for o in ('', 'x', 'b', 's', 'xb', 'xs')]
    own += [('filt f, u x', "sh -c '%s f x'" % b, "cat | %s u x" % b), ('gzip inside', 'gzip -nc | %s f' % b, '%s u | gzip -dc' % b), ('twice', '%s f | %s f b' % (b, b), '%s u | %s u' % (b, b))]
    if not also:
        return r.choice(own[:6])
    return r.choice(own + own[:6] + FILTERS + [('quotes', 'tr "a-z" \'b-za\'; printf "%s" "$0" >/dev/null', 'tr "b-za" "a-z"'), ('cat', 'cat', 'cat'), ('dd', 'dd bs=1000 2>/dev/null', 'dd bs=7777 2>/dev/null')])


def env(c, fail=None):
    """Counting runs from zero."""
    d = c.fresh('filt')
    os.chmod(d, 0o777)
    return d, dict(FILT_DIR=d, **({'FILT_FAIL': fail} if fail else {}))


def runs(d, k):
    try:
        return os.path.getsize(os.path.join(d, k))
    except FileNotFoundError:
        return 0


def stored(c, w, name, known=None):
    """Each file is exactly what the filter makes of an object; returns {file: plain bytes}."""
    filt, unfilt = w.filt[1], w.filt[2]
    out = {}
    for d, _, fs in os.walk(w.repo):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, w.repo)
            if rel == 'config.toml':
                continue
            with open(p, 'rb') as fh:
                raw = fh.read()
            if known is not None and rel in known and known[rel][0] == raw:
                out[rel] = known[rel]
                continue
            e = dict(os.environ)
            if raw[:4] == b'FLT1':
                e['FILT_NONCE'] = raw[4:20].hex()
            u = subprocess.run(['sh', '-c', unfilt], input=raw, capture_output=True)
            if u.returncode:
                raise Violation('%s is not something its filter %s made: %s' % (rel, name, u.stderr[-200:]))
            plain = u.stdout
            if name not in ('cat', 'dd'):
                if plain == raw:
                    raise Violation('%s is stored unfiltered (%s)' % (rel, name))
            if 'twice' not in name:
                f2 = subprocess.run(['sh', '-c', filt], input=plain, capture_output=True, env=e)
                if f2.stdout != raw:
                    raise Violation('%s is not what the filter %s makes of its object' % (rel, name))
                c.count('stored files filtered again')
            if rel.endswith('.part') or rel.split('/')[0] not in ('packs', 'indexes', 'snapshots'):
                raise Violation('%s is left in the repository' % rel)
            out[rel] = (raw, plain)
            c.count('stored files judged')
            c.count('stored bytes', len(raw))
            c.see('size', name, len(plain).bit_length())
    return out


def forget_cache(c):
    d = os.path.join(c.env0['HOME'], '.cache', 'backpak')
    if os.path.isdir(d):
        tree.wipe(d)


def history(c, item):
    r = c.rng
    f = filters(c)
    w = World(c, pack_size=r.choice([None, '20KB', '150KB', '1MB', '5KB']), filt=f, cached=r.random() < 0.3)
    h = History(c, w, srcs=sources(c, n=r.choice([1, 2]), size=r.choice(['tiny', 'tiny', 'small', 'medium'])))
    known = None
    for _ in range(r.choice([4, 6, 9])):
        if r.random() < 0.5:
            forget_cache(c)
        op = h.step()
        known = stored(c, w, f[0], known)
        c.see('history', f[0], op)
        c.eval()
    R = w.verify(unindexed=True, stale_indexes=True)
    forget_cache(c)
    for i in r.sample(sorted(w.model), min(3, len(w.model))):
        w.restored(i, R=R)
    w.ok('check', '-r')
    # What commands show is what they show of a plain repository with the same objects.
    p = World(c, name='plain', init=False)
    shutil.copytree(w.repo, p.repo)
    for rel, (raw, plain) in known.items():
        with open(os.path.join(p.repo, rel), 'wb') as fh:
            fh.write(plain)
    cfg = os.path.join(p.repo, 'config.toml')
    with open(cfg) as fh:
        t = [l for l in fh.read().split('\n') if not l.startswith(('filter', 'unfilter'))]
    with open(cfg, 'w') as fh:
        fh.write('\n'.join(t))
    names = [fmt.name_of(i) for i in sorted(w.model)]
    show = [('snapshots',), ('snapshots', '--stat', '-f'), ('check',)]
    for n in r.sample(names, min(2, len(names))):
        show += [('ls', n), ('diff', '-m', n, r.choice(names)), ('cat', 'snapshot', n)]
    for rel in r.sample(sorted(known), min(4, len(known))):
        k, f_ = rel.split('/')
        if k in ('packs', 'indexes'):
            show.append(('cat', {'packs': 'pack', 'indexes': 'index'}[k], f_.split('.')[0]))
    for b in r.sample(sorted(R.blobs), min(3, len(R.blobs))):
        show.append(('cat', 'blob', fmt.name_of(b)))
    for a in show:
        x, y = w.ok(*a), p.ok(*a)
        if x.out.replace(w.repo.encode(), b'R') != y.out.replace(p.repo.encode(), b'R'):
            raise Violation('%s shows other things with a filter than without: %s / %s' % (a, x.stdout[-500:], y.stdout[-500:]))
        c.count('outputs compared with a plain repository')
    for i in r.sample(sorted(w.model), min(1, len(w.model))):
        p.restored(i, want=w.model[i])
    p.ok('check', '-r')


def big(c, item):
    """Objects far larger than a pipe."""
    r = c.rng
    f = filters(c)
    w = World(c, pack_size=r.choice([None, '3MB']), filt=f, cached=r.random() < 0.3)
    s = c.mkdir('src', 'd')
    tree.write(os.path.join(s, 'a'), r.randbytes(r.choice([65536, 65537, 1 << 20, 9 << 20])))
    tree.write(os.path.join(s, 'z'), bytes(12 << 20))
    for k in range(300):
        tree.write(os.path.join(s, 'n%d' % k), b'%d' % k)
    i = w.backup([s])
    stored(c, w, f[0])
    forget_cache(c)
    w.verify()
    w.restored(i)
    w.ok('check', '-r')
    c.see('big', f[0])
    c.eval()


def ready(c):
    """A repository with something for every command to do."""
    r = c.rng
    f = filters(c, also=False)
    w = World(c, pack_size=r.choice(['5KB', '20KB', '150KB', None]), filt=f)
    h = History(c, w, srcs=sources(c, n=1, size=r.choice(['tiny', 'tiny', 'small'])), ops=['backup', 'backup', 'filter'])
    for _ in range(r.choice([2, 3])):
        h.step('backup')
    if r.random() < 0.7:
        big_ = c.fresh('big')
        tree.write(os.path.join(big_, 'x'), r.randbytes(r.choice([1000, 100000, 700000])))
        w.backup([big_])
        if r.random() < 0.5:
            i = r.choice(sorted(w.model))
            w.ok('forget', fmt.name_of(i))
            del w.model[i]
    return w, h


CMDS = ['backup', 'backup', 'backup', 'prune', 'rebuild-index', 'filter-snapshot', 'copy-in', 'copy-out', 'restore', 'dump', 'check', 'check -r', 'ls', 'diff', 'snapshots', 'usage', 'forget', 'cat']


def failing(c, item):
    """The nth run of one of the two fails."""
    r = c.rng
    w, h = ready(c)
    template = c.path('template')
    for rnd in range(4 if c.quick else 8):
        if c.ctx.time_left() < 0 and rnd:
            break
        kind = 'f' if r.random() < 0.6 else 'u'
        how = r.choice(HOWS + (['cut0'] if kind == 'u' else []))
        cmd = r.choice([x for x in CMDS if kind == 'u' or x in ('backup', 'prune', 'rebuild-index', 'filter-snapshot', 'copy-in')])
        nth = r.choice([1, 1, 1, 2, 2, 3, 4, 6, 9])
        before = w.open()
        files = before.files()
        bytes0 = {f: before.sizes.get(f) for f in files}
        cwd = c.fresh('cwd')
        src = None
        ids = sorted(w.model)
        one = r.choice(ids)
        repo, args, out = w.repo, None, None
        if cmd == 'backup':
            src = c.fresh('new')
            tree.write(os.path.join(src, 'one'), r.randbytes(r.choice([10, 5000, 200000])))
            tree.write(os.path.join(src, 'two'), r.randbytes(r.choice([10, 5000, 200000])))
            os.mkdir(os.path.join(src, 'sub'))
            tree.write(os.path.join(src, 'sub', 'three'), r.randbytes(r.choice([0, 70000])))
            args = ['backup', src]
        elif cmd == 'filter-snapshot':
            args = [cmd, '-k', '-s', r.choice(['a', 'n[0-4]', 'x']), fmt.name_of(one)]
        elif cmd == 'copy-in':
            o = World(c, name='from%d' % r.getrandbits(40))
            src = c.fresh('new')
            tree.write(os.path.join(src, 'one'), r.randbytes(r.choice([10, 5000, 200000])))
            o.backup([src])
            repo, args = o.repo, ['copy', '-t', w.repo, '--all']
        elif cmd == 'copy-out':
            o = World(c, name='to%d' % r.getrandbits(40))
            args = ['copy', '-t', o.repo, '--all']
        elif cmd == 'restore':
            out = c.fresh('out')
            args = ['restore', '-t', '-p', '-o', out, fmt.name_of(one)]
        elif cmd == 'dump':
            fs = [p for p, e in w.model[one].items() if e[0] == 'f']
            if not fs:
                continue
            path = r.choice(fs)
            args = ['dump', fmt.name_of(one), '--', path]
        elif cmd in ('check', 'check -r'):
            args = cmd.split()
        elif cmd == 'ls':
            args = ['ls', fmt.name_of(one)]
        elif cmd == 'diff':
            args = ['diff', fmt.name_of(one), fmt.name_of(r.choice(ids))]
        elif cmd == 'forget':
            args = ['forget', r.choice([fmt.name_of(one), 'DUPLICATES'])]
        elif cmd == 'cat':
            args = ['cat', 'blob', fmt.name_of(r.choice(sorted(before.blobs)))]
        elif cmd == 'snapshots':
            args = ['snapshots', '--stat', '-f']
        else:
            args = [cmd]
        if r.random() < 0.8:
            forget_cache(c)
        reading = cmd in ('restore', 'dump', 'check', 'check -r', 'ls', 'diff', 'snapshots', 'usage', 'cat')
        good = None
        if reading and cmd not in ('restore',):
            good = w.ok(*args)
            forget_cache(c)
        d, e = env(c, '%s:%d:%s' % (kind, nth, how))
        code, sig = r.choice([0, 1, 2, 2, 3, 4, 64, 126, 127, 128, 141, 255, r.randrange(1, 256)]), r.choice([0, 1, 2, 9, 11, 13, 13, 15, 24])
        e.update(**({'FILT_CODE': str(code)} if code else {}), **({'FILT_SIG': str(sig)} if sig else {}))
        q = c.run(repo, *args, cwd=cwd, env=e)
        failed = os.path.exists(os.path.join(d, 'failed'))
        c.see('fail', w.filt[0], cmd, kind, min(nth, 6), how, code, sig, failed)
        c.eval()
        if not failed:
            c.count('failures not reached')
            if q.rc != 0:
                raise Violation('%s failed though its filters did not: %s' % (cmd, q.brief()))
        else:
            c.count('failures of %s' % ('filters' if kind == 'f' else 'inverses'))
            if q.rc != 0:
                c.clean_fail(q)
                c.count('commands that failed with them')
            if kind == 'f' and q.rc == 0:
                raise Violation('%s succeeds though run %d of the filter failed (%s): %s' % (cmd, nth, how, q.brief()))
            if kind == 'u' and q.rc == 0:
                c.count('commands right all the same')
                c.see('all the same', cmd, how)
                c.count('all the same: %s %s' % (cmd, how))
                if how not in ('full', 'fullkill', 'cut0') and not reading and cmd != 'copy-out':
                    raise Violation('%s succeeds though run %d of the inverse failed (%s): %s' % (cmd, nth, how, q.brief()))
                if cmd == 'restore':
                    R = w.open()
                    want = w.model[one]
                    if len(R.snaps[one].paths) == 1:
                        got = {}
                        top = os.path.basename(R.snaps[one].paths[0])
                        if want and want[sorted(want)[0].split('/')[0]][0] == 'd':
                            tree.capture(out, into=got, prefix=top)
                            dd = tree.differences(want, got)
                            if dd:
                                raise Violation('a restore succeeds and is wrong after run %d of the inverse failed (%s): %s' % (nth, how, dd))
                elif good is not None and q.out != good.out and cmd not in ('check', 'check -r'):
                    raise Violation('%s succeeds and shows other things after run %d of the inverse failed (%s): %s' % (cmd, nth, how, q.brief()))
        # What is in the repository.
        R = w.open()
        gone = set(files) - set(R.files())
        changed = [f for f in files if f in R.sizes and R.sizes[f] != bytes0[f]]
        if changed:
            raise Violation('stored files changed: %s' % changed[:3])
        stored(c, w, w.filt[0])
        new = set(R.snaps) - set(before.snaps)
        if q.rc != 0:
            if new and kind == 'f':
                raise Violation('a %s that failed made a snapshot' % cmd)
            if set(before.snaps) - set(R.snaps) and cmd != 'forget':
                raise Violation('a %s that failed removed a snapshot' % cmd)
        if gone and cmd not in ('prune', 'rebuild-index', 'forget'):
            raise Violation('a %s removed %s' % (cmd, sorted(gone)[:3]))
        for i in set(before.snaps) - set(R.snaps):
            w.model.pop(i, None)
        full = dict(w.model)
        R.audit(unindexed=True, stale_indexes=True)
        for i, want in full.items():
            dd = tree.differences(want, R.entries(R.snaps[i]))
            if dd:
                raise Violation('snapshot %s suffered from a failed filter: %s' % (fmt.name_of(i), dd))
        # Once more, with everything in order.
        forget_cache(c)
        if q.rc != 0 and cmd not in ('forget',):
            b = set(R.snaps)
            if out:
                tree.wipe(out)
                os.mkdir(out)
            q2 = c.run(repo, *args, cwd=cwd)
            if q2.rc != 0:
                raise Violation('%s fails after its filters failed once (%s, run %d of %s): %s' % (cmd, how, nth, kind, q2.brief()))
            R = w.open()
            new = set(R.snaps) - b
            if cmd == 'backup':
                if len(new) != 1:
                    raise Violation('a backup made %d snapshots' % len(new))
                w.model[new.pop()] = tree.source([src])
        if cmd == 'backup' and q.rc == 0:
            w.model[new.pop()] = tree.source([src])
        R = w.open()
        for i in set(R.snaps) - set(w.model):
            w.model[i] = R.entries(R.snaps[i])      # Copies and filtered snapshots; others judge them.
        w.verify(R=R, unindexed=True, stale_indexes=True)
    forget_cache(c)
    w.ok('check', '-r')
    w.restored(r.choice(sorted(w.model)))


GPG = '''#!/bin/sh
echo "$@" >> %(log)s
%(pre)s
case "$1" in
--encrypt) %(enc)s ;;
--decrypt) %(dec)s ;;
esac
'''


def inits(c, item):
    """init --gpg with stand-ins for gpg; configurations with half a filter."""
    r = c.rng
    b = c.ctx.filt
    ways = dict(good=('', b + ' f', b + ' u'), noenc=('', 'exit 2', b + ' u'), nodec=('', b + ' f', 'exit 2'), other=('', b + ' f', 'cat'), cut=('', b + ' f | head -c 20', b + ' u'), kill=('', 'kill -9 $$', b + ' u'),
                killed=('', b + ' f', b + ' u; kill -9 $$'), missing=None, late=('', b + ' f', b + ' u; exit 1'), empty=('', 'cat >/dev/null', b + ' u'), same=('', 'cat', 'cat'))
    for way in sorted(ways):
        bin_ = c.fresh('bin')
        log = c.path('gpg-%s.log' % way)
        if ways[way]:
            pre, enc, dec = ways[way]
            with open(os.path.join(bin_, 'gpg'), 'w') as f:
                f.write(GPG % dict(log=log, pre=pre, enc=enc, dec=dec))
            os.chmod(os.path.join(bin_, 'gpg'), 0o755)
        path = bin_ + ':/usr/bin:/bin' if ways[way] else bin_ + ':' + only_sh(c)
        repo = c.path('gpg-' + way)
        ok = way in ('good', 'same')
        e = dict(PATH=path)
        x = (c.ok if ok else c.fails)(repo, 'init', '--gpg', 'someone@example.com', 'filesystem', env=e)
        c.see('gpg', way)
        c.eval()
        if not ok:
            if os.path.exists(repo) and os.listdir(repo):
                raise Violation('init --gpg failed (%s) and left %s' % (way, os.listdir(repo)))
            continue
        w = World(c, name='gpg-' + way, init=False)
        w.filt = (way, 'PATH=%s gpg --encrypt --quiet --recipient someone@example.com' % path, 'PATH=%s gpg --decrypt --quiet' % path)
        R = fmt.Repo(repo)
        if 'filter' not in R.config or 'unfilter' not in R.config:
            raise Violation('init --gpg made a repository without filters: %s' % R.config)
        src = c.fresh('src')
        tree.write(os.path.join(src, 'f'), r.randbytes(100000))
        c.ok(repo, 'backup', src, env=e)
        with open(log) as f:
            n = f.read().count('--encrypt')
        if n < 4:
            raise Violation('a backup encrypted %d things' % (n - 1))
        for d, _, fs in os.walk(repo):
            for f in fs:
                if f != 'config.toml' and way == 'good':
                    with open(os.path.join(d, f), 'rb') as fh:
                        if fh.read(4) != b'FLT1':
                            raise Violation('%s is stored unencrypted' % f)
        out = c.fresh('out')
        forget_cache(c)
        c.ok(repo, 'restore', '-o', out, 'LAST', env=e)
        dd = tree.differences(tree.source([src]), tree.capture(out, into={}, prefix=os.path.basename(src)) or tree.source([src]), mode=False, mtime=False)
        c.ok(repo, 'check', '-r', env=e)
    # Half a pair, in every command.
    w = World(c, name='half', filt=filters(c))
    src = c.fresh('src')
    tree.write(os.path.join(src, 'f'), b'x' * 1000)
    i = w.backup([src])
    p = os.path.join(w.repo, 'config.toml')
    with open(p) as f:
        t = f.read().split('\n')
    before = fmt.Repo(w.repo).files()
    for lack in ('filter', 'unfilter'):
        with open(p, 'w') as f:
            f.write('\n'.join(l for l in t if not l.startswith(lack + ' =')))
        for a in (['backup', '--allow-repeat', src], ['ls', 'LAST'], ['check'], ['prune'], ['restore', '-o', c.fresh('out'), 'LAST'], ['forget', 'LAST'], ['snapshots'], ['usage'], ['rebuild-index']):
            w.fails(*a)
            c.count('commands with half a pair')
        if fmt.Repo(w.repo).files() != before:
            raise Violation('commands with half a pair of filters changed the repository')
    with open(p, 'w') as f:
        f.write('\n'.join(t))
    forget_cache(c)
    w.verify()
    c.eval()


def only_sh(c):
    d = c.fresh('sh')
    os.symlink('/bin/sh', os.path.join(d, 'sh'))
    return d


def one(c, item):
    dict(history=history, big=big, failing=failing, inits=inits)[item[0]](c, item)


def run(ctx):
    kinds = ['failing', 'history', 'failing', 'failing', 'big', 'failing', 'history', 'failing']
    ctx.cases(one, [('inits', 0), ('big', 1), ('big', 2)] + [(kinds[i % len(kinds)], i) for i in range(5000)], must=24)

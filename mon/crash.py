"""Killing backpak at chosen file-system calls and looking at what is left: the log of a run, the points worth killing
at, and templates of a place to go back to."""
import os
import shutil
import subprocess

import fmt
import tree
from core import Violation


class Op:
    __slots__ = ('seq', 'tid', 'kind', 'idx', 'fn', 'ret', 'err', 'ino', 'p1', 'p2', 'extra')

    def __init__(self, f):
        self.seq, self.tid, self.kind, self.idx, self.fn = int(f[0]), int(f[1]), f[2], int(f[3]), f[4]
        self.ret, self.err, self.ino = int(f[5]), int(f[6]), int(f[7])
        self.p1, self.p2, self.extra = unesc(f[8]), unesc(f[9]), int(f[10])

    def __repr__(self):
        return '%d:%s(%s%s)=%d' % (self.idx, self.fn, self.p1, ', ' + self.p2 if self.p2 else '', self.ret)


def unesc(s):
    if '%' not in s:
        return s
    out = bytearray()
    b = s.encode('utf-8', 'surrogateescape')
    i = 0
    while i < len(b):
        if b[i] == 37:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return out.decode('utf-8', 'surrogateescape')


def read_log(path):
    out = []
    try:
        with open(path, encoding='utf-8', errors='surrogateescape') as f:
            for line in f:
                p = line.rstrip('\n').split('\t')
                if len(p) == 11:
                    out.append(Op(p))
    except FileNotFoundError:
        pass
    return out


def kind_of(p):
    """What a path is, for telling situations apart."""
    b = os.path.basename(p)
    d = os.path.basename(os.path.dirname(p))
    if d in ('packs', 'indexes', 'snapshots'):
        return 'repo/' + d + ('/part' if b.endswith('.part') else '')
    if b == 'backpak-wip.index':
        return 'wip'
    if b.startswith('temp-backpak-'):
        return 'temp.' + b.rsplit('.', 1)[-1]
    if b.endswith(('.pack', '.index', '.snapshot')):
        return 'cwd.' + b.rsplit('.', 1)[-1]
    if '.cache/backpak' in p:
        return 'cache'
    if '(deleted)' in b:
        return 'unnamed'
    return 'other'


def situation(op):
    return op.fn + ' ' + kind_of(op.p1) + ('>' + kind_of(op.p2) if op.p2 else '')


def points(ops, rng=None, thin=0.15):
    """[(n, mode)]: before every mutation, and halfway through every write; runs of writes to one file are thinned."""
    out = []
    last = None
    w = [o for o in ops if o.kind in ('W', 'WF')]
    for k, o in enumerate(w):
        if o.fn == 'write':
            key = o.p1
            nextsame = k + 1 < len(w) and w[k + 1].fn == 'write' and w[k + 1].p1 == key
            if last == key and nextsame and (rng is None or rng.random() > thin):
                continue
            last = key
            out.append((o.idx, 'before'))
            if o.extra > 1:
                out.append((o.idx, 'partial'))
        else:
            last = None
            out.append((o.idx, 'before'))
    if w:
        out.append((w[-1].idx, 'after'))
    return out


class Template:
    """Remembers some directories so that they can be put back."""

    def __init__(self, c, dirs):
        self.c, self.dirs = c, list(dirs)
        self.base = c.fresh('tmpl')
        for k, d in enumerate(self.dirs):
            if os.path.isdir(d):
                cp(d, os.path.join(self.base, str(k)))

    def back(self):
        for k, d in enumerate(self.dirs):
            if os.path.isdir(d):
                rm(d)
            if os.path.isdir(os.path.join(self.base, str(k))):
                cp(os.path.join(self.base, str(k)), d)


def cp(a, b):
    subprocess.run(['cp', '-a', '--reflink=auto', a, b], check=True, env=dict(PATH='/usr/bin:/bin'))


def rm(d):
    """Removes a directory inside the scratch places."""
    if not d.startswith(('/dev/shm/bpv-', '/tmp/bpv-')):
        raise RuntimeError('not removing %s' % d)
    try:
        shutil.rmtree(d)
    except PermissionError:
        tree.wipe(d)


def leftovers_ok(R, extra=()):
    """Files in the repository that are no objects have to be unfinished transfers."""
    bad = [f for f in R.extra if not f.endswith('.part')]
    if bad:
        raise Violation('files that are no objects are left in the repository: %s' % bad[:4])


def cwd_ok(cwd, empty=False, killed=True):
    """Leftovers in a working directory: what a run resumes from, and after a kill, temporary files. Once a run has
    succeeded (empty), nothing is left to resume, though finished objects nobody wants may lie about."""
    for f in os.listdir(cwd):
        if killed and f.startswith('temp-backpak-'):
            continue
        if f.endswith(('.pack', '.index', '.snapshot')) and (f != 'backpak-wip.index' or not empty):
            continue
        raise Violation('%s is left in the working directory' % f)


def holds(w, model=None, may=None, R=None, **kw):
    """Every snapshot of the model is there and whole; others only if `may` (entries -> bool) allows them."""
    R = R or w.open(leftovers=True)
    leftovers_ok(R)
    R.audit(unindexed=True, stale_indexes=True, **kw)
    model = w.model if model is None else model
    for i, want in model.items():
        if i not in R.snaps:
            raise Violation('snapshot %s is gone' % fmt.name_of(i))
        d = tree.differences(want, R.entries(R.snaps[i]))
        if d:
            raise Violation('snapshot %s no longer holds what was backed up: %s' % (fmt.name_of(i), d))
        w.c.count('snapshot entries compared', len(want))
    new = set(R.snaps) - set(model)
    for i in new:
        got = R.entries(R.snaps[i])
        if may is None or not may(i, got, R):
            raise Violation('snapshot %s should not exist' % fmt.name_of(i))
    return R, new

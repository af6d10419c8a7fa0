"""C24: the semaphore, the shared progress value, and threads that run things at once."""
import os
import re
import shutil
import subprocess

import core
import fmt
import tree
from core import Proc, Violation
from world import World

LEVEL = 'exploration'
BUDGET = (70, 600)
MIRI = True
NEEDS = ['main', 'probe', 'probe-tsan', 'probe-asan']
RULE = ('A program linked to the library takes and gives back semaphore permits from 1 to 30 threads (holders counted, a watchdog for waits without end, permits counted at the end); lets everybody sleep and gives back k permits at once, '
        'after which k sleepers must hold one though nobody gives back more; publishes values with owned memory while readers hold them (checksum, order against what was published before, freed exactly once); runs jobs with all three helpers '
        '(each once, at most as many as CPUs where that is promised, jobs that wait for each other, on a machine with one CPU too, an error ends the process even when other jobs never end); and counts progress. '
        'The same under ThreadSanitizer (the shared value under AddressSanitizer), pinned to 1, 2 or 8 CPUs, and in Miri under random schedules with its own race, deadlock and memory checks. Commands on machines with one CPU and with bad objects have to end. Distinct: (part, threads, permits, CPUs, tool).')
ASSUMES = ['the Miri runs replace atomic-wait\'s three futex calls by the same calls with exact argument types',
           'ThreadSanitizer does not know the fences crossbeam-epoch relies on, so the shared value is not run under it']


def probe(c, flavor, cpus, *args, shim=None, rc=0, wait={}):
    pre = ['taskset', '-c', cpus] if cpus and shutil.which('taskset') else []
    env = c.env(dict(TSAN_OPTIONS='halt_on_error=1 exitcode=66 report_thread_leaks=0'), shim)
    if shim is not None:
        env['BPV_EXE'] = 'probe'
    a = pre + [c.ctx.bins[flavor]] + [str(x) for x in args]
    c.step('probe[%s, cpus %s] %s' % (flavor, cpus, ' '.join(map(str, args))))
    r = Proc(a, c.mkdir('wd'), env).wait(**wait)
    if r.hung:
        raise Violation('never ends (%s): %s' % (r.why, r.brief()))
    if r.rc != rc or b'WRONG' in r.out or b'ThreadSanitizer' in r.err or b'AddressSanitizer' in r.err or r.panicked:
        raise Violation('probe saw a violation: ' + r.brief())
    c.eval()
    c.count('probe runs')
    for k, v in re.findall(r'(\w+)=(\d+)', r.stdout):
        c.count('%s: %s' % (args[0], k), int(v))
    return r


def cpus(c):
    n = os.cpu_count() or 1
    k = c.rng.randrange(n)
    return c.rng.choice([None, None, str(k), '%d,%d' % (k, (k + 1) % n) if n > 1 else str(k)])


def churn(c, flavor):
    r = c.rng
    for _ in range(4):
        t = r.choice([1, 2, 3, 5, 8, 16, 30])
        p = r.choice([1, 1, 2, 3, max(1, t - 1), t])
        where = cpus(c)
        x = probe(c, flavor, where, 'sem-churn', t, p, r.choice([100, 1000, 3000]) // (1 if flavor == 'probe' else 3) + 1, r.getrandbits(60))
        c.see('churn', flavor, t, p, bool(where))
        c.sample(threads=t, permits=p, saw=x.stdout.strip())


def wake(c, flavor):
    r = c.rng
    for _ in range(3):
        p, w = r.choice([1, 2, 3, 5, 8]), r.choice([1, 2, 3, 6, 10])
        where = cpus(c)
        probe(c, flavor, where, 'sem-wake', p, w, r.choice([30, 120]), r.getrandbits(60))
        c.see('wake', flavor, p, w, bool(where))


def rcu(c, flavor):
    r = c.rng
    for _ in range(2):
        n = r.choice([1, 2, 4, 9])
        where = cpus(c)
        x = probe(c, flavor, where, 'rcu', n, r.choice([10, 500, 5000]), r.getrandbits(60))
        c.see('rcu', flavor, n, bool(where))
        c.sample(readers=n, saw=x.stdout.strip())


def cpuinfo(c, n):
    p = c.path('cpuinfo%d' % n)
    with open(p, 'w') as f:
        for k in range(n):
            f.write('processor\t: %d\nphysical id\t: 0\ncore id\t\t: %d\ncpu cores\t: %d\n\n' % (k, k, n))
    return p


def conc(c, flavor):
    r = c.rng
    for _ in range(6):
        kind = r.choice(['plain', 'named', 'map'])
        n = r.choice([0, 1, 2, 5, 20]) if kind != 'named' else r.choice([0, 1, 2, 5, 12])
        shim, limit = None, max(n, 1)
        if flavor == 'probe' and r.random() < 0.7:
            k = r.choice([1, 2, 3])
            shim = dict(BPV_CPUINFO=cpuinfo(c, k))
            limit = k if kind != 'named' else limit
        where = cpus(c)
        fail = r.random() < 0.4 and n
        a = ['conc', kind, n, limit, r.getrandbits(60)]
        if fail:
            # Jobs that come later never end; they must not be waited for.
            k = r.randrange(n)
            q = probe(c, flavor, where, *a, k, shim=shim, rc=1, wait=dict(quiet_s=20))
            c.see('job fails', kind, n, bool(shim))
            if q.wall > 60:
                raise Violation('an error took %d s to end the process' % q.wall)
        else:
            probe(c, flavor, where, *a, shim=shim, wait=dict(quiet_s=20))
            c.see('jobs', kind, n, bool(shim), flavor)


def prog(c, flavor):
    r = c.rng
    for _ in range(4):
        probe(c, flavor, cpus(c), 'progress', r.getrandbits(60))
    c.see('progress', flavor)


def cli(c, item):
    """Whole commands on small machines and with bad objects: they end, and say so."""
    r = c.rng
    w = World(c, pack_size=r.choice(['2KB', '20KB']))
    src = c.mkdir('src')
    for k in range(r.choice([3, 30])):
        with open(os.path.join(src, 'f%d' % k), 'wb') as f:
            f.write(r.randbytes(r.randrange(0, 20000)))
    for k in range(r.choice([1, 3])):
        with open(os.path.join(src, 'g%d' % k), 'wb') as f:
            f.write(r.randbytes(3000))
        w.backup([src])
    n = r.choice([1, 1, 2])
    shim = dict(BPV_CPUINFO=cpuinfo(c, n))
    if r.random() < 0.5:
        shim.update(BPV_DELAY='%d:500:0.2' % r.getrandbits(30), BPV_SCOPE=w.repo)
    for cmd in (['check', '-r'], ['snapshots', '--stat'], ['prune'], ['usage'], ['rebuild-index'], ['restore', '-o', c.mkdir('out'), 'LAST']):
        w.ok(*cmd, shim=shim, wait=dict(quiet_s=25))
        c.eval()
    w.backup([src], '--allow-repeat', shim=shim)
    w.verify()
    c.see('commands with CPUs', n)
    kind = r.choice(['indexes', 'packs', 'snapshots'])
    fs = []
    for d, _, names in os.walk(os.path.join(w.repo, kind)):
        fs += [os.path.join(d, x) for x in names]
    for p in r.sample(fs, r.choice([1, len(fs)])):
        with open(p, 'r+b') as f:
            f.truncate(os.path.getsize(p) // 2)
    cmds = dict(indexes=[['check'], ['rebuild-index'], ['prune'], ['ls', 'LAST'], ['backup', src]], packs=[['check', '-r'], ['rebuild-index']], snapshots=[['snapshots'], ['check'], ['prune']])[kind]
    for cmd in cmds:
        if kind == 'indexes' and cmd[0] == 'rebuild-index':
            w.run(*cmd, shim=shim, wait=dict(quiet_s=25))
            break
        w.fails(*cmd, shim=shim, wait=dict(quiet_s=25))
        c.see('bad', kind, cmd[0])
        c.eval()


def run(ctx):
    r = ctx.rng('miri')
    jobs = [('sem-wake', 2, 3, 1), ('sem-wake', 1, 2, 2), ('sem-churn', 3, 2, 3), ('sem-churn', 3, 1, 3), ('rcu', 2, 6), ('conc', 'plain', 4, 8), ('conc', 'map', 3, 8), ('conc', 'named', 3, 8)]
    n = 8 if ctx.quick else 150
    for k, j in enumerate(jobs):
        lo = r.randrange(1 << 20)
        rc, out = core.miri(list(j) + [r.getrandbits(40)], lo, lo + n, timeout=60 if ctx.quick else 900)
        ctx._take(0, j, dict(evaluations=n, counts={'schedules in Miri': n}, distinct=['miri|' + ' '.join(map(str, j[:3]))]))
        bad = re.findall(r'^(?:error|WRONG|thread .* panicked).*', out, re.M)
        if rc is None:
            ctx._take(0, j, dict(inconclusive='Miri took too long on %s' % (j, )))
        elif rc or bad:
            if 'Undefined Behavior' in out or 'WRONG' in out or 'deadlock' in out or 'panicked' in out:
                ctx._take(0, j, dict(violation=dict(msg='Miri: %s: %s' % (j, bad[:3]), info=dict(out=out[-6000:]), steps=[])))
            else:
                raise RuntimeError('Miri failed: ' + out[-3000:])
    parts = dict(churn=churn, wake=wake, rcu=rcu, conc=conc, prog=prog)
    items = []
    for k in range(400):
        for name in ('churn', 'wake', 'rcu', 'conc') + (('prog', ) if k % 4 == 0 else ()):
            items.append((name, ('probe', 'probe', 'probe-asan' if name == 'rcu' else 'probe-tsan')[k % 3], k))
        items.append(('cli', 'main', k))
    fs = dict(parts, cli=cli)
    # Few at a time: they bring their own threads.
    ctx.cases(lambda c, i: fs[i[0]](c, i[1]), items, workers=4, must=17)

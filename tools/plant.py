"""python3 tools/plant.py DEFS.py [id...]: make planted bugs from definitions and confirm them in a scratch copy.

DEFS.py defines BUGS: dicts with id, property, edits [(file, old, new)], needs, breaks, demo (bash, after PRELUDE) and files.
A bug is kept in seeded/<id>/ only if it builds, passes the stable tests, and its demo tells the two trees apart.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/plant'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_TERM_COLOR='never', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='')
for k in ('CARGO_TARGET_DIR', 'RUSTFLAGS'):
    ENV.pop(k, None)

PRELUDE = r'''#!/bin/bash
# Exits 0 if the property holds, 1 if it is broken. Everything it does stays in a scratch directory.
B="$PWD/target/debug/backpak"; H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME="$T/home" TZ=UTC; mkdir "$T/home" "$T/cwd" "$T/src" "$T/out"; cd "$T/cwd"
R="$T/repo"
bp() { "$B" --config "" -r "$R" "$@" >>"$T/log" 2>&1; }       # quietly
bq() { "$B" --config "" -r "$R" "$@" 2>>"$T/log"; }           # with its output
bad() { echo "BROKEN: $*"; exit 1; }
setup() { "$@" || { echo "setup failed: $*"; tail -5 "$T/log"; exit 2; }; }
rnd() { python3 -c 'import random,sys; sys.stdout.buffer.write(random.Random(sys.argv[1]).randbytes(int(sys.argv[2])))' "$1" "$2"; }   # seed bytes
fault() { cc -shared -fPIC -O1 -o "$T/fault.so" "$H/fault.c" -ldl || exit 2; }
'''

FAULT_C = r'''// FAULT_FN = rename | link | unlink | readdir | fsync; FAULT_SUB = part of the path; FAULT_ERR = errno, or 0 to die there; FAULT_CMD = command to run there instead.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int hit(const char *fn, const char *path) {
  const char *f = getenv("FAULT_FN"), *s = getenv("FAULT_SUB"), *e = getenv("FAULT_ERR");
  if (!f || strcmp(f, fn) || (s && !strstr(path, s))) return 0;
  if (getenv("FAULT_CMD")) {      // let somebody else work here, once, and go on
    char *c = strdup(getenv("FAULT_CMD"));
    unsetenv("FAULT_FN"); unsetenv("FAULT_CMD"); unsetenv("LD_PRELOAD");
    if (system(c)) _exit(98);
    return 0;
  }
  if (!e || !atoi(e)) _exit(99);
  errno = atoi(e);
  return 1;
}
int rename(const char *a, const char *b) {
  static int (*r)(const char *, const char *);
  if (!r) r = dlsym(RTLD_NEXT, "rename");
  return hit("rename", b) ? -1 : r(a, b);
}
int unlink(const char *a) {
  static int (*r)(const char *);
  if (!r) r = dlsym(RTLD_NEXT, "unlink");
  return hit("unlink", a) ? -1 : r(a);
}
struct dirent64 *readdir64(DIR *d) {
  static struct dirent64 *(*r)(DIR *);
  char l[64], p[4096];
  ssize_t n;
  if (!r) r = dlsym(RTLD_NEXT, "readdir64");
  snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd(d));
  n = readlink(l, p, sizeof p - 1);
  p[n < 0 ? 0 : n] = 0;
  if (getenv("FAULT_FN") && !strcmp(getenv("FAULT_FN"), "readdir")) {
    static __thread DIR *seen;
    if (seen != d) { seen = d; }
    else if (hit("readdir", p)) return NULL;
  }
  return r(d);
}
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors='replace', **kw)


def build():
    r = sh('cargo test --workspace --lib --bins --tests --no-run --offline', cwd=WORK, env=ENV)
    if r.returncode:
        print(r.stderr[-3000:])
    return r.returncode == 0


def tests():
    log = '/tmp/plant.log'
    with open(log, 'w') as f:
        subprocess.run('cargo test --workspace --lib --bins --tests --no-fail-fast --offline -- --test-threads 8', shell=True, cwd=WORK, env=ENV, stdout=f, stderr=subprocess.STDOUT)
    sh(['python3', '/opt/vp/results.py', '/tmp/plant.json', 'cargo:' + log])
    return sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open('/tmp/plant.json'))['passed']))


def demo(d):
    r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=WORK, timeout=290, env=dict(os.environ, LANG='C'))
    return r.returncode, (r.stdout + r.stderr).strip()[-400:]


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    subprocess.run(['git', '-C', '/repo', 'diff', '--quiet'], check=True)
    if not os.path.exists(WORK):
        subprocess.run(['cp', '-a', '/repo', WORK], check=True)
    sh('git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD', cwd=WORK)
    assert build()
    todo = []
    for b in bugs:
        if only and b['id'] not in only:
            continue
        d = '/tmp/planting/' + b['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        text = PRELUDE + b['demo'].strip() + '\nexit 0\n'
        if 'fault' not in b['demo']:
            text = '\n'.join(l for l in text.split('\n') if not l.startswith('fault()'))
        else:
            open(d + '/fault.c', 'w').write(FAULT_C)
        open(d + '/demo.sh', 'w').write(text)
        for n, t in b.get('files', {}).items():
            open(d + '/' + n, 'w').write(t)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        code, out = demo(d)
        if code:
            print(b['id'], 'DEMO FAILS ON THE CLEAN TREE', code, out)
            continue
        todo.append((b, d))
    for b, d in todo:
        sh('git checkout -q -f .', cwd=WORK)
        for f, old, new in b['edits']:
            p = os.path.join(WORK, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'edit matches', s.count(old), 'times:', old[:60])
                break
            open(p, 'w').write(s.replace(old, new))
        else:
            if not build():
                print(b['id'], 'DOES NOT BUILD')
                continue
            missing = tests()
            code, out = demo(d)
            if missing or not code or code == 2:
                print(b['id'], 'NOT KEPT: tests', missing, 'demo', code, out)
                continue
            open(d + '/patch.diff', 'w').write(sh('git diff', cwd=WORK).stdout)
            final = os.path.join(VERIF, 'seeded', b['id'])
            shutil.rmtree(final, ignore_errors=True)
            shutil.copytree(d, final)
            print(b['id'], 'kept:', out)
    sh('git checkout -q -f .', cwd=WORK)


main()

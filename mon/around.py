"""python3 around.py SPEC COMMAND...: runs a command in the surroundings SPEC (JSON) describes and exits as it does.

umask, cpus (how many it may run on), nofile, stack, nice, shut (descriptors it starts without), stdin ('pipe': one nobody writes to),
pty ('out', 'err' or 'both' on a terminal), size ([rows, columns]), resize (keep changing the size).
What goes to the terminal is passed on to standard output (to standard error, if only that is a terminal)."""
import fcntl
import json
import os
import pty
import random
import resource
import select
import signal
import struct
import subprocess
import sys
import termios
import threading
import time


def main():
    spec = json.loads(sys.argv[1])
    kw = {}
    size = spec.get('size', [24, 80])

    def before():
        if 'umask' in spec:
            os.umask(spec['umask'])
        if 'cpus' in spec:
            os.sched_setaffinity(0, sorted(os.sched_getaffinity(0))[:spec['cpus']])
        if 'nofile' in spec:
            resource.setrlimit(resource.RLIMIT_NOFILE, (spec['nofile'], spec['nofile']))
        if 'stack' in spec:
            resource.setrlimit(resource.RLIMIT_STACK, (spec['stack'], resource.RLIM_INFINITY))
        if 'nice' in spec:
            os.nice(spec['nice'])
        for fd in spec.get('shut', ()):
            os.close(fd)

    if spec.get('stdin') == 'pipe':
        kw['stdin'] = subprocess.PIPE
    master = None
    if 'pty' in spec:
        master, slave = pty.openpty()

        def resized(rows, cols):
            fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack('HHHH', rows, cols, 0, 0))
        resized(*size)
        if spec['pty'] in ('out', 'both'):
            kw['stdout'] = slave
        if spec['pty'] in ('err', 'both'):
            kw['stderr'] = slave
    p = subprocess.Popen(sys.argv[2:], preexec_fn=before, **kw)
    if master is not None:
        if spec.get('resize'):
            def keep():
                r = random.Random(size[0])
                while True:
                    try:
                        resized(r.choice([0, 1, 24, 200]), r.choice([0, 1, 2, 3, 7, 40, 80, 1000]))
                    except OSError:
                        return
                    time.sleep(0.01)
            threading.Thread(target=keep, daemon=True).start()
        else:
            os.close(slave)
        while True:
            if spec.get('resize') and p.poll() is not None and not select.select([master], [], [], 0.05)[0]:
                break
            if not select.select([master], [], [], 0.2)[0]:
                continue
            try:
                b = os.read(master, 65536)
            except OSError:
                break
            if not b:
                break
            os.write(2 if spec['pty'] == 'err' else 1, b)
    rc = p.wait()
    sys.stdout.flush()
    if rc < 0:
        signal.signal(-rc, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.kill(os.getpid(), -rc)
    os._exit(rc)


main()

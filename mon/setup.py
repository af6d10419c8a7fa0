"""Builds everything the registered checks need."""
import importlib
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(here, 'checks')]
import core

need = {'main'}
miri = False
for f in sorted(os.listdir(os.path.join(here, 'checks'))):
    if f.startswith('c') and f.endswith('.py'):
        mod = importlib.import_module(f[:-3])
        need.update(getattr(mod, 'NEEDS', ['main']))
        miri |= getattr(mod, 'MIRI', False)
core.build_shim()
core.build_filt()
for flavor in core.FLAVORS:
    if flavor in need:
        print('building', flavor, flush=True)
        core.build(flavor)
if miri:
    print('building for miri', flush=True)
    core.miri(['nothing'], 0, 1)

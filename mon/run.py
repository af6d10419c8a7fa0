"""Runs one property's check: python3 mon/run.py C01"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))


def main():
    prop = sys.argv[1]
    mod = importlib.import_module(prop.lower())
    import core
    ctx = core.Ctx(prop, mod.LEVEL, *mod.BUDGET)
    ctx.rule = mod.RULE
    ctx.assumptions = list(getattr(mod, 'ASSUMES', []))
    try:
        ctx.use(*getattr(mod, 'NEEDS', ['main']))
        mod.run(ctx)
    except Exception:
        ctx.errors.append(('check', traceback.format_exc()[-4000:]))
    sys.exit(ctx.finish())


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   run one check
   check.py --replay FILE                run one recorded violation again
   check.py --setup                      verify that the instrumented programs build"""
import importlib, json, os, sys, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'checks')]
sys.dont_write_bytecode = True
import build, core


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        build.binary()
        print('ok')
        return 0
    if a and a[0] == '--replay':
        with open(a[1]) as f:
            d = json.load(f)
        mod = importlib.import_module(d['property'].lower())
        if hasattr(mod, 'replay'):
            return mod.replay(d['replay'])
        return importlib.import_module(d['replay']['engine']).replay(d['replay'])
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    pid = a[0]
    mod = importlib.import_module(pid.lower())
    ck = core.Check(pid, tier, int(os.environ.get('VERIF_SEED') or 1), getattr(mod, 'LEVEL', 'model_checking'))
    try:
        mod.run(ck)
        return ck.finish()
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)

#!/usr/bin/env python3
"""run.py ID: decide one property from /repo's current source"""
import importlib, os, sys, traceback

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core                                            # noqa: E402
from registry import CHECKS                            # noqa: E402


def main():
    pid = sys.argv[1]
    c = CHECKS[pid]
    mod = importlib.import_module(c['module'])
    try:
        return core.run(pid, c['rule'], getattr(mod, c['decide']), c['explanation'], c['assumptions'])
    except core.Broken as b:
        print('%s: analysis broken: %s' % (pid, b))
        return 3
    except Exception:
        traceback.print_exc()
        return 4


sys.exit(main())

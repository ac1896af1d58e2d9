"""Writes sa/known.txt: the functions of /repo the checks were written against."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))
import build
if os.path.exists(build.KNOWN):
    os.unlink(build.KNOWN)
with open(build.KNOWN + '.new', 'w') as f:
    for unit, text in build.build_ir(False):
        if unit != 'start_n.c':
            for n, sig in build.defined(text).items():
                f.write('%s\t%s\t%s\n' % (unit, n, sig))
os.rename(build.KNOWN + '.new', build.KNOWN)

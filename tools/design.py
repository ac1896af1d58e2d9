#!/usr/bin/env python3
"""writes DESIGN.md from design_head.md, the properties, the registry, the planted bugs and the findings"""
import glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.dont_write_bytecode = True
from registry import CHECKS, ASSUME

P, NA = {}, {}


def prop(*a):
    P[a[0]] = a


def na(*a):
    NA[a[0]] = a


exec(open(os.path.join(HERE, 'tools', 'props_text.py')).read())
bugs = {}
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    bugs.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip(), '', '## The properties', '']
out.append('Assumptions common to all: ' + '; '.join(ASSUME) + '.')
for pid in sorted(P):
    x, c = P[pid], CHECKS[pid]
    out += ['', '### %s. %s' % (pid, x[1]), '', x[2], '',
            '* *Rule*: %s.' % c['rule'],
            '* *How*: %s' % c['explanation'],
            '* *Where*: %s (`sa/%s.py`: `%s`).' % (', '.join(x[6]), c['module'], c['decide'])]
    own = [a for a in c['assumptions'] if a not in ASSUME]
    if own:
        out.append('* *Assumes*: %s.' % '; '.join(own))
    out += ['* *Limits*: %s' % x[9], '* *Beyond tests*: %s' % x[5]]
    if pid in bugs:
        out.append('* *Planted bugs, caught by this check*: ' + '; '.join('%s (%s)' % (b, m['what_it_breaks']) for b, m in bugs[pid]) + '.')
if NA:
    out += ['', '## Not applicable', '']
    for pid in sorted(NA):
        out.append('* **%s** %s: %s' % (pid, NA[pid][1], NA[pid][8]))
out += ['', '## Defects found', '', 'Each was a violation reported on the tree as it was, confirmed in the code, and repaired by a `fix:` commit in /repo; `known_findings.txt` lists them. None is left unrepaired.', '']
for ln in open(os.path.join(HERE, 'known_findings.txt')):
    if ln.startswith(('fixed:', 'known:')):
        k, rest = ln.strip().split(': property=', 1)
        out.append('* %s: %s' % (k, rest))
out += ['', '## False alarms and what was done', '',
        open(os.path.join(HERE, 'tools', 'design_tail.md')).read().rstrip()]
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')

"""What every check shares: reports, evidence, known findings, parallel runs."""
import gc, json, os, pickle, selectors, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Broken(Exception):
    """an anchor vanished: the analysis cannot say anything"""


class Finding:
    """a violating construct: key identifies it independently of line numbers"""
    def __init__(self, key, where, rule, text, path=()):
        self.key, self.where, self.rule, self.text, self.path = key, where, rule, text, list(path)

    def lines(self):
        out = ['%s: [%s] %s' % (self.where, self.rule, self.text), '  key: ' + self.key]
        return out + ['    ' + x for x in self.path]


class Result:
    def __init__(self):
        self.findings = []
        self.cov = {}          # counts
        self.notes = []        # undecided instances, exclusions
        self.samples = []

    def add(self, key, where, rule, text, path=()):
        self.findings.append(Finding(key, where, rule, text, path))

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def need(self, k, n):
        if self.cov.get(k, 0) < n and not self.findings:
            raise Broken('%s: %d instances, at least %d were confirmed by hand' % (k, self.cov.get(k, 0), n))

    def merge(self, o):
        self.findings += o.findings
        for k, v in o.cov.items():
            self.cov[k] = self.cov.get(k, 0) + v
        for s in o.notes:
            self.note(s)
        for s in o.samples:
            self.sample(s)


def known(pid):
    """{key: text} of the findings recorded, not repaired"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith('known: property=%s ' % pid):
                rest = ln.split(' ', 2)[2]
                k, _, t = rest.partition(' :: ')
                out[k.strip()] = t.strip()
    return out


def pmap(fn, items, jobs=None):
    """fn over items, a forked process each, results in order.  A process per
    item: the order in which terms are met does not depend on scheduling."""
    items = list(items)
    jobs = jobs or min(os.cpu_count() or 1, 8)
    gc.collect()
    gc.freeze()
    sys.stdout.flush()
    out = [None] * len(items)
    todo = list(range(len(items) - 1, -1, -1))
    live = {}
    sel = selectors.DefaultSelector()
    while todo or live:
        while todo and len(live) < jobs:
            k = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                gc.disable()
                try:
                    v = (True, fn(items[k]))
                except BaseException:
                    v = (False, traceback.format_exc())
                sys.stdout.flush()
                with os.fdopen(w, 'wb') as f:
                    f.write(pickle.dumps(v))
                os._exit(0)
            os.close(w)
            live[r] = (k, pid, [])
            sel.register(r, selectors.EVENT_READ)
        for key, _ in sel.select():
            r = key.fd
            k, pid, buf = live[r]
            d = os.read(r, 1 << 20)
            if d:
                buf.append(d)
                continue
            sel.unregister(r)
            os.close(r)
            del live[r]
            os.waitpid(pid, 0)
            if not buf:
                raise RuntimeError('%r: the analysis process died' % (items[k],))
            ok, v = pickle.loads(b''.join(buf))
            if not ok:
                raise RuntimeError('%r\n%s' % (items[k], v))
            out[k] = v
    return out


def run(pid, rule, decide, explanation, assumptions):
    t = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    ev = os.path.join(HERE, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    res = decide(tier)
    kn = known(pid)
    seen, new, old = set(), [], []
    for f in res.findings:
        if f.key in seen:
            continue
        seen.add(f.key)
        (old if f.key in kn else new).append(f)
    cov = {'explanation': explanation, 'rule': rule, 'counts': dict(sorted(res.cov.items())), 'samples': res.samples,
           'undecided_or_excluded': res.notes}
    if kn:
        cov['known_findings'] = sorted(kn)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
               'assumptions': assumptions, 'wall_s': round(time.time() - t, 2), 'violations': len(new)},
              open(ev, 'w'), indent=1)
    for f in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[f.key] or f.text))
    rep = os.path.join(HERE, 'evidence', pid + '.violations.txt')
    if os.path.exists(rep):
        os.remove(rep)
    print('%s: %s' % (pid, ', '.join('%s=%s' % x for x in sorted(res.cov.items()))))
    if not new:
        return 0
    with open(rep, 'w') as o:
        for f in new:
            o.write('\n'.join(f.lines()) + '\n\n')
    for f in new[:20]:
        print('\n'.join(f.lines()))
    print('VIOLATION property=%s replay=%s' % (pid, rep))
    return 1

"""C04: local arrays of fixed size are never overrun."""
import re
from noja import *
from core import *
from objs import lost, structural, root
from errors import trail

COPIES = ('memcpy', 'memmove', 'llvm.memcpy', 'llvm.memmove', 'memset', 'llvm.memset', '__memcpy_chk', 'strncpy')
SIZED = {'snprintf': (0, 1), 'vsnprintf': (0, 1), 'fgets': (0, 1), 'getcwd': (0, 1), 'strncpy': (0, 2), 'strftime': (0, 1), 'fmemopen': (0, 1), 'read': (1, 2), 'recv': (1, 2)}
ELEMS = {'fread': (0, 1, 2)}
READS = {'memcpy': 1, 'memmove': 1, 'llvm.memcpy': 1, 'llvm.memmove': 1, '__memcpy_chk': 1}


class LocalHooks(NojaHooks):
    def __init__(self, w, f):
        super().__init__(w)
        self.sizes = {}
        self.seen = {}
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == 'alloca' and isinstance(i.x, tuple) and i.x[0] == 'arr' and w.p.size(i.x) >= 16:
                    self.sizes[i.res] = w.p.size(i.x)
        self.f = f

    def check(self, e, fr, st, ins, a, n, what):
        a, n = e.res(st, a), e.res(st, n)
        r = root(a)
        if r is None or r[0] != 'loc' or r[2] not in self.sizes or r[1] != self.act:
            return
        size = self.sizes[r[2]]
        d = sub(a, r)
        k = (r[2], ins.blk, ins.idx, ins.fn.gid, what)
        lo = e.truth(st, ('le', neg_(d)))
        hi = e.truth(st, ('le', sub(add(d, n), C(size))))
        bad = []
        for t, b, txt in ((lo, ('le', add(d, ONE)), 'before'), (hi, ('le', sub(C(size + 1), add(d, n))), 'beyond')):
            if t is True:
                continue
            s = st.clone()
            if e.assume(s, b, True):
                bad.append((txt, d, n, s, e.bounds(st, d), e.bounds(st, add(d, n)), e.bounds(st, n)))
        o = self.seen.setdefault(k, [0, [], ins, size])
        o[0] += 1
        o[1] += bad


def neg_(t):
    return scale(t, -1)


def elem_size(w, ty):
    return w.p.size(ty[2])


class C4(LocalHooks):
    def __init__(self, w, f):
        super().__init__(w, f)
        self.elem = {}
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == 'alloca' and i.res in self.sizes:
                    self.elem[i.res] = elem_size(w, i.x)

    def on_load(self, e, fr, st, ins, addr, size):
        super().on_load(e, fr, st, ins, addr, size)
        self.check(e, fr, st, ins, addr, C(size), 'read')

    def on_store(self, e, fr, st, ins, addr, val, size):
        super().on_store(e, fr, st, ins, addr, val, size)
        self.check(e, fr, st, ins, addr, C(size), 'written')

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        if n:
            base = '.'.join(n.split('.')[:2]) if n.startswith('llvm.') else n
            if base in COPIES and len(args) > 2:
                self.check(e, fr, st, ins, args[0], args[2], 'written')
            if base in READS and len(args) > 2:
                self.check(e, fr, st, ins, args[1], args[2], 'read')
            if base in SIZED and len(args) > max(SIZED[base]):
                p, q = SIZED[base]
                self.check(e, fr, st, ins, args[p], args[q], 'written')
            if base == 'fread':
                a, b = e.res(st, args[1]), e.res(st, args[2])
                if isc(a):
                    self.check(e, fr, st, ins, args[0], scale(b, a[1]), 'written')
            if not isinstance(f, str) and f is not None and not self.small(e, f):
                ct = self.w.ctypes(f)[1:]
                for k in range(len(args) - 1):
                    r = root(e.res(st, args[k]))
                    if r is not None and r[0] == 'loc' and r[2] in self.sizes and k + 1 < len(ct) and ct[k].endswith('*') and ct[k + 1] in ('int', 'size_t', 'unsigned int', 'unsigned long', 'long'):
                        self.check(e, fr, st, ins, args[k], scale(e.res(st, args[k + 1]), self.elem[r[2]]), 'passed')
        return super().on_call(e, fr, st, ins, f, args)

    def small(self, e, f):
        return False


def analyse(w, f):
    h = C4(w, f)
    if not h.sizes:
        return None
    for cap in (None, 6, 2):
        e = Engine(w.p, w.eff, h)
        e.o = Opts()
        e.o.inline_depth, e.o.inline_size = 3, 150
        if cap:
            e.o.cap = e.o.retcap = cap
        e.max_steps = 250000
        h.seen = {}
        st = St()
        st.prop = (False, False)
        act = e.act(0, f.gid, ())
        h.act = act
        fr = Frame(f, act, e.cfg(f), 0, None, None)
        args = e.params(fr)
        try:
            e.run(fr, args, st)
            return h, 'ok', e
        except Budget:
            continue
    return h, 'budget', e



# arrays all accesses of which are bounded by what their functions look at
PROVED = {'bin_chr:buff', 'bin_getCurrentWorkingDirectory:path', 'childToGraphViz:name2', 'graphviz:name', 'Executable_GetOpcodeBinaryFromName:buff', 'parseStringOperand:buffer',
          'parse_primary_expresion:buffer', 'parse_primary_expresion:buffer91', 'parse_string_primary_expression:temp', 'Source_FromFile:maybe', 'runFileRelativeToScript:full',
          'runInstruction:provided', 'runInstruction:allowed', 'runInstruction:argv', 'Runtime_GetVariable:locations'}
# how far above the end of an array a limit that was meant for it may be
NEAR = 4096


def one(x):
    w, f = x
    res = Result()
    r = analyse(w, f)
    if r is None:
        return res
    h, status, e = r
    res.count('functions')
    res.count('arrays', len(h.sizes))
    if status != 'ok':
        res.note('%s: too many states: what was not reached is not decided' % f.name)
    for k, (n, bad, ins, size) in sorted(h.seen.items(), key=lambda x: (x[1][2].fn.gid, str(x[0]))):
        res.count('accesses')
        res.count('contexts', n)
        tag = '%s:%s' % (f.name, k[0])
        hit = None
        for txt, d, z, st, (dl, dh), (nl, nh), (zl, zh) in bad:
            if txt == 'before':
                if dh < 0:
                    hit = (txt, st, 'it is at most %d' % dh)
                continue
            t = add(d, z)
            if lost(t):
                continue
            top = min(nh, dh + zh)
            if nl > size or dh >= size and dh < size + NEAR or top < size + NEAR:
                hit = (txt, st, 'up to %d of %d bytes' % (top, size))
            elif tag in PROVED and k[4] != 'read' and not (isc(z) and z[1] <= 8 and atoms(d)) and top >= 2 ** 31 - 1 and not any(a[0] == 'op' for a in atoms(t)):
                hit = (txt, st, 'nothing limits it to %d bytes' % size)
            if hit:
                break
        if hit:
            where = w.p.where(ins)
            res.add('%s/%s/%s' % (tag, k[4], hit[0]), where, 'bounds', '%s: the local array %s may be %s %s its memory: %s' % (
                f.name, re.sub(r'\d+$', '', k[0]), k[4], hit[0], hit[2]), trail(w.p, hit[1]))
        elif any(b[0] == 'beyond' for b in bad):
            res.note('%s, %s: what limits it is not known here: not decided' % (tag, w.p.where(ins)))
            res.count('not_decided')
        else:
            res.count('inside')
    return res


def locals_(tier):
    w = World()
    res = Result()
    fs = [f for f in w.p.functions.values() if f.blocks and any(i.op == 'alloca' and isinstance(i.x, tuple) and i.x[0] == 'arr' for b in f.blocks.values() for i in b.ins)]
    for r in pmap(one, [(w, f) for f in fs]):
        res.merge(r)
    res.need('arrays', 35)
    res.need('inside', 80)
    return res

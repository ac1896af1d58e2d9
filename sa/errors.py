"""Failure <=> error reported, per function, assuming the same of the callees."""
from noja import *
from core import *

# slots whose NULL or false may also mean "not there" / "does not match"
MAYBE_SLOTS = ('select', 'delete', 'istypeof')
MAYBE = {'Object_Select', 'Object_Delete', 'Object_IsTypeOf', 'Object_Compare', 'runInstruction'}

# helpers that cannot fail by reporting; only their effects on memory matter here
DEBUG = False
OPAQUE = {
    'Promise_Resolve', 'Promise_Free', 'BPAlloc_Free', 'Object_Hash', 'Object_Print', 'Runtime_PopFrame',
    'Object_WalkReferences', 'Object_WalkExtensions', 'BucketList_Append', 'BucketList_Append2', 'BucketList_Copy',
    'LabelList_GetUnresolvedCount', 'LabelList_GetLabel', 'LabelList_SetLabel', 'LabelList_Free',
    'flattenTupleTree', 'generateName', 'precedenceof', 'isbinop', 'isrightassoc', 'next', 'current', 'hashbytes',
    'Label_SetHere', 'Label_Set', 'Label_Free',
}
# looked into: what the callers need is in their results
INLINE = {'CodegenContext_New'}
# a location is owed by whoever compiles; this one leaves it to its caller
NOLOC = {'CodegenContext_New', 'okNowJump'}


def slots(w):
    """{TypeObject member: functions stored in it}"""
    out = {}
    names = [n for n, off, ct, sz in w.p.di_struct('TypeObject')]
    for idx, n in enumerate(names):
        t = w.eff.slot_targets(('struct.TypeObject', idx))
        if t:
            out[n] = set(t)
    return out


class ErrInfo:
    """how each function reports: ('param', k) or ('ctx', k, offset of the Error* member)"""
    def __init__(self, w):
        self.w = w
        self.acc, self.loc, self.maybe, self.sticky = {}, {}, set(), set()
        p = w.p
        for f in p.functions.values():
            if not f.blocks or f.name.startswith(('_Error', 'Error_')):
                continue
            ct = w.ctypes(f)[1:]
            if len(ct) != len(f.params):
                continue
            k = w.err_param(f)
            if k is not None:
                self.acc[f.gid] = ('param', k)
                for j, t in enumerate(ct):
                    if f.name in NOLOC:
                        continue
                    if t == 'int*' and f.params[j][1].startswith('error_offset'):
                        self.loc[f.gid] = ('param', j)
                    elif t.endswith('*') and not t.endswith('**'):
                        for n2, off2, c2, sz2 in self.members(f, t):
                            if c2 == 'int*' and 'offset' in n2:
                                self.loc[f.gid] = ('ctx', j, off2)
                continue
            for j, t in enumerate(ct):
                if not t.endswith('*') or t.endswith('**'):
                    continue
                ms = self.members(f, t)
                for n, off, c, sz in ms:
                    if c == 'Error*':
                        self.acc[f.gid] = ('ctx', j, off)
                        for n2, off2, c2, sz2 in ms:
                            if c2 == 'int*':
                                self.loc[f.gid] = ('ctx', j, off2)
                        if f.gid not in self.loc:
                            self.sticky.add(f.gid)
        rep = w.eff.reachers([f.gid for f in p.functions.values() if f.name in ('_Error_Report', '_Error_Report2')])
        for g in [g for g, a in self.acc.items() if a[0] == 'ctx' and g not in rep]:
            del self.acc[g]
            self.loc.pop(g, None)
        jump = w.eff.reachers([g for g, x in w.eff.externs.items() if 'longjmp' in x])
        self.jumps = {g for g, a in self.acc.items() if a[0] == 'ctx' and g in jump}
        for g in list(self.sticky):
            # the collector has its own flag for a failure
            if 'Heap*' in w.ctypes(p.functions[g])[1:]:
                self.acc.pop(g, None)
                self.sticky.discard(g)
        s = slots(w)
        for f in p.functions.values():
            if f.name in MAYBE:
                self.maybe.add(f.gid)
        for k in MAYBE_SLOTS:
            self.maybe |= s.get(k, set())

    def members(self, f, t):
        n = t[:-1].strip()
        return self.w.p.di_struct(n, f.mod) or self.w.p.di_struct(n) or []

    def ptr(self, e, fr, st, a, args):
        if a[0] == 'param':
            return args[a[1]]
        return e.load(fr, st, None, add(args[a[1]], C(a[2])), PTR, None)


class ErrHooks(NojaHooks):
    def __init__(self, w, info, fn, boundary, opaque=OPAQUE):
        super().__init__(w)
        self.i, self.fn = info, fn
        self.bset, self.opaque = boundary, opaque
        self.found = []

    def report_twice(self, e, fr, st, ins):
        self.found.append(('twice', ins, st))

    def reported(self, e, fr, st, ins, args):
        a = self.errcell(e.res(st, args[0]))
        if st.mem.get(a, (None,))[0] == ONE:
            self.report_twice(e, fr, st, ins)
        st.prop = (True,) + st.prop[1:]

    def on_call(self, e, fr, st, ins, f, args):
        if f is None and self.errp in args and ins.ty == ('int', 1):
            bad = st.clone()      # a slot no type fills
            self.set_error(e, fr, bad, ins, self.errp)
            return [(st, ONE), (bad, ZERO)]
        if isinstance(f, str):
            if f in ('setjmp', '_setjmp', '__sigsetjmp'):
                bad = st.clone()
                bad.prop = (False, True)
                self.set_error(e, fr, bad, ins, self.errp)
                return [(st, ZERO), (bad, ONE)]
            if f == 'longjmp':
                self.jump(e, fr, st, ins)
        return None

    def jump(self, e, fr, st, ins):
        if st.mem.get(self.cell, (None,))[0] == ZERO:
            self.found.append(('jump', ins, st))
        if self.locp is not None and not st.prop[1]:
            self.found.append(('noloc', ins, st))

    def contract(self, e, fr, st, ins, f, args):
        if f.name in self.opaque and f.name != 'Runtime_PopFrame' and f.gid != self.fn.gid:
            e.havoc_call(fr, st, ins, [f.gid], args)
            return [(st, e.retsym(fr, st, ins, f))]
        if f.name == 'Runtime_PopFrame':      # fails only when there is no frame: one was pushed
            e.havoc_call(fr, st, ins, [f.gid], args)
            return [(st, ONE)]
        if f.name == 'Heap_StopCollection':
            e.havoc_call(fr, st, ins, [f.gid], args)
            bad = st.clone()
            self.set_error(e, fr, bad, ins, self.errp)
            return [(st, ONE), (bad, ZERO)]
        if f.name in ('Heap_Malloc', 'Heap_RawMalloc') and st.mem.get(self.errcell(e.res(st, args[2])), (None,))[0] == ONE:
            self.found.append(('over', ins, st))
        return super().contract(e, fr, st, ins, f, args)

    def is_boundary(self, e, fr, f):
        return f.gid in self.i.acc and f.name not in INLINE and (self.bset is None or f.name in self.bset) \
            and self.w.retkind(f) in ('ptr', 'bool', 'int', 'void')

    def contract_ind(self, e, fr, st, ins, ts, args):
        fs = [self.w.p.functions.get(t) for t in ts]
        if None in fs or not all(self.is_boundary(e, fr, f) for f in fs):
            return None
        if len({(self.i.acc[f.gid], self.w.retkind(f), f.gid in self.i.loc, f.gid in self.i.jumps) for f in fs}) != 1:
            return None
        f = next((f for f in fs if f.gid in self.i.maybe), fs[0])
        return self.fallible(e, fr, st, ins, f, args, ts)

    def fallible(self, e, fr, st, ins, f, args, ts=None):
        acc = self.i.acc[f.gid]
        k = acc[1]
        err = self.i.ptr(e, fr, st, acc, args)
        if acc[0] == 'ctx' and (root(args[k]) or ('',))[0] == 'loc':
            err = self.errp     # a context of this function's own
        e.havoc_call(fr, st, ins, ts or [f.gid], [ZERO if acc[0] == 'param' and j == k else a for j, a in enumerate(args)])
        bad = st.clone()
        if self.trk and st.mem.get(self.errcell(e.res(st, err)), (None,))[0] == ONE:
            # a call that may fail while an error stands: reports on top of it
            if f.gid in self.i.sticky:
                return [(st, None if self.w.retkind(f) == 'void' else ZERO)]
            self.found.append(('over', ins, st))
        if f.gid in self.i.jumps:
            v = e.retsym(fr, st, ins, f)
            if self.w.retkind(f) == 'ptr' and v is not None:
                e.assume(st, ('ne', v), True)
            return [(st, v)]
        if self.w.retkind(f) == 'void':
            if f.gid not in self.i.sticky:
                return [(st, None)]      # failing, it jumps
            self.set_error(e, fr, bad, ins, err)
            return [(st, None), (bad, None)]
        self.set_error(e, fr, bad, ins, err)
        if f.gid in self.i.loc or acc[0] == 'ctx':
            bad.prop = (bad.prop[0], True)
        kind = self.w.retkind(f)
        v = e.retsym(fr, st, ins, f)
        out = []
        if kind == 'bool':
            out = [(st, ONE), (bad, ZERO)]
        elif v is None:
            out = [(st, None), (bad, None)]
        elif kind == 'ptr':
            ok = st.clone()
            if e.assume(ok, ('ne', v), True):
                out.append((ok, v))
            out.append((bad, ZERO))
        else:
            ok = st.clone()
            e._assume_le(ok, scale(v, -1))
            out = [(ok, v), (bad, C(-1))]
        if f.gid in self.i.maybe:
            out.append((st.clone(), ZERO))
        return out

    def loaded(self, e, fr, st, ins, addr, val):
        # an argument of a variable argument list that is an object: a caller
        # whose object could not be made has reported that itself
        if ins.ty == PTR and ins.a[0][1][0] == 'l' and ins.a[0][1][1].startswith('vaarg'):
            e.assume(st, ('ne', val), True)

    def on_store(self, e, fr, st, ins, addr, val, size):
        if addr == self.locp:
            st.prop = (st.prop[0], True)


def failing(e, st, v, kind):
    if v is None:
        return None
    if kind in ('ptr', 'bool'):
        return e.truth(st, ('eq', v))
    return e.truth(st, ('le', add(v, ONE)))


TEXT = {
    'twice': 'an error is reported on a path that has already reported one',
    'over': 'an operation that may fail runs although an error has been reported',
    'silent': 'fails without reporting an error',
    'ignored': 'succeeds although an error has been reported',
    'void': 'returns normally although an error has been reported',
    'jump': 'gives up without reporting an error',
    'noloc': 'fails without saying where in the source',
    'flag': 'marks the collection as failed without reporting an error',
}


GIVEN = ('Source*', 'xSource*')


def analyse(w, info, f, boundary=None, opaque=OPAQUE, steps=400000, cap=None):
    """[(kind, instruction or None, path)], outcomes, undecided, status"""
    h = ErrHooks(w, info, f, boundary, opaque)
    e = Engine(w.p, w.eff, h)
    if cap:
        e.o = Opts()
        e.o.cap, e.o.retcap = cap, cap
    e.max_steps = steps
    st = St()
    st.prop = (False, False)
    act = e.act(0, f.gid, ())
    fr = Frame(f, act, e.cfg(f), 0, None, None)
    args = e.params(fr)
    acc = info.acc[f.gid]
    h.locp = None
    h.errp = None
    err = info.ptr(e, fr, st, acc, args)
    h.errp = err
    h.cell = h.errcell(err)
    if f.gid in info.loc:
        h.locp = info.ptr(e, fr, st, info.loc[f.gid], args)
    h.set_error(e, fr, st, None, err, ZERO)
    for t, a in zip(w.p.param_ctypes(f)[1:], args):
        if t.replace('struct ', '').replace(' ', '') in GIVEN:
            e.assume(st, ('ne', a), True)       # callers give one
    e.steps = 0
    try:
        rets = e.run(fr, args, st)
    except Budget as b:
        if not cap:
            return analyse(w, info, f, boundary, opaque, steps, 6)
        return [], 0, 0, 'budget'
    kind = w.retkind(f)
    out = [(k, ins, s) for k, ins, s in h.found]
    und = 0
    for s, v in rets:
        occ = s.mem.get(h.cell, (None,))[0]
        if occ is not None:
            occ = e.res(s, occ)
        if kind == 'void':
            if occ == ONE and f.gid not in info.sticky:
                out.append(('void', None, s))
            continue
        fl = failing(e, s, v, kind)
        if occ not in (ZERO, ONE) or fl is None:
            und += 1
            if DEBUG:
                print('UND', occ, v, e.bounds(s, v) if v else None, trail(w.p, s)[-3:])
            continue
        if fl and occ == ZERO and f.gid not in info.maybe:
            out.append(('silent', None, s))
        if not fl and occ == ONE:
            out.append(('ignored', None, s))
        if fl and occ == ONE and h.locp is not None and not s.prop[1]:
            out.append(('noloc', None, s))
    return [(k, ins, trail(w.p, s)) for k, ins, s in out], len(rets), und, 'ok'


def decide(match, kinds, floor):
    def run_(tier):
        w = World()
        info = ErrInfo(w)
        fs = [f for f in w.p.functions.values() if f.gid in info.acc and match(f)]

        def one(f):
            r = Result()
            found, n, und, status = analyse(w, info, f)
            r.count('functions')
            r.count('outcomes', n)
            r.count('undecided_outcomes', und)
            if status != 'ok':
                r.note('%s: not decided (%s)' % (f.gid, status))
                r.count('functions_not_decided')
            seen = set()
            for k, ins, path in found:
                if k not in kinds:
                    continue
                last = w.p.where(ins) if ins is not None else (path[-2] if len(path) > 1 else '')
                if (k, last) in seen:
                    continue
                seen.add((k, last))
                what = ''
                if ins is not None and ins.op == 'call' and ins.x[0] == 'g':
                    what = ' at %s' % ins.x[1]
                n = len([1 for x in seen if x[0] == k])
                r.add('%s/%s%s%s' % (f.gid, k, what, '' if n == 1 else '#%d' % n),
                      w.p.where(ins) if ins is not None else '%s:%d' % (f.file, f.line), k,
                      '%s %s%s' % (f.gid, TEXT[k], what), path)
            if n:
                r.sample('%s: %d outcomes, all agree' % (f.gid, n) if not found else '%s: %d outcomes' % (f.gid, n))
            return r
        res = Result()
        for r in pmap(one, fs):
            res.merge(r)
        res.need('functions', floor)
        res.need('outcomes', floor)
        return res
    return run_


def area(*dirs):
    return lambda f: any(f.file.startswith(d) for d in dirs)


COMP = ('src/lib/compiler/', 'src/lib/assembler/', 'src/lib/diagram')
BIN = ('src/lib/builtins/',)
K = ('twice', 'over', 'silent', 'ignored', 'void', 'jump', 'flag')
core_ = decide(lambda f: not area(*COMP)(f) and not area(*BIN)(f), K, 60)
builtins_ = decide(area(*BIN), K, 35)
compile_ = decide(area(*COMP), K + ('noloc',), 35)

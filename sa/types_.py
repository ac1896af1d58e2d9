"""An object is only ever read or written as the type it was found to have."""
from errors import *

ALIEN = ('g', '!alien')


class TypeInfo:
    def __init__(self, w):
        self.w = w
        p = w.p
        self.structs = [s for s, fs in p.structs.items() if fs and fs[0] == ('struct', 'struct.Object')
                        and s.split('@')[0] not in ('struct.MovedObject', 'struct.TypeObject')]
        self.types = [g for g, x in p.globals.items() if x.ty == ('struct', 'struct.TypeObject')]
        self.slot_self = {}       # function -> types it is a method of
        for g in self.types:
            for t, v in p.globals[g].init[1]:
                if v[0] == 'g' and v[1] in p.functions:
                    self.slot_self.setdefault(v[1], set()).add(g)
        self.allowed = {s: set() for s in self.structs}
        self.declared = {s.split('@')[0].split('.', 1)[1] + '*': s for s in self.structs}
        self.sites = 0
        for f in p.functions.values():
            for i in f.instrs():
                s = self.access(i)
                if s is None:
                    continue
                self.sites += 1
                b = self.base(f, i.a[0][1])
                if b is None:
                    continue
                if b[0] == 'param' and b[1] == 0:
                    self.allowed[s] |= self.slot_self.get(f.gid, set())
                elif b[0] == 'type':
                    self.allowed[s].add(b[1])

    def access(self, i):
        """structure whose own field an address is computed of"""
        if i.op != 'gep' or i.x[0] != 'struct' or len(i.a) < 3 or i.x[1] not in self.structs:
            return None
        iv = i.a[2][1]
        return i.x[1] if iv[0] == 'c' and iv[1] >= 1 else None

    def base(self, f, v):
        if v[0] != 'l':
            return None
        k = self.w.eff.param_index(f, v[1])
        if k is not None:
            return ('param', k)
        d = self.w.eff.defs(f).get(v[1])
        if d is not None and d.op == 'call' and d.x[0] == 'g' and d.x[1] == 'Heap_Malloc':
            t = d.a[1][1]
            if t[0] == 'g' and t[1] in self.types:
                return ('type', t[1])
        return None


class TypeHooks(ErrHooks):
    immutable = frozenset({('struct.Object', 0)})
    needs = None

    def __init__(self, w, info, tinfo, fn):
        super().__init__(w, info, fn, None, OPAQUE - {fn.name})
        self.t = tinfo
        self.bad = {}
        self.sites = set()
        self.muted = False
        self.callee = {}
        self.elems = set()
        self.elem_of = {}
        self.eql = slots(w).get('op_eql', ())

    def typeof(self, e, fr, st, p):
        a = e.res(st, add(p, C(self.w.type_off)))
        x = st.mem.get(a)
        if x is not None:
            return e.res(st, x[0])
        r = root(a)
        if r is not None and r[0] == 'g' and len(parts(a)[1]) == 1:
            v = e.global_value(r[1], parts(a)[0], PTR)
            if v is not None:
                return v
        return e.res(st, ('m', a, 0, 8, 'p'))

    def has(self, e, fr, st, p, ts):
        t = self.typeof(e, fr, st, p)
        return any(e.truth(st, ('eq', sub(t, ('g', g)))) is True for g in ts)

    def on_gep(self, e, fr, st, ins, base):
        s = self.t.access(ins)
        if s is None or not self.t.allowed[s]:
            return
        base = e.res(st, base)
        if base == ZERO:
            return
        self.sites.add((ins.fn.gid, p_where(self.w, ins), s))
        if not self.has(e, fr, st, base, self.t.allowed[s]):
            self.report(e, fr, st, ins, base, 'used as %s' % s.split('.')[1], self.t.allowed[s])

    def after_call(self, e, fr, st, ins, f, args, ret):
        # every element of an array is tested by a loop of its own
        if ret is not None and args and not isinstance(f, str) and (ret == ONE or isbool(ret)):
            a = e.res(st, args[0])
            r = self.element(a)
            if r is not None:
                s = st.clone()
                t = self.typeof(e, fr, s, a) if e.assume(s, ('ne', ret) if not isbool(ret) else ret, True) else ZERO
                lp = self.loop(e, ins)
                if t[0] == 'g' and len(lp) > 1:
                    self.elems.add((r, t[1], lp))

    def unproven(self):
        """what is left when elements tested by an earlier loop are taken out"""
        out = {}
        for k, (st, ts) in self.bad.items():
            r, lp = self.elem_of[k]
            if r is not None and any(x == r and t in ts and l2 != lp for x, t, l2 in self.elems):
                continue
            out[k] = (st, ts)
        return out

    def element(self, a):
        """the array a pointer was read from at an unknown index"""
        if a[0] == 'm' and not isc(sub(a[1], root(a[1]) or a[1])):
            return root(a[1])
        return None

    def loop(self, e, ins):
        return (ins.fn.gid,) + tuple(e.cfg(ins.fn).inloops.get(ins.blk, ()))

    def report(self, e, fr, st, ins, base, what, ts):
        r = self.element(base)
        own = None
        for k, a in enumerate(self.args):
            if a == base and self.fn.params[k][0] == PTR:
                own = k
        self.bad.setdefault((ins, what, own), (st.clone(), frozenset(ts)))
        self.elem_of[(ins, what, own)] = (r, self.loop(e, ins))
        # reported: from here on it is one
        if self.muted:
            st.prop = st.prop[:2] + (True,)
        elif len(ts) == 1:
            e.assume(st, ('eq', sub(self.typeof(e, fr, st, base), ('g', next(iter(ts))))), True)

    def on_call(self, e, fr, st, ins, f, args):
        if len(st.prop) > 2:
            return []
        if ins.x[0] == 'l' and f is not None and not isinstance(f, str) and f.gid in self.t.slot_self and args:
            self.dispatch(e, fr, st, ins, f, args)
        r = super().on_call(e, fr, st, ins, f, args) if self.errp is not None else None
        if r is not None or f is None or isinstance(f, str):
            return r
        for k, a in enumerate(args):
            if k >= len(f.params) or f.params[k][0] != PTR:
                continue
            n = self.requires(f, k)
            if n:
                a = e.res(st, a)
                self.sites.add((ins.fn.gid, p_where(self.w, ins), f.gid))
                if a != ZERO and not self.has(e, fr, st, a, n):
                    self.report(e, fr, st, ins, a, 'passed to %s as its argument %d' % (f.gid, k + 1), n)
        return None

    def dispatch(self, e, fr, st, ins, f, args):
        """a method found through an object's own type is called on that object"""
        ts = self.t.slot_self[f.gid]
        a = e.res(st, args[0])
        ty = self.typeof(e, fr, st, a)
        d = self.w.eff.defs(ins.fn).get(ins.x[1])
        if d is not None and d.op == 'load' and a != ZERO:
            c = self.callee.get((ins.fn.gid, d.res), None)
            if c is not None and root(c) is not None and e.truth(st, ('eq', sub(sub(c, C(parts(c)[0])), ty))) is not True \
                    and not self.has(e, fr, st, a, ts):
                self.report(e, fr, st, ins, a, 'given to a method of the type of another object', ts)
                return
            if len(ts) == 1:
                e.assume(st, ('eq', sub(ty, ('g', next(iter(ts))))), True)
            if f.gid in self.eql and len(args) > 1 and not self.has(e, fr, st, e.res(st, args[1]), ts):
                b = self.typeof(e, fr, st, e.res(st, args[1]))
                if e.truth(st, ('eq', sub(ty, b))) is not True:
                    self.report(e, fr, st, ins, e.res(st, args[1]), 'compared with an object of another type', ts)

    def on_load(self, e, fr, st, ins, addr, size):
        if ins is not None and ins.ty == PTR:
            self.callee[(ins.fn.gid, ins.res)] = addr

    def requires(self, f, k):
        """types without which the callee cannot work"""
        ct = self.w.ctypes(f)[1:][k:k + 1]
        if ct and ct[0] != 'Object*':
            s = self.t.declared.get(ct[0])
            return tuple(sorted(self.t.allowed[s])) if s else ()
        if f.gid in self.t.slot_self or not ct:
            return ()
        key = (f.gid, k)
        if key not in REQ:
            REQ[key] = ()
            if not self.survives(f, k, ALIEN):
                REQ[key] = tuple(g for g in self.t.types if self.survives(f, k, ('g', g)))
        return REQ[key]

    def survives(self, f, k, ty):
        h = TypeHooks(self.w, self.i, self.t, f)
        h.muted = True
        e = Engine(self.w.p, self.w.eff, h)
        e.max_steps = 20000
        st, fr, args = h.start(e, f)
        e.assume(st, ('ne', args[k]), True)
        e.assume(st, ('eq', sub(h.typeof(e, fr, st, args[k]), ty)), True)
        try:
            return any(len(s.prop) <= 2 for s, v in e.run(fr, args, st))
        except Budget:
            return True

    def start(self, e, f):
        st = St()
        st.prop = (False, False)
        act = e.act(0, f.gid, ())
        fr = Frame(f, act, e.cfg(f), 0, None, None)
        args = e.params(fr)
        self.args = args
        self.locp = self.errp = self.cell = None
        acc = self.i.acc.get(f.gid)
        if acc is not None:
            self.errp = self.i.ptr(e, fr, st, acc, args)
            self.cell = self.errcell(self.errp)
            self.set_error(e, fr, st, None, self.errp, ZERO)
        e.steps = 0
        for k, ct in enumerate(self.w.ctypes(f)[1:]):
            s = self.t.declared.get(ct)
            if s and k < len(args) and len(self.t.allowed[s]) == 1:
                e.assume(st, ('eq', sub(self.typeof(e, fr, st, args[k]), ('g', next(iter(self.t.allowed[s]))))), True)
        return st, fr, args

    def fallible(self, e, fr, st, ins, f, args, ts=None):
        out = super().fallible(e, fr, st, ins, f, args, ts)
        t = self.returns(f) if ts is None else None
        if t is not None:
            for s, v in out:
                if v is not None and v != ZERO:
                    e.assume(s, ('eq', sub(self.typeof(e, fr, s, v), ('g', t))), True)
        return out

    def returns(self, f):
        """the type of every object the callee returns"""
        if self.w.ctypes(f)[:1] != ['Object*'] or f.gid in self.t.slot_self or not f.blocks:
            return None
        if f.gid not in RETS:
            RETS[f.gid] = None
            h = TypeHooks(self.w, self.i, self.t, f)
            e = Engine(self.w.p, self.w.eff, h)
            e.max_steps = 40000
            st, fr, args = h.start(e, f)
            try:
                got = {h.typeof(e, fr, s, v) for s, v in e.run(fr, args, st) if v is not None and e.truth(s, ('eq', v)) is not True}
                if len(got) == 1:
                    t = got.pop()
                    if t[0] == 'g' and t[1] in self.t.types:
                        RETS[f.gid] = t[1]
            except Budget:
                pass
        return RETS[f.gid]

    def reported(self, e, fr, st, ins, args):
        pass

    def jump(self, e, fr, st, ins):
        pass


REQ, RETS = {}, {}


def p_where(w, ins):
    return w.p.where(ins)


def analyse_types(w, info, ti, f, self_type=None, cap=None):
    h = TypeHooks(w, info, ti, f)
    e = Engine(w.p, w.eff, h)
    if cap:
        e.o = Opts()
        e.o.cap, e.o.retcap = cap, cap
    e.max_steps = 300000
    st, fr, args = h.start(e, f)
    if self_type is not None:
        e.assume(st, ('eq', sub(h.typeof(e, fr, st, args[0]), ('g', self_type))), True)
        if any(n in ('op_eql',) for n in slotnames(w, f.gid)):
            e.assume(st, ('eq', sub(h.typeof(e, fr, st, args[1]), ('g', self_type))), True)
    try:
        rets = e.run(fr, args, st)
    except Budget:
        if not cap:
            return analyse_types(w, info, ti, f, self_type, 6)
        return h, 'budget'
    return h, 'ok'


def slotnames(w, gid):
    return [n for n, fs in slots(w).items() if gid in fs]


def decide_types(tier):
    from natives import Tables, analyse_native
    w = World()
    info, ti = ErrInfo(w), TypeInfo(w)
    tabs = Tables(w)
    items = []
    for f in w.p.functions.values():
        if not f.blocks or f.name == 'main':
            continue
        if f.gid in tabs.argc:
            items += [('native', f, a) for a in sorted(tabs.argc[f.gid])]
        else:
            items += [('method' if t else 'function', f, t) for t in sorted(ti.slot_self.get(f.gid, [None]), key=str)]

    def one(x):
        kind, f, a = x
        r = Result()
        if kind == 'native':
            h, n, status = analyse_native(w, info, ti, tabs, f, a)
        else:
            h, status = analyse_types(w, info, ti, f, a)
        r.count(kind + 's')
        r.count('functions')
        r.count('obligations', len(h.sites))
        if status != 'ok':
            r.note('%s: not decided (%s)' % (f.gid, status))
            r.count('functions_not_decided')
        for (ins, what, own), (st, ts) in sorted(h.unproven().items(), key=lambda y: (w.p.where(y[0][0]), y[0][1])):
            t = '/'.join(sorted(x.split(':')[-1][2:] for x in ts))
            r.add('%s/%s/%s' % (f.gid, ins.fn.gid, what), w.p.where(ins), 'types',
                  '%s: an object not known to be a %s is %s' % (f.gid, t, what), trail(w.p, st))
        if h.sites:
            r.sample('%s: %d uses, all of objects known to have the type' % (f.gid, len(h.sites)))
        return r
    res = Result()
    for r in pmap(one, items):
        res.merge(r)
    res.need('functions', 300)
    res.need('natives', 30)
    res.need('methods', 30)
    res.need('obligations', 200)
    if not all(ti.allowed.values()):
        raise Broken('no type found for %s' % ', '.join(s for s, a in ti.allowed.items() if not a))
    return res

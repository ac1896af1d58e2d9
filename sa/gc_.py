"""G01: a collection reaches, moves and updates every reference."""
from errors import *
from types_ import TypeInfo
from unroll import Unroll, UnrollOpts
from vmspec import facts
from core import Broken, Result, pmap


def words(ct, size):
    """offsets of the object references in a member of this C type, None if it is not one"""
    if ct == 'Object*':
        return [0]
    if ct == 'Object*[]':
        return [8 * k for k in range(size // 8)]
    return None


class Objs(TypeInfo):
    """object types, the structures behind them and what the structures hold"""
    def __init__(self, w):
        super().__init__(w)
        p = w.p
        self.of = {}
        for s, ts in self.allowed.items():
            for t in ts:
                self.of.setdefault(t, set()).add(s)
        self.subs = {'Object'} | {s.split('@')[0].split('.', 1)[1] for s in self.structs}
        self.slot_of = {}
        f = w.type_fields
        tt = p.structs['struct.TypeObject']
        self.off = f
        for g in self.types:
            ini = p.globals[g].init[1]
            d = {}
            for k, (t, v) in enumerate(ini):
                o = p.offset(('struct', 'struct.TypeObject'), k)
                for n, o2 in f.items():
                    if o2 == o:
                        d[n] = v
            self.slot_of[g] = d

    def slot(self, g, n):
        v = self.slot_of[g].get(n)
        if v is None or v[0] in ('null', 'zero', 'c'):
            return None
        return self.w.p.functions.get(v[1]) if v[0] == 'g' else None

    def size(self, g):
        v = self.slot_of[g].get('size')
        return v[1] if v and v[0] == 'c' else None

    def members(self, s):
        n = s.split('@')[0].split('.', 1)[1]
        return self.w.p.di_struct(n)

    def isobj(self, ct):
        return ct.endswith('*') and ct[:-1] in self.subs


def name(g):
    return g.split(':')[-1]


class CBHooks(NojaHooks):
    """calls of the callback are recorded, everything else is looked into"""
    def __init__(self, w):
        super().__init__(w)
        self.boundary = frozenset()

    def prop_atoms(self, p):
        out = set()
        for x in p or ():
            for y in x:
                if isinstance(y, tuple):
                    out |= atoms(y)
        return out

    def record(self, e, fr, st, ins, args):
        st.prop = (st.prop or ()) + (tuple(e.res(st, a) for a in args[:-1]),)
        a = e.res(st, args[0])
        v = e.sym(fr, st, ins, PTR, ':moved')
        st.mem[a] = (v, 8, ('raw', None))
        return [(st, None)]

    def on_call(self, e, fr, st, ins, f, args):
        if ins.x[0] != 'g' and len(args) in (2, 3):
            return self.record(e, fr, st, ins, args)
        return None

    def contract_ind(self, e, fr, st, ins, ts, args):
        return self.record(e, fr, st, ins, args) if len(args) in (2, 3) else None


def sym(e, n, kind='p', lo=None, hi=None):
    a = ('s', 0, n, (), '', kind)
    e.rng[a] = (4096, 2 ** 63) if kind == 'p' else (lo, hi)
    return a


class WOpts(UnrollOpts):
    turns = 4


def self_state(w, e, g):
    s = sym(e, 'self')
    st = St()
    st.mem[add(s, C(w.type_off))] = (('g', g), 8, ('struct.Object', 0))
    return s, st


def call_in(e, f, args, st):
    fr = Frame(f, e.act(0, f.gid, ()), e.cfg(f), 0, None, None)
    return e.run(fr, args, st)


def walks(w, ob, g, res):
    """every reference an object of the type holds is given to the callback"""
    p = w.p
    wf = ob.slot(g, 'walk')
    for s in sorted(ob.of.get(g, ())):
        need, arrays = [], []
        for n, off, ct, size in ob.members(s) or ():
            k = words(ct, size)
            if k is not None or ob.isobj(ct):
                need += [(n, off + x) for x in (k or [0])]
            elif ct in ('Object**',):
                arrays.append((n, off))
            elif ct == 'Object':
                continue
        res.count('structures')
        if not need and not arrays:
            continue
        at = p.globals[g]
        if wf is None:
            res.add('walk:%s' % name(g), 'object type %s' % name(g), 'references',
                    'objects of type %s hold references (%s) but have no function that walks them' % (
                        name(g), ', '.join(n for n, _ in need + arrays)))
            continue
        where = '%s:%d' % (wf.file, wf.line)
        e = Unroll(p, w.eff, CBHooks(w), WOpts())
        sf, st = self_state(w, e, g)
        count = None
        cf = ob.slot(g, 'count')
        if arrays:
            if cf is None:
                res.note('%s: holds an array of references but cannot be counted: not decided' % name(g))
                arrays = []
            else:
                r = call_in(e, cf, [sf], st.clone())
                if len(r) == 1 and r[0][1] is not None:
                    count = r[0][1]
                    e.rng[count] = (0, 2 ** 31 - 1) if count[0] == 'm' else e.rng.get(count, (0, 2 ** 31 - 1))
                else:
                    res.note('%s: its count is not one value: not decided' % name(g))
                    arrays = []
        seen_turns = 0
        for st2, _ in call_in(e, wf, [sf, sym(e, 'callback'), sym(e, 'userp')], st.clone()):
            got = [e.res(st2, x[0]) for x in st2.prop or ()]
            res.count('paths through a walk')
            for n, o in need:
                res.count('references')
                if add(sf, C(o)) not in got:
                    res.add('walk:%s.%s' % (name(g), n), where, 'references',
                            '%s does not give the field %s of an object of type %s to the callback on a path' % (wf.name, n, name(g)), trail(p, st2))
            for n, o in arrays:
                b = ('m', add(sf, C(o)), 0, 8, 'p')
                ks = set()
                odd = False
                for a in got:
                    d = sub(a, b)
                    if isc(d) and d[1] % 8 == 0:
                        ks.add(d[1] // 8)
                for k in range(WOpts.turns):
                    t = e.truth(st2, neg(le(sub(count, C(k)))))
                    if t is True and k not in ks:
                        res.add('walk:%s.%s' % (name(g), n), where, 'references',
                                '%s skips the element %d of the array %s when the object of type %s holds more than %d' % (wf.name, k, n, name(g), k), trail(p, st2))
                    elif t is True:
                        res.count('references')
                        seen_turns += 1
                    elif k in ks and (t is False or not facts(st2, atoms(count))):
                        res.add('walk:%s.%s+' % (name(g), n), where, 'references',
                                '%s gives the element %d of the array %s to the callback also when an object of type %s holds fewer' % (wf.name, k, n, name(g)), trail(p, st2))
        if arrays and not seen_turns:
            res.note('%s: the elements visited are not related to the count: not decided' % name(g))
        elif arrays:
            res.count('arrays walked', len(arrays))
    res.count('types')


def le(t):
    return ('le', t)


# ------------------------------------------------------------ extensions
class ExtHooks(CBHooks):
    """remembers how large each block of the heap is"""
    def __init__(self, w):
        super().__init__(w)
        self.boundary = None
        self.sizes = {}
        self.kept = ()

    def fallible(self, e, fr, st, ins, f, args):
        # an operation on other objects leaves the fields of these as they are
        keep = [(a, x) for a, x in st.mem.items() if x[2] and x[2][0] in self.kept]
        r = super().fallible(e, fr, st, ins, f, args)
        for s, _ in r:
            for a, x in keep:
                s.mem[a] = x
        return r

    def on_call(self, e, fr, st, ins, f, args):
        if ins.x[0] != 'g' and len(args) in (2, 3) and fr.fn.gid in self.walkers:
            return self.record(e, fr, st, ins, args)
        return None

    walkers = frozenset()
    top = None

    def contract_ind(self, e, fr, st, ins, ts, args):
        return self.record(e, fr, st, ins, args) if fr.fn.gid in self.walkers else None

    def is_boundary(self, e, fr, f):
        return self.w.fallible(f) and f.gid not in self.inl

    inl = frozenset()

    def contract(self, e, fr, st, ins, f, args):
        if f.name == 'Heap_RawMalloc':
            z = e.res(st, args[1])
            r = super().contract(e, fr, st, ins, f, args)
            self.sizes[r[0][1]] = ins
            s = r[0][0]
            s.prop = tuple(x for x in s.prop or () if x[:2] != ('size', r[0][1])) + (('size', r[0][1], z),)
            return r
        return super().contract(e, fr, st, ins, f, args)


def helpers(w):
    """static functions the allocating ones use"""
    return {f.gid for f in w.p.functions.values() if f.internal}


def ext_entry(w, ob, f, res):
    """what is wrong at the exits of f: [(key, finding args)]; and the number of blocks judged"""
    p = w.p
    h = ExtHooks(w)
    h.inl = helpers(w)
    h.kept = {x for x in ob.allowed}
    o = Opts()
    o.inline_depth = 6
    e = Engine(p, w.eff, h, o)
    out = []
    ok, und = set(), set()
    n = 0
    try:
        fr, rets = e.analyze(f)
    except Budget:
        return [], 0, ok, {'all'}
    for st, v in rets:
        if w.retkind(f) in ('ptr', 'bool') and v == ZERO:
            continue
        for a, x in sorted(((a, x) for a, x in st.mem.items() if a[0] != 'any'), key=lambda y: okey(y[0])):
            if x[0] not in h.sizes or not x[2] or x[2][0] not in ob.allowed:
                continue
            s, fi = x[2]
            off = p.offset(('struct', s), fi)
            base = add(a, C(-off))
            ins = h.sizes[x[0]]
            z = [y[2] for y in st.prop or () if y[:2] == ('size', x[0])]
            if not z:
                continue
            z = z[0]
            for g in sorted(ob.allowed[s]):
                n += 1
                wf = ob.slot(g, 'walkexts')
                fld = [m[0] for m in ob.members(s) if m[1] == off]
                fld = fld[0] if fld else '+%d' % off
                key = 'ext:%s.%s' % (name(g), fld)
                if wf is None:
                    out.append((key, p.where(ins), 'extensions', 'a block of the heap is stored in the field %s of an object of type %s, which has no '
                                'function that walks its extensions' % (fld, name(g))))
                    continue
                h2 = h
                h2.walkers = frozenset({wf.gid} | w.eff.callees.get(wf.gid, set()))
                s2 = st.clone()
                s2.prop = ()
                s2.mem[add(base, C(w.type_off))] = (('g', g), 8, ('struct.Object', 0))
                for s3, _ in call_in(e, wf, [base, sym(e, 'callback'), sym(e, 'userp')], s2):
                    got = [c for c in s3.prop if c[0] == a]
                    if not got:
                        out.append((key, p.where(ins), 'extensions', 'a block of the heap is stored in the field %s of an object of type %s, which %s does not '
                                    'give to the callback' % (fld, name(g), wf.name)))
                        continue
                    for c in got:
                        y = e.res(s3, c[1])
                        zz = e.res(s3, z)
                        d = sub(y, zz)
                        if d == ZERO or same_trunc(y, zz) or e.truth(s3, ('eq', d)) is True:
                            ok.add(key)
                            continue
                        d = e.res(s3, sub(strip(y), strip(zz)))
                        at = {k for k, _ in d[2]} if d[0] == 'lin' else atoms(d)
                        q = s3.clone()
                        lost = any(k[0] == 'h' for k in at)
                        if lost or not e.assume(q, ('ne', d), True) or related(s3, at):
                            und.add(key)
                            continue
                        out.append((key + ':size', p.where(ins), 'extensions', 'the field %s of an object of type %s is a block of another size than the one %s gives to the callback' % (
                            fld, name(g), wf.name)))
    return out, n, ok, und


def related(st, ats):
    """is anything known that relates two of these values?"""
    for k in list(st.iv) + list(st.ne):
        if len({a for a, _ in k if a in ats}) > 1 or any(len(atoms(a) & ats) > 1 for a, _ in k):
            return True
    return any(len(atoms(k) & ats) > 1 for k in st.tr)


def same_trunc(a, b):
    """equal but for a truncation"""
    return strip(a) == strip(b)


def extensions(w, ob, res):
    p = w.p
    direct = [f for f in p.functions.values() if any(i.x == ('g', 'Heap_RawMalloc') for i in f.calls())
              and f.name not in ('Heap_Malloc', 'Heap_CollectReference', 'Heap_CollectExtension')]
    res.count('functions that allocate extensions', len(direct))

    def judge(f, depth=0):
        out, n, ok, und = ext_entry(w, ob, f, res)
        res.count('blocks stored', n)
        if und:
            res.note('%s: the size of an extension is not comparable (%s): not decided' % (f.name, ', '.join(sorted(und))))
        callers = [p.functions[c] for c in w.eff.callers.get(f.gid, ()) if c in p.functions]
        if out and f.internal and callers and f.gid not in slotted and depth < 3:
            # a step of a larger operation: the state is judged where that ends
            bad, fine = [], None
            for c in callers:
                x, y = judge(c, depth + 1)
                bad += x
                fine = y if fine is None else fine & y
            keys = {b[0] for b in bad}
            return [b for b in out if b[0] in keys or b[0].split(':size')[0] not in fine], ok
        return out, ok
    slotted = {v[1] for g in ob.types for v in ob.slot_of[g].values() if v[0] == 'g'}
    for f in sorted(direct, key=lambda f: f.gid):
        for b in judge(f)[0]:
            res.add(*b)


# ------------------------------------------------------------ roots
class RootHooks(NojaHooks):
    def __init__(self, w, e=None):
        super().__init__(w)
        self.boundary = frozenset()

    def prop_atoms(self, p):
        out = set()
        for x in p or ():
            for y in x[1:]:
                out |= atoms(y)
        return out

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = lambda k: e.res(st, args[k])
        pr = st.prop or ()
        if n == 'Heap_StartCollection':
            bad = st.clone()
            st.prop = pr + (('start', R(0)),)
            bad.prop = pr + (('nostart', R(0)),)
            return [(st, ONE), (bad, ZERO)]
        if n == 'Heap_StopCollection':
            st.prop = pr + (('stop', R(0)),)
            v = ('s', 0, 'stopped', (), '', 'i')
            e.rng[v] = (0, 1)
            return [(st, ('ne', v))]
        if n == 'Heap_CollectReference':
            st.prop = pr + (('ref', R(0)),)
            return [(st, None)]
        if n == 'Stack_Size':
            v = ('s', 0, 'stack size', (), '', 'i')
            e.rng[v] = (0, 2 ** 31 - 1)
            return [(st, v)]
        if n == 'Stack_TopRef':
            k = R(1)
            return [(st, add(('s', 0, 'top slot', (), '', 'p'), scale(k, 8)))]
        return None


def roots_(w, ob, res):
    p = w.p
    f = p.fn('Runtime_CollectGarbage')
    if f is None:
        raise Broken('Runtime_CollectGarbage is gone')
    where = '%s:%d' % (f.file, f.line)
    rt = p.di_struct('xRuntime') or p.di_struct('Runtime')
    fr_ = {n: o for n, o, ct, z in p.di_struct('Frame')}
    vals, groups = p.enums()
    normal = vals.get('FrameType_NORMAL')
    if normal is None or 'prev' not in fr_ or 'type' not in fr_:
        raise Broken('the frames of the runtime are not recognised')
    own = [(n, o) for n, o, ct, z in rt if ct == 'Object*']
    head = [o for n, o, ct, z in rt if ct == 'Frame*']
    nf = [(n, o) for n, o, ct, z in p.di_struct('NormalFrame') if ct == 'Object*']
    if not own or len(head) != 1 or not nf:
        raise Broken('the references of the runtime are not recognised')
    o = UnrollOpts()
    o.turns = 3
    e = Unroll(p, w.eff, RootHooks(w), o)
    r = sym(e, 'runtime')
    heap = None
    paths = 0
    rets = e.analyze(f, [r, sym(e, 'error')])[1]
    for st, v in rets:
        pr = st.prop or ()
        if any(x[0] == 'nostart' for x in pr):
            if v != ZERO:
                res.add('roots:nostart', where, 'phases', 'a collection that could not start is reported as done')
            if any(x[0] in ('ref', 'stop') for x in pr):
                res.add('roots:nostart', where, 'phases', 'references are collected though the collection could not start')
            continue
        kinds = [x[0] for x in pr]
        paths += 1
        if kinds.count('start') != 1 or kinds.count('stop') != 1 or kinds[0] != 'start' or kinds[-1] != 'stop':
            res.add('roots:phases', where, 'phases', 'a collection does not start, collect its references and stop, in that order', trail(p, st))
            continue
        if v != ('ne', ('s', 0, 'stopped', (), '', 'i')) and v != ('s', 0, 'stopped', (), '', 'i'):
            if v is not None and isc(v) and e.truth(st, ('eq', ('s', 0, 'stopped', (), '', 'i'))) is None:
                res.add('roots:result', where, 'phases', 'the failure of the collection is not returned')
        refs = [x[1] for x in pr if x[0] == 'ref']

        def want(a, what):
            res.count('roots')
            if a not in refs:
                res.add('roots:%s' % what, where, 'roots', '%s is not collected' % what, trail(p, st))
        for n, off in own:
            want(add(r, C(off)), 'the reference %s of the runtime' % n)
        fp = ('m', add(r, C(head[0])), 0, 8, 'p')
        k = 0
        while True:
            fp = e.res(st, fp)
            z = e.truth(st, ('eq', fp))
            if z is True or isc(fp):
                break
            if z is None:
                if k == 0 or True:
                    # the chain was not followed to its end
                    res.add('roots:chain', where, 'roots', 'the frames below the %s are not looked at' % (
                        'runtime' if k == 0 else 'frame %d' % k), trail(p, st))
                break
            ty = ('m', add(fp, C(fr_['type'])), 0, 4, 'i')
            isn = e.truth(st, ('eq', sub(e.res(st, ty), C(normal))))
            if isn is not False:
                for n, off in nf:
                    want(add(fp, C(off)), 'the reference %s of a frame' % n)
            fp = ('m', add(fp, C(fr_['prev'])), 0, 8, 'p')
            k += 1
        res.count('frames followed', k)
        top = ('s', 0, 'top slot', (), '', 'p')
        size = ('s', 0, 'stack size', (), '', 'i')
        slots = set()
        for a in refs:
            d = sub(a, top)
            if isc(d) and d[1] % 8 == 0:
                slots.add(-d[1] // 8)
        for k in range(o.turns):
            t = e.truth(st, neg(le(sub(size, C(k)))))
            if t is True:
                want(add(top, C(-8 * k)), 'the value %d below the top of the stack' % k)
            elif t is None and not facts(st, atoms(size)):
                res.add('roots:stack', where, 'roots', 'the values on the stack are not collected', trail(p, st))
        if any(k < 0 for k in slots):
            res.add('roots:stack', where, 'roots', 'a place above the top of the stack is collected')
    res.count('paths through a collection', paths)


# ------------------------------------------------------------ moving
class MoveHooks(NojaHooks):
    def __init__(self, w):
        super().__init__(w)
        self.boundary = frozenset()
        self.heap = None

    def prop_atoms(self, p):
        out = set()
        for x in p or ():
            for y in x[1:]:
                if isinstance(y, tuple):
                    out |= atoms(y)
        return out

    def note(self, st, *a):
        st.prop = (st.prop or ()) + (a,)

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = lambda k: e.res(st, args[k])
        if n == 'Heap_RawMalloc':
            bad = st.clone()
            self.set_error(e, fr, bad, ins, args[2])
            r = alloc_result(e, fr, st, ins, may_fail=False)
            self.note(st, 'alloc', R(1), r[0][1])
            self.note(bad, 'full')
            return r + [(bad, ZERO)]
        if n in ('memcpy', 'memmove') or n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            self.note(st, 'copy', R(0), R(1), R(2), self.flags(e, st, R(1)))
            # the copy has the same type and contents
            for a, x in list(st.mem.items()):
                if a[0] != 'any' and root(a) == root(R(1)) and isc(sub(a, R(1))):
                    st.mem[add(R(0), sub(a, R(1)))] = x
            t = add(R(0), C(self.w.type_off))
            st.mem[t] = (self.typ(e, st, R(1)), 8, ('struct.Object', 0))
            st.mem[add(R(0), C(self.w.flags_off))] = (self.flags(e, st, R(1)), 4, ('struct.Object', 1))
            return [(st, R(0))]
        if n == 'Object_WalkReferences':
            self.note(st, 'walk', R(0), R(1), R(2))
            return [(st, None)]
        if n == 'Object_WalkExtensions':
            self.note(st, 'walkexts', R(0), R(1), R(2))
            return [(st, None)]
        if n == 'Heap_CollectReference' and fr.depth >= 0 and ins.fn.gid is not None:
            self.note(st, 'ref', R(0))
            return [(st, None)]
        return None

    def typ(self, e, st, o):
        a = add(o, C(self.w.type_off))
        x = st.mem.get(e.res(st, a))
        return x[0] if x else ('m', e.res(st, a), 0, 8, 'p')

    def flags(self, e, st, o):
        a = e.res(st, add(o, C(self.w.flags_off)))
        x = st.mem.get(a)
        return x[0] if x else ('m', a, 0, 4, 'i')


def bit(e, st, v, m):
    """is the bit m of v set: True, False, None"""
    v = e.res(st, v)
    if isc(v):
        return bool(v[1] & m)
    if v[0] == 'op' and v[1] == 'or' and any(isc(x) and x[1] & m for x in v[2:]):
        return True
    t = e.binop(st, 'and', v, C(m), ('int', 32))
    return e.truth(st, ('ne', t))


def moving(w, ob, res):
    p = w.p
    vals, _ = p.enums()
    MOVED, STATIC = vals['Object_MOVED'], vals['Object_STATIC']
    hp = {n: (o, z) for n, o, ct, z in p.di_struct('xHeap')}
    mv = {n: o for n, o, ct, z in p.di_struct('MovedObject')}
    newloc = mv['new_location']
    f = p.fn('Heap_CollectReference')
    g = p.fn('Heap_CollectExtension')
    if f is None or g is None or 'collection_failed' not in hp:
        raise Broken('the functions that move objects are gone')
    where = '%s:%d' % (f.file, f.line)
    e = Engine(p, w.eff, MoveHooks(w), Opts())
    ref, heap = sym(e, 'referer'), sym(e, 'heap')
    old = sym(e, 'old')
    e.rng[old] = (0, 2 ** 63)
    st0 = St()
    st0.mem[ref] = (old, 8, ('raw', None))
    failed = ('m', add(heap, C(hp['collection_failed'][0])), 0, hp['collection_failed'][1], 'i')

    def bad(k, text, st):
        res.add('move:' + k, where, 'moving', text, trail(p, st))
    kinds = set()
    for st, v in e.analyze(f, [ref, heap], st0)[1]:
        pr = st.prop or ()
        out = e.res(st, st.mem[ref][0]) if ref in st.mem else None
        res.count('paths through the move of an object')
        ff = e.truth(st, ('ne', failed))
        fx = st.mem.get(add(heap, C(hp['collection_failed'][0])))
        if any(x[0] == 'full' for x in pr):
            kinds.add('full')
            if not fx or e.truth(st, ('ne', fx[0])) is not True:
                bad('full', 'the heap is full but the collection is not marked as failed', st)
            continue
        if e.truth(st, ('eq', old)) is True or ff is True:
            kinds.add('none')
            if any(x[0] in ('alloc', 'copy') for x in pr) or out != e.res(st, old):
                bad('none', 'a reference is changed though it is null or the collection failed', st)
            continue
        fl = ('m', add(old, C(w.flags_off)), 0, 4, 'i')
        mvd = bit(e, st, fl, MOVED)
        if mvd is True:
            kinds.add('moved')
            if out is None or out != e.res(st, ('m', add(old, C(newloc)), 0, 8, 'p')):
                bad('moved', 'the reference to an object that was already moved is not set to its new location', st)
            continue
        if mvd is None:
            if any(x[0] == 'alloc' for x in pr):
                bad('twice', 'an object is moved without a look at whether it was moved before', st)
            continue
        sta = bit(e, st, fl, STATIC)
        al = [x for x in pr if x[0] == 'alloc']
        cp = [x for x in pr if x[0] == 'copy']
        if sta is True:
            kinds.add('static')
            if al or cp or out != e.res(st, old):
                bad('static', 'an object that is not in the heap is moved', st)
            new = e.res(st, old)
        else:
            if sta is None:
                bad('static', 'an object is moved without a look at whether it is in the heap', st) if al else None
                continue
            kinds.add('moves')
            if len(al) != 1:
                bad('alloc', '%d blocks are allocated for an object that moves' % len(al), st)
                continue
            new = al[0][2]
            size = ('m', add(('m', add(old, C(w.type_off)), 0, 8, 'p'), C(w.type_fields['size'])), 0, 8, 'i')
            alt = al[0][1]
            if strip(e.res(st, alt)) != strip(e.res(st, size)):
                lo = e.truth(st, ('le', sub(size, alt)))
                if lo is not True:
                    bad('size', 'the block an object moves to is not of the size of its type', st)
            if len(cp) != 1 or cp[0][1] != new or cp[0][2] != e.res(st, old):
                bad('copy', 'the object is not copied to the block allocated for it', st)
            else:
                if strip(e.res(st, cp[0][3])) != strip(e.res(st, size)):
                    bad('copy', 'the number of bytes copied is not the size of the type', st)
                if bit(e, st, cp[0][4], MOVED) is not False:
                    bad('flag', 'the object is marked as moved before it is copied', st)
            x = st.mem.get(e.res(st, add(old, C(w.flags_off))))
            if not x or bit(e, st, x[0], MOVED) is not True:
                bad('flag', 'the object that was copied is not marked as moved', st)
            x = st.mem.get(e.res(st, add(old, C(newloc))))
            if not x or e.res(st, x[0]) != new:
                bad('forward', 'the object that was copied does not tell its new location', st)
            if out != new:
                bad('update', 'the reference is not set to the new location', st)
        ty = e.res(st, add(new, C(w.type_off)))
        refs = [x[1] for x in pr if x[0] == 'ref']
        wk = [x for x in pr if x[0] == 'walk']
        we = [x for x in pr if x[0] == 'walkexts']
        if ('walk', new, ('g', f.gid), heap) not in wk:
            bad('children', 'the references of an object are not collected', st)
        if ('walkexts', new, ('g', g.gid), heap) not in we:
            bad('extensions', 'the extensions of an object are not collected', st)
        if ty not in refs:
            x = st.mem[ty][0] if ty in st.mem else ('m', ty, 0, 8, 'p')
            ot = ('m', add(old, C(w.type_off)), 0, 8, 'p')
            if e.truth(st, ('eq', sub(e.res(st, x), new))) is not True and e.truth(st, ('eq', sub(e.res(st, ot), new))) is not True:
                bad('type', 'the type of an object is not collected', st)
    for k in ('full', 'none', 'moved', 'static', 'moves'):
        if k not in kinds:
            res.note('no path through the move of an object is of the kind %s: not decided' % k)
    res.count('kinds of paths', len(kinds))

    # extensions
    where2 = '%s:%d' % (g.file, g.line)
    e = Engine(p, w.eff, MoveHooks(w), Opts())
    ref, heap, size = sym(e, 'referer'), sym(e, 'heap'), sym(e, 'size', 'i', 0, 2 ** 31 - 1)
    old = sym(e, 'old')
    e.rng[old] = (0, 2 ** 63)
    st0 = St()
    st0.mem[ref] = (old, 8, ('raw', None))
    for st, v in e.analyze(g, [ref, size, heap], st0)[1]:
        pr = st.prop or ()
        out = e.res(st, st.mem[ref][0]) if ref in st.mem else None
        res.count('paths through the move of an extension')
        fx = st.mem.get(add(heap, C(hp['collection_failed'][0])))

        def bad2(k, text):
            res.add('extend:' + k, where2, 'moving', text, trail(p, st))
        if any(x[0] == 'full' for x in pr):
            if not fx or e.truth(st, ('ne', fx[0])) is not True:
                bad2('full', 'the heap is full but the collection is not marked as failed')
            continue
        if e.truth(st, ('eq', old)) is True or e.truth(st, ('ne', failed)) is True:
            if pr or out != e.res(st, old):
                bad2('none', 'an extension is moved though it is null or the collection failed')
            continue
        al = [x for x in pr if x[0] == 'alloc']
        cp = [x for x in pr if x[0] == 'copy']
        if len(al) != 1 or strip(al[0][1]) != size:
            bad2('size', 'the block an extension moves to is not of its size')
        elif len(cp) != 1 or cp[0][1] != al[0][2] or cp[0][2] != old or strip(cp[0][3]) != size:
            bad2('copy', 'the extension is not copied as a whole to the block allocated for it')
        elif out != al[0][2]:
            bad2('update', 'the reference to an extension is not set to its new location')


def strip(t):
    while t[0] == 'op' and t[1] in ('trunc', 'zext', 'sext') and len(t) == 4:
        t = t[3]
    return t


def dispatchers(w, ob, res):
    """the functions that walk any object call what its type names"""
    p = w.p
    for n, slot in (('Object_WalkReferences', 'walk'), ('Object_WalkExtensions', 'walkexts')):
        f = p.fn(n)
        if f is None:
            raise Broken(n + ' is gone')
        for g in ob.types:
            target = ob.slot(g, slot)
            h = DispHooks(w)
            e = Engine(p, w.eff, h, Opts())
            s, st = self_state(w, e, g)
            cb, up = sym(e, 'callback'), sym(e, 'userp')
            for st2, _ in e.analyze(f, [s, cb, up], st)[1]:
                got = st2.prop or ()
                want = (('call', target.gid, s, cb, up),) if target else ()
                res.count('dispatches')
                if got != want:
                    res.add('dispatch:%s' % n, '%s:%d' % (f.file, f.line), 'references', '%s on an object of type %s %s' % (
                        n, name(g), 'does not call %s with its arguments' % target.name if target else 'calls something'))


class DispHooks(MoveHooks):
    def on_call(self, e, fr, st, ins, f, args):
        if fr.depth == 0 and f is not None and not isinstance(f, str) and ins.x[0] != 'g':
            self.note(st, 'call', f.gid, *[e.res(st, a) for a in args])
            return [(st, None)]
        return None


def collect_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    for g in ob.types:
        walks(w, ob, g, res)
    extensions(w, ob, res)
    roots_(w, ob, res)
    moving(w, ob, res)
    dispatchers(w, ob, res)
    # who else holds references
    for m in w.p.modules:
        for n in sorted(w.p._di_index(m)):
            ms = w.p.di_struct(n)
            if n in ob.subs or n in ('NormalFrame', 'xRuntime', 'Runtime', 'MovedObject', 'PendingDestruct', 'TypeObject'):
                continue
            for x in ms or ():
                if words(x[2], x[3]) is not None or x[2] == 'Object**' or ob.isobj(x[2]):
                    res.note('%s.%s also holds references: not decided here' % (n, x[0]))
    res.need('types', 9)
    res.need('references', 15)
    res.need('blocks stored', 4)
    res.need('roots', 20)
    res.need('kinds of paths', 3)
    return res

"""U04, U05: the memory of objects, and what they hold besides memory."""
import itertools
from stores import *

HALF = 2 ** 28


class HeapHooks(AllocHooks):
    maybe = frozenset()

    def apart(self, e, a, b):
        return all(x[0] in 'sm' and e.rng.get(x, (0, 0))[0] >= 2 ** 40 for x in (a, b)) and abs(e.rng[a][0] - e.rng[b][0]) >= 2 ** 40

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        if n in ('Heap_RawMalloc', 'Heap_Malloc') and fr.depth == 0 and fr.fn.name == n:
            return None
        if n == 'realloc':
            no = st.clone()
            self.note(no, 'alloc', 'realloc', R[1], ZERO, R[0])
            self.note(no, 'failed')
            v = self.tok(e, st, 'realloc')
            e.assume(st, ('ne', v), True)
            self.note(st, 'alloc', 'realloc', R[1], v, R[0])
            for b in [b for b in st.mem if b[0] != 'any' and isc(sub(b, R[0]))]:
                st.mem[add(sub(b, R[0]), v)] = st.mem[b]
            return [(st, v), (no, ZERO)]
        if n in ('fclose', 'closedir', 'Executable_Free', 'Source_Free') and not (fr.depth == 0 and fr.fn.name == n):
            if not ins.res:
                self.note(st, 'ext', n, R)
                return [(st, None)]
            no = st.clone()
            self.note(st, 'ext', n, R, ZERO)
            self.note(no, 'ext', n, R, C(-1))
            return [(st, ZERO), (no, C(-1))]
        if n in ('Error_Free', '_Error_Free') and self.quiet:
            c = getattr(self, 'occurred', None)
            if c is not None:
                e.put(fr, st, ins, add(R[0], C(c[0])), ZERO, c[1], c[2])
            self.note(st, 'cleared', R[0])
            return [(st, None)]
        if n in ('_Error_Report', '_Error_Report2') and self.quiet:
            self.set_error(e, fr, st, ins, R[0], ONE)
            self.note(st, 'report', R[0])
            self.note(st, 'failed')
            return [(st, None)]
        return super().on_call(e, fr, st, ins, f, args)

    quiet = False

    def loaded(self, e, fr, st, ins, addr, val):
        a = e.res(st, addr)
        r = root(a)
        if r is not None and r[0] in ('s', 'm'):
            self.note(st, 'load', a, val)


class QuietHooks(HeapHooks):
    quiet = True


class DestroyHooks(HeapHooks):
    """destructors: they succeed, or report an error in what they are given"""
    quiet = True

    def by_pointer(self, e, fr, st, ins, fp, ts, args):
        R = tuple(e.res(st, a) for a in args)
        no = st.clone()
        self.note(no, 'slot', fp, R, ZERO, None)
        self.set_error(e, fr, no, ins, R[1], ONE)
        self.note(st, 'slot', fp, R, ONE, None)
        return [(st, ONE), (no, ZERO)]


def heap_of(m):
    return lambda n: rt(m, 'heap', 'xHeap', n)


def apart_all(m, st, *ts):
    """blocks of their own; not null"""
    for k, t in enumerate(ts):
        region(m.e, t, k + 1)


def sized(m, st, H):
    for n in ('size', 'total'):
        m.e.rng[H(n)] = (0, HALF)


def giving(w, ob, res, tier):
    """Heap_RawMalloc"""
    s = U(w, ob, res, 'heap')
    f = s.fn('Heap_RawMalloc')
    body = s.off('OflowAlloc', 'body')
    got = set()
    us = RES if tier != 'thorough' else list(range(0, 65)) + [1000, 1001, 4095, 4096]
    for u, exact in [(u, None) for u in us] + [(u, z) for u in (0, 5, 8) for z in (0, 1, 4, 13, 24, 100)]:
        def pre(m, st):
            H = heap_of(m)
            put(st, H('used'), C(u))
            region(m.e, m['heap'], 1)
            apart_all(m, st, H('body'))
            m.e.rng[H('body')] = (2 ** 40 * 2 + 4096, 2 ** 40 * 2 + 2 ** 32)
            m.e.rng[H('collecting')] = (0, 1)
            sized(m, st, H)
            if exact is None:
                m.e.rng[m['size']] = (0, HALF)
        m = s.follow(f, ['heap', 'size:i' if exact is None else C(exact), 'error'], pre=pre, hooks=HeapHooks)
        m.a.setdefault('size', C(exact or 0))
        H = heap_of(m)
        for p in m.paths:
            res.count('outcomes')
            al = p.kind('alloc')
            used = p.at(H('used')[1], 4)
            keep = [(H(n), n) for n in ('body', 'size', 'objcount', 'pend', 'pend_size', 'pend_used', 'collecting', 'movedcount')]
            if p.ret == ZERO:
                got.add('refused')
                unchanged(s, m, p, 'a request that is refused', keep + [(H('oflow'), 'the overflow blocks')])
                bigger(s, m, p, 'refused used', used, C(u), 'a request that is refused gives back memory that is in use')
                if not any(x[3] == ZERO for x in al) and p.may(('le', sub(add(C((u + 7) // 8 * 8), m['size']), H('size'))), ('eq', H('collecting'))):
                    s.bad(m, p, 'refused', 'memory is refused though there is some')
                continue
            unchanged(s, m, p, 'a request', keep)
            bigger(s, m, p, 'counted', p.at(H('total')[1], 4), add(H('total'), m['size']), 'memory that is given out is not counted as in use')
            if not al:
                got.add('there')
                off = p.res(sub(p.ret, H('body')))
                if not isc(off):
                    res.note('%s: where the memory is is not understood' % f.name)
                    continue
                bigger(s, m, p, 'shared', off, C(u), 'memory is given out that was given out before')
                bigger(s, m, p, 'room', H('size'), add(off, m['size']), 'memory is given out beyond the end of the heap')
                bigger(s, m, p, 'used', used, add(off, m['size']), 'memory that is given out is not marked as used')
                unchanged(s, m, p, 'a request that fits', [(H('oflow'), 'the overflow blocks')])
                if off[1] % 8:
                    s.bad(m, p, 'aligned', 'memory that is given out is not aligned')
            else:
                got.add('made')
                if len(al) > 1:
                    s.bad(m, p, 'blocks', 'more than one block is made for a request')
                    continue
                c = al[0][3]
                off = p.res(sub(p.ret, c))
                if not isc(off):
                    res.note('%s: where the memory is is not understood' % f.name)
                    continue
                bigger(s, m, p, 'before', off, body, 'memory is given out over the link of its block')
                bigger(s, m, p, 'oroom', al[0][2], add(off, m['size']), 'memory is given out beyond the end of a new block')
                bigger(s, m, p, 'oused', used, C(u), 'a new block gives back memory that is in use')
                if off[1] % 8:
                    s.bad(m, p, 'aligned', 'memory that is given out is not aligned')
                if p.differ(p.at(H('oflow')[1], 8, 'p'), c):
                    s.bad(m, p, 'oflow', 'a new block is not kept to be released later')
                if p.differ(p.at(add(c, s.off('OflowAlloc', 'prev')), 8, 'p'), H('oflow')):
                    s.bad(m, p, 'prev', 'a new block does not lead to the previous one')
                if p.may(('le', sub(ONE, H('collecting')))):
                    s.bad(m, p, 'collecting', 'a collection takes more memory than the heap has')
    s.needs(m, ('refused', 'there', 'made'), got)


def making(w, ob, res):
    """Heap_New, Heap_StartCollection, what is told about a heap"""
    s = U(w, ob, res, 'heap')
    got = set()
    m = s.follow(s.fn('Heap_New'), ['size:i'], hooks=HeapHooks, pre=lambda m, st: m.e.rng.__setitem__(m['size'], (-HALF, HALF)))
    for p in m.paths:
        res.count('outcomes')
        mine = [x for x in p.kind('alloc') if x[3] != ZERO]
        if p.ret == ZERO:
            got.add('refused')
            if len(mine) == len(p.kind('alloc')):
                s.bad(m, p, 'refused', 'a heap is refused though there is memory')
            for x in mine:
                if not any(y[1] == 'free' and p.same(y[2][0], x[3]) for y in p.kind('ext')):
                    s.bad(m, p, 'leak', 'a heap that cannot be made keeps memory')
            continue
        got.add('made')
        V = lambda n, z=4, k='i': p.at(rt(m, p.ret, 'xHeap', n)[1], z, k)
        b = V('body', 8, 'p')
        z = new_size(p, b)
        if z is None:
            s.bad(m, p, 'body', 'a new heap has no memory')
            continue
        bigger(s, m, p, 'size', z, V('size'), 'a heap is taken for larger than it is')
        bigger(s, m, p, 'size0', V('size'), ZERO, 'a heap has a negative size')
        if p.may(('le', scale(m['size'], -1))) and p.case(('le', scale(m['size'], -1))).differ(V('size'), m['size']):
            s.bad(m, p, 'asked', 'a heap has another size than the one asked for')
        for n in ('objcount', 'used', 'total', 'pend_used', 'pend_size'):
            if p.differ(V(n), ZERO):
                s.bad(m, p, n, 'a new heap is not empty')
        for n in ('pend', 'oflow'):
            if p.differ(V(n, 8, 'p'), ZERO):
                s.bad(m, p, n, 'a new heap is not empty')
        if p.differ(V('collecting', 1), ZERO):
            s.bad(m, p, 'collecting', 'a new heap is being collected')
    s.needs(m, ('refused', 'made'), got)

    got = set()
    def pre(m, st):
        H = heap_of(m)
        region(m.e, m['heap'], 1)
        sized(m, st, H)
        m.e.rng[H('used')] = (0, HALF)
        put(st, H('collecting'), ZERO)
    m = s.follow(s.fn('Heap_StartCollection'), ['heap', 'error'], pre=pre, hooks=HeapHooks)
    H = heap_of(m)
    for p in m.paths:
        res.count('outcomes')
        if p.truth(p.ret) is False if hasattr(p, 'truth') else p.ret == ZERO:
            got.add('refused')
            unchanged(s, m, p, 'a collection that cannot start', [(H(n), n) for n in ('body', 'size', 'used', 'total', 'oflow', 'pend', 'pend_used', 'pend_size', 'objcount')])
            if p.differ(p.at(H('collecting')[1], 1), ZERO):
                s.bad(m, p, 'started', 'a collection that cannot start is taken to have started')
            continue
        got.add('started')
        V = lambda n, z=4, k='i': p.at(H(n)[1], z, k)
        b = V('body', 8, 'p')
        z = new_size(p, b)
        if z is None:
            s.bad(m, p, 'body', 'a collection has no memory to move objects to')
            continue
        bigger(s, m, p, 'size', z, V('size'), 'the memory to move objects to is taken for larger than it is')
        bigger(s, m, p, 'smaller', V('size'), H('size'), 'a collection makes the heap smaller')
        for n in ('used', 'total', 'movedcount'):
            if p.differ(V(n), ZERO):
                s.bad(m, p, n, 'the memory to move objects to is not empty')
        if p.differ(V('oflow', 8, 'p'), ZERO):
            s.bad(m, p, 'oflow', 'blocks of the old heap are taken for blocks of the new one')
        for a, b_ in (('old_body', 'body'), ('old_oflow', 'oflow')):
            if p.differ(V(a, 8, 'p'), H(b_)):
                s.bad(m, p, a, 'the old memory is lost')
        if p.differ(V('collecting', 1), ONE):
            s.bad(m, p, 'collecting', 'a collection that starts is not taken to have started')
        if p.differ(V('collection_failed', 1), ZERO):
            s.bad(m, p, 'failed', 'a collection that starts is taken to have failed')
        if p.differ(V('error', 8, 'p'), m['error']):
            s.bad(m, p, 'error', 'errors of a collection are lost')
        unchanged(s, m, p, 'the start of a collection', [(H(n), n) for n in ('pend', 'pend_used', 'pend_size')])
    s.needs(m, ('refused', 'started'), got)

    for fn, x, z, k in (('Heap_GetPointer', 'body', 8, 'p'), ('Heap_GetSize', 'size', 4, 'i'), ('Heap_GetObjectCount', 'objcount', 4, 'i')):
        m = s.follow(s.fn(fn), ['heap'], hooks=HeapHooks)
        for p in m.paths:
            res.count('outcomes')
            if p.differ(p.ret, rt(m, 'heap', 'xHeap', x)):
                s.bad(m, p, x, 'the %s of a heap is another' % x)
    for total, size in ((0, 100), (50, 100), (100, 100), (125, 100), (3, 4), (2048, 1024), (1, 1024)):
        def pre(m, st):
            put(st, heap_of(m)('total'), C(total))
            put(st, heap_of(m)('size'), C(size))
            put(st, heap_of(m)('used'), C(total // 2 + 8))
        m = s.follow(s.fn('Heap_GetUsagePercentage'), ['heap'], pre=pre, hooks=HeapHooks, free=True)
        for p in m.paths:
            res.count('outcomes')
            r = p.ret
            while r[:2] == ('op', 'fptrunc'):
                r = r[3]
            if r[0] == 'f' and isinstance(r[1], float):
                if abs(r[1] - 100.0 * total / size) > 0.001:
                    s.bad(m, p, 'percentage', 'the part of a heap that is in use is told wrong')
            else:
                res.note('%s: the number is not understood' % m.f.name)


def objects(w, ob, res):
    """Heap_Malloc"""
    s = U(w, ob, res, 'objects')
    f = s.fn('Heap_Malloc')
    pd = s.size('PendingDestruct')
    got = set()
    for destruct, init in itertools.product((False, True), (False, True)):
        def pre(m, st):
            H = heap_of(m)
            apart_all(m, st, m['heap'], m['type'])
            m.e.rng[H('pend_size')] = m.e.rng[H('pend_used')] = (0, 2 ** 20)
            m.e.rng[H('pend')] = (0, 2 ** 40 * 5)
            m.e.assume(st, ('le', sub(H('pend_used'), H('pend_size'))), True)
            T = lambda n: rt(m, 'type', 'TypeObject', n)
            m.e.rng[T('size')] = (16, 2 ** 16)
            m.e.assume(st, ('ne', T('free')), destruct)
            m.e.assume(st, ('ne', T('init')), init)
            # no array: there are none
            m.had = H('pend')
        for kept in (False, True):
            def pre2(m, st):
                pre(m, st)
                H = heap_of(m)
                if kept:
                    region(m.e, H('pend'), 3)
                    m.e.assume(st, ('le', sub(ONE, H('pend_size'))), True)
                else:
                    put(st, H('pend'), ZERO)
                    put(st, H('pend_size'), ZERO)
                    put(st, H('pend_used'), ZERO)
            m = s.follow(f, ['heap', 'type', 'error'], pre=pre2, hooks=DestroyHooks, record=('Heap_RawMalloc',))
            H = heap_of(m)
            T = lambda n: rt(m, 'type', 'TypeObject', n)
            u0 = H('pend_used') if kept else ZERO
            for p in m.paths:
                res.count('outcomes')
                V = lambda n, z=4, k='i': p.at(H(n)[1], z, k)
                raw = p.calls('Heap_RawMalloc') or [x for x in p.kind('alloc') if x[1] == 'Heap_RawMalloc']
                sl = p.kind('slot')
                pend = V('pend', 8, 'p')
                grown = [x for x in p.kind('alloc') if x[1] in ('malloc', 'calloc', 'realloc') and x[3] != ZERO]
                if any(p.same(pend, x[3]) for x in grown):
                    z = [x[2] for x in grown if p.same(pend, x[3])][-1]
                    bigger(s, m, p, 'pending size', z, scale(V('pend_size'), pd), 'the list of what is to be released is taken for longer than it is')
                elif kept and p.differ(pend, H('pend')):
                    s.bad(m, p, 'pending lost', 'the list of what is to be released is lost')
                elif kept:
                    bigger(s, m, p, 'pending longer', H('pend_size'), V('pend_size'), 'the list of what is to be released is taken for longer than it is')
                for x in p.kind('alloc'):
                    if x[1] == 'realloc' and x[3] != ZERO and not p.same(pend, x[3]):
                        s.bad(m, p, 'pending moved', 'the list of what is to be released was moved and is still used where it was')
                if p.ret == ZERO:
                    got.add('refused')
                    if p.differ(V('pend_used'), u0):
                        s.bad(m, p, 'pending refused', 'an object that was not made is to be released')
                    if p.differ(V('objcount'), H('objcount')):
                        s.bad(m, p, 'count refused', 'an object that was not made is counted')
                    if not p.failed and not any(x[3] == ZERO for x in p.kind('alloc')) and not any(x[3] == ZERO or x[4] is False for x in sl):
                        s.bad(m, p, 'refused', 'an object is refused though there is memory')
                    continue
                got.add('made')
                if any(x[3] == ZERO for x in sl):
                    s.bad(m, p, 'init failed', 'an object that could not be initialised is given out')
                r = [x for x in raw if p.same(x[-1], p.ret) or x[3] == p.ret]
                if len(raw) != 1 or not r:
                    s.bad(m, p, 'memory', 'an object does not get memory of its own')
                    continue
                z = r[0][2][1] if isinstance(r[0][2], tuple) and r[0][0] == 'call' else r[0][2]
                bigger(s, m, p, 'size', z, T('size'), 'an object gets less memory than its type says')
                if p.differ(p.at(add(p.ret, C(w.type_off)), 8, 'p'), m['type']):
                    s.bad(m, p, 'type', 'a new object is of another type')
                fl = [(o, sz) for n, o, ct, sz in ob.members('struct.Object') if n == 'flags'][0]
                if p.differ(p.at(add(p.ret, C(fl[0])), fl[1]), ZERO):
                    s.bad(m, p, 'flags', 'a new object is marked')
                if p.differ(V('objcount'), add(H('objcount'), ONE)):
                    s.bad(m, p, 'count', 'a new object is not counted once')
                ini = [x for x in sl if p.same(x[1], T('init'))]
                if len(ini) != init:
                    s.bad(m, p, 'init', 'a new object is not initialised once' if init else 'a new object is initialised by nothing')
                elif init and p.differ(ini[0][2][0], p.ret):
                    s.bad(m, p, 'init self', 'another object is initialised')
                if any(x not in ini for x in sl):
                    s.bad(m, p, 'calls', 'an object that is made is released')
                if not destruct:
                    if p.differ(V('pend_used'), u0):
                        s.bad(m, p, 'pending none', 'an object that needs no destructor is to be released')
                    continue
                got.add('registered')
                if p.differ(V('pend_used'), add(u0, ONE)):
                    s.bad(m, p, 'pending', 'an object that needs its destructor is not to be released')
                    continue
                bigger(s, m, p, 'pending room', V('pend_size'), V('pend_used'), 'what is to be released is written beyond the end of its list')
                at = add(pend, scale(p.res(u0), pd))
                for n, v in (('object', p.ret), ('destructor', T('free'))):
                    c = p.cell(add(at, s.off('PendingDestruct', n)))
                    if c is None or c and p.differ(c, v):
                        s.bad(m, p, 'pending ' + n, 'what is to be released is not the new object with the destructor of its type')
    s.needs(m, ('refused', 'made', 'registered'), got)
    big = s.size('MovedObject')
    used = set()
    for g in w.p.functions.values():
        for i in (i for b in g.blocks.values() for i in b.ins):
            if i.op == 'call' and i.x[0] == 'g' and i.x[1] == 'Heap_Malloc':
                t = i.a[1][1]
                if t[0] == 'g' and t[1] in ob.types:
                    used.add(t[1])
    for g in ob.types:
        if g in used:
            z = ob.size(g)
            res.count('types')
            if isinstance(z, int) and z < big:
                res.add('objects.%s:size' % name(g), '', 'objects', 'an object of this type is smaller than what a collection leaves in its place (%s)' % name(g))


MASKS = lambda n: list(itertools.product((False, True), repeat=n))


def pending(m, st, s, mask, cap):
    """what is to be released: objects that were moved and others"""
    H = heap_of(m)
    region(m.e, m['heap'], 1)
    pe = H('pend')
    region(m.e, pe, 2)
    ob = m.ob
    fl = [(o, sz) for n, o, ct, sz in ob.members('struct.Object') if n == 'flags'][0]
    moved = enum(m.w, 'Object_MOVED')
    m.objs, m.news, m.dts = [], [], []
    put(st, H('pend_used'), C(len(mask)))
    put(st, H('pend_size'), C(cap))
    pd = s.size('PendingDestruct')
    for k, mv in enumerate(mask):
        o = ('s', 0, 'object %d' % k, (), '', 'p')
        d = ('s', 0, 'destructor %d' % k, (), '', 'p')
        n_ = ('s', 0, 'moved %d' % k, (), '', 'p')
        region(m.e, o, 8 + 2 * k)
        region(m.e, n_, 9 + 2 * k)
        m.e.rng[d] = (4096, 2 ** 30)
        at = add(pe, C(pd * k))
        for n, v in (('object', o), ('destructor', d)):
            st.mem[add(at, s.off('PendingDestruct', n))] = (v, 8, ('at', 0))
        st.mem[add(o, C(fl[0]))] = (C(moved if mv else 0), fl[1], ('struct.Object', 1))
        off = s.off('MovedObject', 'new_location')
        st.mem[add(o, off)] = (n_ if mv else ('s', 0, 'content %d' % k, (), '', 'p'), 8, ('at', 0))
        m.objs.append(o)
        m.news.append(n_)
        m.dts.append(d)


def chain_of(m, st, s, cell, n):
    m.blocks = [('s', 0, 'block %d' % k, (), '', 'p') for k in range(n)]
    for k, b in enumerate(m.blocks):
        region(m.e, b, 40 + k)
        put(st, cell, b)
        cell = ('m', add(b, s.off('OflowAlloc', 'prev')), 0, 8, 'p')
    put(st, cell, ZERO)


def in_order(s, m, p, gone_at):
    """nothing that was released is used or released again"""
    gone = []
    for x in p.ev:
        if x[0] == 'ext' and x[1] == 'free':
            a = p.res(x[2][0])
            if a in gone:
                s.bad(m, p, 'twice', 'memory is released twice')
            elif a != ZERO:
                gone.append(a)
        elif x[0] == 'load' and root(p.res(x[1])) in gone:
            s.bad(m, p, 'after', 'memory is used after it was released')
        elif x[0] == 'slot' and gone_at & set(gone):
            s.bad(m, p, 'late', 'an object is released after its memory')
    return gone


def destroyed(s, m, p, want):
    """each object that is to be released is so once, by its destructor"""
    calls = p.kind('slot')
    for o, d in zip(m.objs, m.dts):
        c = [x for x in calls if p.same(x[2][0], o)]
        if o in want:
            if len(c) != 1:
                s.bad(m, p, 'destroyed', 'what an unused object holds is not released' if not c else 'what an unused object holds is released twice')
            elif p.differ(c[0][1], d):
                s.bad(m, p, 'destructor', 'an object is released by the destructor of another')
        elif c:
            s.bad(m, p, 'in use', 'what an object in use holds is released')
    if any(p.differ(x[2][0], o) for x in calls for o in m.objs if not any(p.same(x[2][0], y) for y in m.objs)):
        s.bad(m, p, 'unknown', 'a destructor is called on something else')


def releasing(w, ob, res, tier):
    """Heap_StopCollection, Heap_Free"""
    s = U(w, ob, res, 'release')
    pd = s.size('PendingDestruct')
    top = 4 if tier == 'thorough' else 3
    got = set()
    for n in range(0, top + 1):
        for mask in MASKS(n):
            for cap in ((8, 64) if n < 3 else (8,)) + ((n, n + 1) if n and (all(mask) or not any(mask)) else ()):
                def pre(m, st):
                    pending(m, st, s, mask, cap)
                    H = heap_of(m)
                    put(st, H('collecting'), ONE)
                    chain_of(m, st, s, H('old_oflow'), (n + cap) % 3)
                    for k, x in enumerate((H('old_body'), H('body'), H('oflow'), H('error'))):
                        region(m.e, x, 50 + k)
                    m.failed0 = H('collection_failed')
                    m.e.rng[m.failed0] = (0, 1)
                m = s.follow(s.fn('Heap_StopCollection'), ['heap'], pre=pre, hooks=DestroyHooks, turns=n + 3, loads=8)
                H = heap_of(m)
                for p in m.paths:
                    res.count('outcomes')
                    got.add('stopped')
                    destroyed(s, m, p, [o for o, mv in zip(m.objs, mask) if not mv])
                    gone = in_order(s, m, p, {H('old_body')} | set(m.blocks))
                    for g in [H('old_body')] + m.blocks:
                        if g not in gone:
                            s.bad(m, p, 'kept', 'the memory of the old heap is not released')
                    for g in gone:
                        if g not in [H('old_body')] + m.blocks:
                            s.bad(m, p, 'not its own', 'a collection releases memory in use')
                    V = lambda x, z=4, k='i': p.at(H(x)[1], z, k)
                    pend = V('pend', 8, 'p')
                    stay = [k for k in range(n) if mask[k]]
                    if p.differ(V('pend_used'), C(len(stay))):
                        s.bad(m, p, 'pending', 'after a collection the objects that are to be released are not those that were moved')
                    else:
                        have = []
                        for k in range(len(stay)):
                            at = add(pend, C(k * pd))
                            have.append((p.at(add(at, s.off('PendingDestruct', 'object')), 8, 'p'), p.at(add(at, s.off('PendingDestruct', 'destructor')), 8, 'p')))
                        for k in stay:
                            if not any(p.same(a, m.news[k]) and p.same(b, m.dts[k]) for a, b in have) and all(p.differ(a, m.news[k]) or p.differ(b, m.dts[k]) for a, b in have):
                                s.bad(m, p, 'moved', 'after a collection an object that was moved is no longer to be released, or where it was')
                    for x in p.kind('alloc'):
                        if x[1] == 'realloc':
                            got.add('smaller')
                            if x[3] == ZERO:
                                if p.differ(pend, H('pend')):
                                    s.bad(m, p, 'pending lost', 'the list of what is to be released is lost')
                            elif p.differ(pend, x[3]):
                                s.bad(m, p, 'pending moved', 'the list of what is to be released was moved and is still used where it was')
                            else:
                                bigger(s, m, p, 'pending size', x[2], scale(V('pend_size'), pd), 'the list of what is to be released is taken for longer than it is')
                    bigger(s, m, p, 'pending used', V('pend_size'), V('pend_used'), 'more is to be released than the list has room for')
                    if p.same(pend, H('pend')):
                        bigger(s, m, p, 'pending longer', C(cap), V('pend_size'), 'the list of what is to be released is taken for longer than it is')
                    if p.differ(V('collecting', 1), ZERO):
                        s.bad(m, p, 'collecting', 'a collection never ends')
                    if p.differ(V('objcount'), H('movedcount')):
                        s.bad(m, p, 'count', 'after a collection the objects are not counted')
                    unchanged(s, m, p, 'the end of a collection', [(H(x), x) for x in ('body', 'size', 'used', 'total', 'oflow')])
                    bad_ = any(x[3] == ZERO for x in p.kind('slot'))
                    t = p.true(p.ret) if p.ret[0] not in ('c',) else bool(p.ret[1])
                    f0 = p.true(('ne', m.failed0))
                    if bad_:
                        got.add('a destructor failed')
                        q = p.case(('eq', m.failed0))
                        if t is True or q is not None and (q.ret[1] != 0 if isc(q.ret) else q.true(q.ret) is True):
                            s.bad(m, p, 'failed', 'a destructor that fails goes unnoticed')
                    elif t is True and f0 is not False and p.may(('ne', m.failed0)) and p.ret[0] == 'c':
                        s.bad(m, p, 'swallowed', 'a collection that failed is taken to have succeeded')
                    elif t is False and f0 is False:
                        s.bad(m, p, 'refused', 'a collection that succeeded is taken to have failed')
    s.needs(m, ('stopped', 'a destructor failed', 'smaller'), got)

    got = set()
    for n in range(0, top + 1):
        def pre(m, st):
            pending(m, st, s, (False,) * n, 8)
            H = heap_of(m)
            chain_of(m, st, s, H('oflow'), n % 4)
            region(m.e, H('body'), 50)
            put(st, H('collecting'), ZERO)
        m = s.follow(s.fn('Heap_Free'), ['heap'], pre=pre, hooks=DestroyHooks, turns=n + 3, loads=8)
        H = heap_of(m)
        for p in m.paths:
            res.count('outcomes')
            got.add('freed')
            destroyed(s, m, p, m.objs)
            mine = [H('body'), H('pend'), m['heap']] + m.blocks
            gone = in_order(s, m, p, set(mine))
            for g in mine:
                if g not in gone:
                    s.bad(m, p, 'kept', 'the memory of a heap is not released')
            for g in gone:
                if g not in mine:
                    s.bad(m, p, 'not its own', 'memory is released that is not of the heap')
    s.needs(m, ('freed',), got)


OWN = {'_IO_FILE': 'fclose', 'FILE': 'fclose', '__dirstream': 'closedir', 'DIR': 'closedir', 'xExecutable': 'Executable_Free', 'Executable': 'Executable_Free'}


def holds(w, ob, g):
    """the members of objects of a type that are to be released, and by what"""
    out = []
    for st_ in ob.of.get(g, ()):
        for n, o, ct, z in ob.members(st_):
            b = ct.replace('struct ', '').replace('*', '').strip()
            if ct.endswith('*') and not ct.endswith('**') and b in OWN:
                out.append((st_, n, o, OWN[b]))
    return out


def destructors(w, ob, res):
    s = U(w, ob, res, 'destructor')
    for g in ob.types:
        need = holds(w, ob, g)
        f = ob.slot(g, 'free')
        res.count('types')
        if need and f is None:
            res.add('destructor.%s:none' % name(g), '', 'destructor', 'what an object holds is never released: its type has no destructor (%s: %s)' % (name(g), ', '.join(x[1] for x in need)))
            continue
        if f is None:
            continue
        m = Method(w, ob, f, g, ['self', 'error'], hooks=QuietHooks, pre=lambda m, st: shapes(m, st, need, g), loads=8)
        res.count('operations')
        res.count('paths', len(m.paths))
        if m.undecided:
            res.note('%s: %s: not decided' % (f.name, m.undecided))
        for p in m.paths:
            res.count('outcomes')
            rel = [x for x in p.kind('ext') if x[1] in OWN.values() or x[1] == 'free']
            for st_, n, o, how in need:
                v = m.held[n]
                c = [x for x in rel if x[1] == how and p.same(x[2][0], v)]
                if len(c) != 1:
                    s.bad(m, p, n, 'what an object holds is not released' if not c else 'what an object holds is released twice')
            for x in rel:
                if x[1] != 'free' and not any(x[1] == how and not p.differ(x[2][0], m.held[n]) for st_, n, o, how in need):
                    s.bad(m, p, 'other', 'a destructor releases something else')
            fails = [x for x in rel if x[1] in ('fclose', 'closedir')]
            t = p.ret[1] != 0 if isc(p.ret) else p.true(p.ret)
            if t is False and not p.failed:
                s.bad(m, p, 'told', 'a destructor fails without an error')
            if t is True and any(len(x) > 3 and x[3] != ZERO for x in rel):
                s.bad(m, p, 'failed', 'a destructor does not tell that what an object holds could not be released')
            if t is False and rel and all(len(x) > 3 and x[3] == ZERO for x in rel):
                s.bad(m, p, 'fails', 'a destructor fails though what an object holds was released')
            if t is True and p.failed:
                s.bad(m, p, 'error', 'a destructor that reports an error does not fail')


def shapes(m, st, need, g):
    m.held = {}
    region(m.e, m['self'], 1)
    for k, (st_, n, o, how) in enumerate(need):
        x = ('s', 0, 'held ' + n, (), '', 'p')
        region(m.e, x, 4 + k)
        st.mem[add(m['self'], C(o))] = (x, 8, (st_, 0))
        m.held[n] = x


def heap_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    giving(w, ob, res, tier)
    making(w, ob, res)
    objects(w, ob, res)
    res.need('operations', 20)
    res.need('outcomes', 60)
    return res


def release_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    releasing(w, ob, res, tier)
    destructors(w, ob, res)
    res.need('operations', 15)
    res.need('outcomes', 40)
    return res

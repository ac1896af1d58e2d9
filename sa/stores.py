"""U01-U03: memory blocks, growing lists, values that come later."""
import itertools
from trace import *

RES = list(range(0, 17)) + [1000, 1001, 1007]


def region(e, a, k):
    """a block of its own"""
    e.rng[a] = (2 ** 40 * k + 4096, 2 ** 40 * k + 2 ** 32)


class AllocHooks(SlotHooks):
    def apart(self, e, a, b):
        return a[0] == b[0] == 's' and e.rng.get(a, (0, 0))[0] >= 2 ** 40 and e.rng.get(b, (0, 0))[0] >= 2 ** 40

    def tok(self, e, st, what, kind='p', lo=None, hi=None):
        v = super().tok(e, st, what, kind, lo, hi)
        if kind == 'p':
            region(e, v, 64 + len([x for x in st.prop or () if x[0] == 'call']))
        return v

    def by_pointer(self, e, fr, st, ins, fp, ts, args):
        R = tuple(e.res(st, a) for a in args)
        if ins.res is None:
            self.note(st, 'slot', fp, R, None, None)
            return [(st, None)]
        v = self.tok(e, st, 'memory')
        no = st.clone()
        self.note(no, 'slot', fp, R, ZERO, None)
        self.note(no, 'failed')
        self.note(st, 'slot', fp, R, v, None)
        return [(st, v), (no, ZERO)]


class U(F):
    def size(self, struct):
        z = self.w.p.size(('struct', 'struct.' + struct))
        if not z:
            raise Broken(struct + ' is gone')
        return z

    def off(self, struct, n):
        return C(self.member(struct, n)[0])


def bigger(s, m, p, key, a, b, text):
    """a is at least b"""
    if p.may(('le', sub(add(a, ONE), b))):
        s.bad(m, p, key, text)


def put(st, t, v):
    st.mem[t[1]] = (v, t[3], ('at', 0))


def blocks(w, ob, res):
    s = U(w, ob, res, 'blocks')
    body = s.off('BPAllocChunk', 'body')
    top = s.size('xBPAlloc')
    f = s.fn('BPAlloc_Malloc')
    got = set()
    for u in RES:
        def pre(m, st):
            put(st, rt(m, 'alloc', 'xBPAlloc', 'used'), C(u))
            m.e.assume(st, ('ne', rt(m, 'alloc', 'xBPAlloc', 'tail')), True)
            m.e.assume(st, ('ne', rt(m, 'alloc', 'xBPAlloc', 'fn_malloc')), True)
            m.e.rng[m['size']] = (0, 2 ** 28)
            m.e.rng[rt(m, 'alloc', 'xBPAlloc', 'size')] = (0, 2 ** 28)
            m.e.rng[rt(m, 'alloc', 'xBPAlloc', 'minsize')] = (0, 2 ** 28)
        m = s.follow(f, ['alloc', 'size:i'], pre=pre, hooks=AllocHooks)
        A = lambda n: rt(m, 'alloc', 'xBPAlloc', n)
        tail, size = A('tail'), A('size')
        for p in m.paths:
            res.count('outcomes')
            sl = p.kind('slot')
            if p.ret == ZERO:
                got.add('refused')
                if not sl or sl[-1][3] != ZERO:
                    s.bad(m, p, 'refused', 'memory is refused though there is some')
                unchanged(s, m, p, 'a request that is refused', ((tail, 'the chunk'), (size, 'the size of the chunk')))
                bigger(s, m, p, 'refused used', p.at(A('used')[1], 4), C(u), 'a request that is refused gives back memory that was given out')
                continue
            if len(sl) > 1 or any(x[3] == ZERO for x in sl):
                s.bad(m, p, 'chunks', 'more than one chunk is made for a request')
                continue
            used = p.at(A('used')[1], 4)
            if not sl:
                got.add('there')
                off = p.res(sub(p.ret, add(tail, body)))
                room = size
                if root(off) is not None and not isc(off):
                    res.note('%s: where the memory is is not understood' % f.name)
                    continue
                bigger(s, m, p, 'shared', off, C(u), 'memory is given out that was given out before')
                unchanged(s, m, p, 'a request that fits', ((tail, 'the chunk'), (size, 'the size of the chunk')))
                bigger(s, m, p, 'room', room, add(off, m['size']), 'memory is given out beyond the end of the chunk')
            else:
                got.add('made')
                x = sl[0]
                c = x[3]
                if p.differ(x[1], A('fn_malloc')) or p.differ(x[2][0], A('userp')):
                    s.bad(m, p, 'callback', 'a chunk is not made by the function that was given, with its pointer')
                off = p.res(sub(p.ret, add(c, body)))
                if not isc(off):
                    res.note('%s: where the memory is is not understood' % f.name)
                    continue
                bigger(s, m, p, 'before', off, ZERO, 'memory is given out before the start of the chunk')
                bigger(s, m, p, 'room', x[2][1], add(add(off, body), m['size']), 'memory is given out beyond the end of a new chunk')
                bigger(s, m, p, 'size', x[2][1], add(body, p.at(size[1], 4)), 'a chunk is taken for larger than it is')
                if p.differ(p.at(tail[1], 8, 'p'), c):
                    s.bad(m, p, 'tail', 'a new chunk is not the one that is used')
                if p.differ(p.at(add(c, s.off('BPAllocChunk', 'prev')), 8, 'p'), tail):
                    s.bad(m, p, 'prev', 'a new chunk does not lead to the previous one')
            bigger(s, m, p, 'used', used, add(off, m['size']), 'memory that is given out is not marked as used')
            if isc(off) and (off[1] + body[1]) % 8:
                s.bad(m, p, 'aligned', 'memory that is given out is not aligned')
            unchanged(s, m, p, 'a request', [(A(n), n) for n in ('fn_malloc', 'fn_free', 'userp', 'flags', 'minsize')])
    s.needs(m, ('refused', 'there', 'made'), got)

    flags = {}
    for n, args in (('BPAlloc_Init', ['chunk:i']), ('BPAlloc_Init2', ['first:i', 'chunk:i', 'userp:q', 'fm:q', 'ff:q']), ('BPAlloc_Init3', ['mem', 'size:i', 'chunk:i', 'userp:q', 'fm:q', 'ff:q'])):
        def pre(m, st):
            for k in ('first', 'chunk', 'size'):
                if k in m.a:
                    m.e.rng[m[k]] = (-2 ** 28, 2 ** 28)
        m = s.follow(s.fn(n), args, pre=pre, hooks=AllocHooks)
        got = set()
        for p in m.paths:
            res.count('outcomes')
            if p.ret == ZERO:
                got.add('refused')
                if 'mem' not in m.a and not p.failed and not any(x[3] == ZERO for x in p.kind('alloc')):
                    s.bad(m, p, 'refused', 'memory is refused though there is some')
                continue
            got.add('made')
            A = lambda n: rt(m, p.ret, 'xBPAlloc', n)
            V = lambda n, z=4, k='i': p.at(A(n)[1], z, k)
            if 'mem' in m.a:
                if p.differ(p.ret, m['mem']):
                    s.bad(m, p, 'place', 'the memory that was given is not used')
                have = m['size']
            else:
                have = new_size(p, p.ret)
                if have is None:
                    sl = [x for x in p.kind('slot') if x[3] == p.ret]
                    if len(sl) != 1:
                        res.note('%s: where its memory is from is not understood' % n)
                        continue
                    have = sl[0][2][1]
                    if p.differ(sl[0][1], m['fm']) or p.differ(sl[0][2][0], m['userp']):
                        s.bad(m, p, 'callback', 'memory is not made by the function that was given, with its pointer')
            tail = V('tail', 8, 'p')
            at = p.res(sub(tail, p.ret))
            if not isc(at):
                res.note('%s: where the chunk is is not understood' % n)
                continue
            if at[1] < top or at[1] % 8:
                s.bad(m, p, 'first', 'the first chunk lies in the allocator itself')
            bigger(s, m, p, 'room', have, add(add(at, body), V('size')), 'the first chunk is taken for larger than it is')
            bigger(s, m, p, 'used', V('used'), ZERO, 'the first chunk does not start at its start')
            if p.differ(p.at(add(tail, s.off('BPAllocChunk', 'prev')), 8, 'p'), ZERO):
                s.bad(m, p, 'prev', 'there is a chunk before the first one')
            bigger(s, m, p, 'minsize', V('minsize'), ZERO, 'chunks have a negative size')
            fm, ff, up = V('fn_malloc', 8, 'p'), V('fn_free', 8, 'p'), V('userp', 8, 'p')
            own = 'fm' in m.a and p.true(('ne', m['fm']))
            if own:
                for k, x, y in (('fm', fm, m['fm']), ('ff', ff, m['ff']), ('userp', up, m['userp'])):
                    if p.differ(x, y):
                        s.bad(m, p, k, 'what was given to make and release memory is not used')
            elif own is False or 'fm' not in m.a:
                if up != ZERO or fm[0] != 'g' or ff[0] != 'g':
                    s.bad(m, p, 'default', 'without functions to make and release memory there are none')
                else:
                    for g, lib in ((fm, 'malloc'), (ff, 'free')):
                        default(w, ob, s, g, lib)
            flags.setdefault('mem' in m.a, set()).add(V('flags'))
        s.needs(m, ('made',), got)

    f = s.fn('BPAlloc_Free')
    for static in (False, True):
        for fl in sorted(flags.get(static, ()), key=str):
            if not isc(fl):
                res.note('%s: the flags are not understood' % f.name)
                continue
            for n in (1, 2, 3):
                def pre(m, st):
                    put(st, rt(m, 'alloc', 'xBPAlloc', 'flags'), fl)
                    m.chunks = [('s', 0, 'chunk %d' % k, (), '', 'p') for k in range(n)]
                    cell = rt(m, 'alloc', 'xBPAlloc', 'tail')
                    for c in m.chunks:
                        m.e.rng[c] = (4096, 2 ** 47)
                        put(st, cell, c)
                        cell = ('m', add(c, s.off('BPAllocChunk', 'prev')), 0, 8, 'p')
                    put(st, cell, ZERO)
                    m.e.assume(st, ('ne', rt(m, 'alloc', 'xBPAlloc', 'fn_free')), True)
                m = s.follow(f, ['alloc'], pre=pre, hooks=FreeHooks, loads=8, turns=5)
                for p in m.paths:
                    res.count('outcomes')
                    want = m.chunks[:-1] + ([] if static else [m['alloc']])
                    gone = []
                    for x in p.ev:
                        if x[0] == 'slot':
                            if p.differ(x[2][0], rt(m, 'alloc', 'xBPAlloc', 'userp')) or p.differ(x[1], rt(m, 'alloc', 'xBPAlloc', 'fn_free')):
                                s.bad(m, p, 'callback', 'memory is not released by the function that was given, with its pointer')
                            if p.res(x[2][1]) in gone:
                                s.bad(m, p, 'twice', 'memory is released twice')
                            gone.append(p.res(x[2][1]))
                        elif x[0] == 'load' and any(root(x[1]) == root(g) for g in gone):
                            s.bad(m, p, 'after', 'memory is used after it was released')
                    for g in gone:
                        if g not in want:
                            s.bad(m, p, 'not its own', 'memory is released that was not made by the allocator')
                    for g in want:
                        if g not in gone:
                            s.bad(m, p, 'kept', 'memory is not released')


def default(w, ob, s, g, lib):
    f = w.p.functions.get(g[1])
    if f is None:
        return
    m = s.follow(f, ['userp:q', 'size:i'] if lib == 'malloc' else ['userp:q', 'addr'], hooks=AllocHooks, pre=lambda m, st: m.e.assume(st, ('eq', m['userp']), True))
    for p in m.paths:
        if lib == 'malloc':
            a = p.kind('alloc')
            if len(a) != 1 or p.differ(a[0][3], p.ret) or p.may(('le', sub(ZERO, m['size']))) and p.case(('le', sub(ZERO, m['size']))).differ(a[0][2], m['size']):
                s.bad(m, p, 'size', 'memory of another size is made')
        else:
            a = [x for x in p.kind('ext') if x[1] == 'free']
            if len(a) != 1 or p.differ(a[0][2][0], m['addr']):
                s.bad(m, p, 'free', 'memory is not released')


class FreeHooks(AllocHooks):
    def loaded(self, e, fr, st, ins, addr, val):
        a = e.res(st, addr)
        if root(a) is not None and root(a)[0] == 's':
            self.note(st, 'load', a, val)


def blocks_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    blocks(w, ob, res)
    res.need('operations', 12)
    res.need('outcomes', 40)
    return res


# ------------------------------------------------------------------ bucket lists
class ListHooks(AllocHooks):
    maybe = frozenset(('BPAlloc_Malloc', 'Promise_New'))

    def on_call(self, e, fr, st, ins, f, args):
        # where these write is checked: they are taken to change nothing else
        n = f if isinstance(f, str) else f.name if f is not None else None
        k = 'copy' if (n or '').startswith(('memcpy', 'memmove', 'llvm.memcpy', 'llvm.memmove')) else 'fill' if (n or '').startswith(('memset', 'llvm.memset')) else None
        if k and len(args) > 2:
            R = tuple(e.res(st, a) for a in args)
            self.note(st, k, R[0], R[1], R[2])
            return [(st, R[0] if ins.res else None)]
        return super().on_call(e, fr, st, ins, f, args)


ALLOC = ('BPAlloc_Malloc',)


def chained(m, st, n, s):
    """a list of n buckets"""
    e = m.e
    m.buckets = [('s', 0, 'bucket %d' % k, (), '', 'p') for k in range(n)]
    L = lambda x: rt(m, 'list', 'xBucketList', x)
    B = lambda b, x: rt(m, b, 'Bucket', x)
    region(e, m['list'], 1)
    put(st, L('head'), m.buckets[0])
    put(st, L('tail'), m.buckets[-1])
    e.rng[L('size')] = (0, 2 ** 30)
    for k, b in enumerate(m.buckets):
        region(e, b, k + 2)
        put(st, B(b, 'next'), m.buckets[k + 1] if k + 1 < n else ZERO)
        e.rng[B(b, 'size')] = e.rng[B(b, 'used')] = (0, 2 ** 24)
        e.assume(st, ('le', sub(B(b, 'used'), B(b, 'size'))), True)
    for x in ('size', 'n'):
        if x in m.a:
            e.rng[m[x]] = (0, 2 ** 24) if x == 'size' else (-1, 2 ** 24)
    if 'data' in m.a:
        e.rng[m['data']] = (2 ** 60, 2 ** 61) if not getattr(m, 'nodata', False) else (0, 0)


def moves(p):
    """what was copied or cleared: (where, from where or None, how much)"""
    out = []
    for x in p.ev:
        if x[0] == 'copy' and root(x[1]) is not None and root(x[1])[0] != 'loc':
            out.append((x[1], x[2], p.res(x[3])))
        elif x[0] == 'fill':
            out.append((x[1], None if x[2] == ZERO else False, p.res(x[3])))
        elif x[0] == 'store' and x[3] == 1:
            out.append((x[1], x[2], ONE))
    return [x for x in out if x[2] != ZERO]


def buckets(w, ob, res):
    s = U(w, ob, res, 'lists')
    body = s.off('Bucket', 'body')
    bsize = s.size('Bucket')
    m = s.follow(s.fn('BucketList_New'), ['alloc'], hooks=ListHooks, record=ALLOC)
    got = set()
    for p in m.paths:
        res.count('outcomes')
        if p.ret == ZERO:
            if not p.failed:
                s.bad(m, p, 'refused', 'a list is refused though there is memory')
            continue
        got.add('made')
        L = lambda x, z=8, k='p': p.at(rt(m, p.ret, 'xBucketList', x)[1], z, k)
        b = L('head')
        if p.differ(L('tail'), b) or p.differ(L('alloc'), m['alloc']) or p.differ(L('size', 4, 'i'), ZERO):
            s.bad(m, p, 'new', 'a new list is not empty')
        B = lambda x, z=4, k='i': p.at(rt(m, b, 'Bucket', x)[1], z, k)
        if p.differ(B('next', 8, 'p'), ZERO) or p.differ(B('used'), ZERO):
            s.bad(m, p, 'bucket', 'the first bucket of a new list is not empty')
        c = [x for x in p.calls('BPAlloc_Malloc') if root(b) == x[3]]
        if len(c) == 1:
            bigger(s, m, p, 'room', c[0][2][1], add(add(sub(b, c[0][3]), body), B('size')), 'the first bucket is taken for larger than it is')
            if any(p.differ(x[2][0], m['alloc']) for x in p.calls('BPAlloc_Malloc')):
                s.bad(m, p, 'alloc', 'a list takes memory from elsewhere')
        if b == p.ret or isc(sub(b, p.ret)) and sub(b, p.ret)[1] < s.size('xBucketList'):
            s.bad(m, p, 'overlap', 'the first bucket lies in the list itself')
    s.needs(m, ('made',), got)

    for fname in ('BucketList_Append', 'BucketList_Append2'):
        one = fname.endswith('2')
        for n in (1, 2):
            for nodata in (False, True):
                def pre(m, st):
                    m.nodata = nodata
                    chained(m, st, n, s)
                m = s.follow(s.fn(fname), ['list', 'data:q', 'size:i'], pre=pre, hooks=ListHooks, record=ALLOC, turns=4)
                appended(s, m, one, nodata, body, res)

    for n in (1, 2, 3):
        m = s.follow(s.fn('BucketList_Copy'), ['list', 'dest', 'n:i'], pre=lambda m, st: chained(m, st, n, s), hooks=ListHooks, turns=5)
        got = set()
        for p in m.paths:
            res.count('outcomes')
            used = [rt(m, b, 'Bucket', 'used') for b in m.buckets]
            want = m['n']
            if p.true(('le', add(want, ONE))):
                want = rt(m, 'list', 'xBucketList', 'size')
                got.add('all')
            elif p.true(('le', scale(want, -1))) is None:
                continue
            else:
                got.add('some')
            ok = p
            mv = moves(p)
            done = ZERO
            k = 0
            for dst, src, z in mv:
                if src is None or src is False or root(dst) != root(m['dest']):
                    s.bad(m, p, 'copy', 'a list is copied elsewhere')
                    break
                while k < n and root(src) != m.buckets[k]:
                    # nothing of this bucket
                    if p.may(('le', sub(add(done, ONE), want)), ('le', sub(ONE, used[k]))):
                        s.bad(m, p, 'skip', 'a part of a list is not copied')
                    k += 1
                if k == n:
                    s.bad(m, p, 'order', 'the parts of a list are not copied in their order')
                    break
                if p.differ(dst, add(m['dest'], done)):
                    s.bad(m, p, 'place', 'a part of a list is not copied after the one before it')
                if p.differ(src, add(m.buckets[k], body)):
                    s.bad(m, p, 'from', 'a part of a list is not copied from its start')
                if p.may(('le', sub(add(used[k], ONE), z))):
                    s.bad(m, p, 'beyond', 'more is copied than was appended')
                if p.may(('le', sub(add(want, ONE), add(done, z)))):
                    s.bad(m, p, 'more', 'more is copied than there is place for')
                if p.may(('le', sub(add(z, ONE), used[k])), ('le', sub(add(add(done, z), ONE), want))):
                    s.bad(m, p, 'less', 'a part of a list is not copied whole')
                done = p.res(add(done, z))
                k += 1
            else:
                while k < n:
                    if p.may(('le', sub(add(done, ONE), want)), ('le', sub(ONE, used[k]))):
                        s.bad(m, p, 'skip', 'a part of a list is not copied')
                    k += 1
        s.needs(m, ('all', 'some'), got)
    for fn, x, z, k in (('BucketList_Size', 'size', 4, 'i'), ('BucketList_GetAlloc', 'alloc', 8, 'p')):
        m = s.follow(s.fn(fn), ['list'], hooks=ListHooks)
        for p in m.paths:
            res.count('outcomes')
            if p.differ(p.ret, rt(m, 'list', 'xBucketList', x)):
                s.bad(m, p, x, 'the %s of a list is another' % x)


def appended(s, m, one, nodata, body, res):
    got = set()
    L = lambda x: rt(m, 'list', 'xBucketList', x)
    tail = m.buckets[-1]
    B = lambda b, x: rt(m, b, 'Bucket', x)
    for p in m.paths:
        res.count('outcomes')
        al = p.calls('BPAlloc_Malloc')
        if p.ret == ZERO or p.true(('eq', p.ret)):
            got.add('refused')
            if not p.failed:
                s.bad(m, p, 'refused', 'what is appended is refused though there is memory')
            if one:
                unchanged(s, m, p, 'a refused append', ((L('size'), 'the size'), (B(tail, 'used'), 'what is used')))
            continue
        got.add('done')
        if p.failed:
            s.bad(m, p, 'failed', 'an append that found no memory succeeds')
            continue
        if p.differ(p.at(L('size')[1], 4), add(L('size'), m['size'])):
            s.bad(m, p, 'size', 'the size of a list is not what was appended')
        new = [x[3] for x in al]
        if any(p.differ(x[2][0], L('alloc')) for x in al):
            s.bad(m, p, 'alloc', 'a list takes memory from elsewhere')
        # the chain at the end
        seq, b = [tail], tail
        for _ in range(len(new) + 1):
            b = p.at(B(b, 'next')[1], 8, 'p')
            if b == ZERO or root(b) is None:
                break
            seq.append(b)
        if b != ZERO or seq[1:] != new and sorted(map(str, seq[1:])) != sorted(map(str, new)):
            s.bad(m, p, 'chain', 'a new bucket does not follow the others')
            continue
        if p.differ(p.at(L('tail')[1], 8, 'p'), seq[-1]):
            s.bad(m, p, 'tail', 'the last bucket is not where more is appended')
        if p.differ(p.at(L('head')[1], 8, 'p'), m.buckets[0]):
            s.bad(m, p, 'head', 'the first bucket is lost')
        for b in m.buckets[:-1]:
            unchanged(s, m, p, 'an append', ((B(b, 'used'), 'an earlier bucket'),))
        for x in al:
            if p.at(B(x[3], 'size')[1], 4)[0] != 'm':
                bigger(s, m, p, 'room', x[2][1], add(body, p.at(B(x[3], 'size')[1], 4)), 'a bucket is taken for larger than it is')
        mv = moves(p)
        done, k, fill = ZERO, 0, {b: B(b, 'used') if b == tail else ZERO for b in seq}
        for dst, src, z in mv:
            while k < len(seq) and root(dst) != root(seq[k]):
                k += 1
            if k == len(seq):
                s.bad(m, p, 'order', 'what is appended is not put in the order of the buckets')
                break
            b = seq[k]
            if p.differ(dst, add(add(b, body), fill[b])):
                s.bad(m, p, 'place', 'what is appended does not follow what was there')
            if nodata:
                if src is not None:
                    s.bad(m, p, 'zero', 'without data, what is appended is not zero')
            elif src is None or src is False or p.differ(src, add(m['data'], done)):
                s.bad(m, p, 'data', 'what is appended is not what was given')
            fill[b] = p.res(add(fill[b], z))
            bigger(s, m, p, 'inside', B(b, 'size') if b == tail else p.at(B(b, 'size')[1], 4), fill[b], 'more is put in a bucket than fits')
            done = p.res(add(done, z))
        else:
            if p.differ(done, m['size']):
                s.bad(m, p, 'whole', 'not all that was given is appended')
            for b in seq:
                if p.differ(p.at(B(b, 'used')[1], 4), fill[b]):
                    s.bad(m, p, 'used', 'what is used of a bucket is not what was put in it')
            if one:
                if len(mv) > 1:
                    s.bad(m, p, 'split', 'what must stay together is split')
                if mv and p.differ(p.ret, mv[0][0]):
                    s.bad(m, p, 'where', 'what is appended is not where it is said to be')
    s.needs(m, ('done', 'refused'), got)


def buckets_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    buckets(w, ob, res)
    res.need('operations', 8)
    res.need('outcomes', 40)
    return res


# ------------------------------------------------------------------ promises and labels
class PromiseHooks(ListHooks):
    def by_pointer(self, e, fr, st, ins, fp, ts, args):
        self.note(st, 'slot', fp, tuple(e.res(st, a) for a in args), None, None)
        return [(st, None)]


def subscribers(m, st, n, s, at):
    e = m.e
    m.gaps = [('s', 0, 'gap %d' % k, (), '', 'p') for k in range(n)]
    cell = at
    for k, g in enumerate(m.gaps):
        region(e, g, k + 2)
        put(st, cell, g)
        cell = rt(m, g, 'Gap', 'next')
        a = ('s', 0, 'dest %d' % k, (), '', 'p')
        region(e, a, k + 16)
        put(st, rt(m, g, 'Gap', 'dest'), a)
    put(st, cell, ZERO)


def promise(m, st, isset):
    region(m.e, m['self'], 1)
    c = rt(m, 'self', 'xPromise', 'set')
    put(st, c, C(1 if isset else 0))
    m.e.rng[rt(m, 'self', 'xPromise', 'size')] = (0, 2 ** 20)
    for k, x in enumerate(('dest', 'data')):
        if x in m.a:
            region(m.e, m[x], 30 + k)


def promises(w, ob, res):
    s = U(w, ob, res, 'promises')
    body = s.off('xPromise', 'body')
    m = s.follow(s.fn('Promise_New'), ['alloc', 'size:i'], pre=lambda m, st: m.e.rng.update({m['size']: (0, 2 ** 20)}), hooks=PromiseHooks, record=ALLOC)
    got = set()
    for p in m.paths:
        res.count('outcomes')
        if p.ret == ZERO:
            if not p.failed:
                s.bad(m, p, 'refused', 'a promise is refused though there is memory')
            continue
        got.add('made')
        P = lambda x, z=8, k='p': p.at(rt(m, p.ret, 'xPromise', x)[1], z, k)
        c = [x for x in p.calls('BPAlloc_Malloc') if x[3] == p.ret]
        if len(c) == 1:
            bigger(s, m, p, 'room', c[0][2][1], add(body, m['size']), 'there is no room for the value of a promise')
        if p.differ(P('set', 1, 'i'), ZERO) or p.differ(P('gaps'), ZERO) or p.differ(P('size', 4, 'i'), m['size']) or p.differ(P('alloc'), m['alloc']):
            s.bad(m, p, 'new', 'a new promise is not one without value and subscribers')
    s.needs(m, ('made',), got)

    for fname, args in (('Promise_Subscribe', ['self', 'dest']), ('Promise_Subscribe2', ['self', 'dest', 'userp:q', 'callback:q'])):
        for isset in (False, True):
            m = s.follow(s.fn(fname), args, pre=lambda m, st: promise(m, st, isset), hooks=PromiseHooks, record=ALLOC)
            P = lambda x: rt(m, 'self', 'xPromise', x)
            cb = m.a.get('callback', ZERO)
            got = set()
            for p in m.paths:
                res.count('outcomes')
                ok = p.true(('ne', p.ret)) if p.ret != ONE else True
                al, sl, mv = p.calls('BPAlloc_Malloc'), p.kind('slot'), moves(p)
                unchanged(s, m, p, 'subscribing', ((P('size'), 'the promise'), (P('alloc'), 'the promise')))
                if not ok:
                    got.add('refused')
                    if not p.failed:
                        s.bad(m, p, 'refused', 'a subscriber is refused though there is memory')
                    unchanged(s, m, p, 'a subscriber that is refused', ((P('gaps'), 'the promise'),))
                    continue
                if isset:
                    got.add('now')
                    if len(mv) != 1 or p.differ(mv[0][0], m['dest']) or mv[0][1] in (None, False) or p.differ(mv[0][1], add(m['self'], body)) or p.differ(mv[0][2], P('size')):
                        s.bad(m, p, 'now', 'a value that is known is not given to who subscribes')
                    called(s, m, p, sl, [(m['dest'], cb, m.a.get('userp', ZERO))])
                    continue
                got.add('later')
                if p.failed:
                    s.bad(m, p, 'failed', 'a subscriber that found no memory is not refused')
                    continue
                if mv or sl:
                    s.bad(m, p, 'early', 'a subscriber is given a value that is not known')
                head = p.at(P('gaps')[1], 8, 'p')
                g = [x[3] for x in al if x[3] == head]
                if len(g) != 1:
                    s.bad(m, p, 'lost', 'a subscriber is not remembered')
                    continue
                if p.differ(al[0][2][0], P('alloc')):
                    s.bad(m, p, 'alloc', 'a subscriber takes memory from elsewhere')
                bigger(s, m, p, 'room', al[0][2][1], C(s.size('Gap')), 'there is no room for a subscriber')
                G = lambda x: p.at(rt(m, head, 'Gap', x)[1], 8, 'p')
                for x, v, t in (('next', P('gaps'), 'the subscribers before a new one are lost'), ('dest', m['dest'], 'a subscriber is given its value elsewhere'),
                                ('callback', cb, 'a subscriber is not called'), ('userp', m.a.get('userp', ZERO), 'a subscriber is called with something else')):
                    if x == 'userp' and cb == ZERO:
                        continue
                    if p.differ(G(x), v):
                        s.bad(m, p, x, t)
            s.needs(m, ('now',) if isset else ('later', 'refused'), got)

    for n in range(0, 4):
        def pre(m, st):
            promise(m, st, False)
            subscribers(m, st, n, s, rt(m, 'self', 'xPromise', 'gaps'))
            st.mem[rt(m, 'self', 'xPromise', 'size')[1]] = (m['size'], 4, ('at', 0))
            m.e.rng[m['size']] = (1, 2 ** 20)
        m = s.follow(s.fn('Promise_Resolve'), ['self', 'data', 'size:i'], pre=pre, hooks=PromiseHooks, turns=5)
        for p in m.paths:
            res.count('outcomes')
            mv = moves(p)
            own = [x for x in mv if root(x[0]) == m['self'] and p.same(x[0], add(m['self'], s.off('xPromise', 'set'))) is not True]
            if len(own) != 1 or p.differ(own[0][0], add(m['self'], body)) or p.differ(own[0][1], m['data']) or p.differ(own[0][2], m['size']):
                s.bad(m, p, 'value', 'the value of a promise is not the one it is given')
            if p.differ(p.at(rt(m, 'self', 'xPromise', 'set')[1], 1), ONE):
                s.bad(m, p, 'set', 'a promise that has its value seems not to')
            want = []
            for g in m.gaps:
                G = lambda x: rt(m, g, 'Gap', x)
                d = p.st.mem[G('dest')[1]][0]
                want.append((d, G('callback'), G('userp')))
                x = [y for y in mv if root(y[0]) == root(d)]
                if len(x) != 1 or p.differ(x[0][0], d) or x[0][1] in (None, False) or p.differ(x[0][1], m['data']) and p.differ(x[0][1], add(m['self'], body)) or p.differ(x[0][2], m['size']):
                    s.bad(m, p, 'given', 'a subscriber is not given the value once')
            called(s, m, p, p.kind('slot'), want)
        res.count('subscribers', n)
    m = s.follow(s.fn('Promise_hasResolved'), ['self'], hooks=PromiseHooks)
    for isset in (False, True):
        m = s.follow(s.fn('Promise_hasResolved'), ['self'], hooks=PromiseHooks, pre=lambda m, st: promise(m, st, isset))
        for p in m.paths:
            res.count('outcomes')
            if p.true(('ne', p.ret)) is not isset:
                s.bad(m, p, 'has', 'a promise does not say whether it has its value')
    m = s.follow(s.fn('Promise_Size'), ['self'], hooks=PromiseHooks)
    for p in m.paths:
        if p.differ(p.ret, rt(m, 'self', 'xPromise', 'size')):
            s.bad(m, p, 'size', 'the size of the value of a promise is another')


def called(s, m, p, sl, want):
    """each subscriber with a callback was called once, with its pointer, after it was given the value"""
    sl = list(sl)
    for d, cb, up in want:
        t = False if cb == ZERO else p.true(('ne', cb))
        x = [y for y in sl if cb != ZERO and p.same(y[1], cb)]
        if t is None:
            if not x and p.may(('ne', cb)):
                s.bad(m, p, 'called', 'a subscriber is not called once')
            elif x and p.may(('eq', cb)):
                s.bad(m, p, 'null', 'a callback that is not there is called')
            sl = [y for y in sl if y not in x]
            continue
        if not t:
            continue
        if len(x) != 1:
            s.bad(m, p, 'called', 'a subscriber is not called once')
            continue
        if not x[0][2] or p.differ(x[0][2][0], up):
            s.bad(m, p, 'pointer', 'a subscriber is called with something else')
        i = [k for k, e in enumerate(p.ev) if e[0] == 'copy' and root(e[1]) == root(d)]
        if i and i[-1] > p.ev.index(x[0]):
            s.bad(m, p, 'before', 'a subscriber is called before it has the value')
        sl.remove(x[0])
    if sl:
        s.bad(m, p, 'others', 'something else is called')


class LabelHooks(PromiseHooks):
    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        if n == 'Promise_hasResolved':
            R = e.res(st, args[0])
            k = [x for x in self.known if x == R]
            v = C(self.known[R]) if k else None
            if v is not None:
                return [(st, ('ne', v) if False else v)]
        return super().on_call(e, fr, st, ins, f, args)

    known = {}


def labels(w, ob, res):
    s = U(w, ob, res, 'labels')
    rec = ALLOC + ('Promise_New', 'Promise_Resolve')

    def infos(m, st, n):
        e = m.e
        region(e, m['list'], 1)
        cell = rt(m, 'list', 'LabelList', 'head')
        m.infos = [('s', 0, 'label %d' % k, (), '', 'p') for k in range(n)]
        m.e.h.known = {}
        for k, x in enumerate(m.infos):
            region(e, x, k + 2)
            put(st, cell, x)
            cell = rt(m, x, 'LabelInfo', 'next')
            q = ('s', 0, 'promise %d' % k, (), '', 'p')
            region(e, q, k + 20)
            put(st, rt(m, x, 'LabelInfo', 'promise'), q)
            e.rng[rt(m, x, 'LabelInfo', 'name_len')] = (0, 2 ** 20)
        put(st, cell, ZERO)
        if 'len' in m.a:
            e.rng[m['len']] = (0, 2 ** 20)

    m = s.follow(s.fn('LabelList_New'), ['alloc'], hooks=LabelHooks, record=ALLOC)
    for p in m.paths:
        res.count('outcomes')
        if p.ret == ZERO:
            if not p.failed:
                s.bad(m, p, 'refused', 'a list of labels is refused though there is memory')
        elif p.differ(p.at(rt(m, p.ret, 'LabelList', 'head')[1], 8, 'p'), ZERO) or p.differ(p.at(rt(m, p.ret, 'LabelList', 'alloc')[1], 8, 'p'), m['alloc']):
            s.bad(m, p, 'new', 'a new list of labels is not empty')

    def match(m, p, x):
        """is this the label asked for"""
        ln = ('eq', sub(m['len'], rt(m, x, 'LabelInfo', 'name_len')))
        nm = rt(m, x, 'LabelInfo', 'name')
        same = p.true(ln)
        if same is False:
            return False
        for c in p.kind('cmp'):
            if {True} == {any(p.same(a, b) for b in c[2][:2]) for a in (m['name'], nm)}:
                z = p.true(('eq', c[3]))
                if len(c[2]) > 2 and p.differ(c[2][2], m['len']) and p.differ(c[2][2], nm):
                    return None
                if z is False:
                    return False
                if z is True and same:
                    return True
                return None
        z = True if same and p.may(('le', sub(ONE, m['len']))) is False else None
        return z

    for n in (0, 1, 2):
        m = s.follow(s.fn('LabelList_GetLabel'), ['list', 'name', 'len:u'], pre=lambda m, st: infos(m, st, n), hooks=LabelHooks, record=rec, turns=4)
        got = set()
        for p in m.paths:
            res.count('outcomes')
            q = [p.st.mem[rt(m, x, 'LabelInfo', 'promise')[1]][0] for x in m.infos]
            head = rt(m, 'list', 'LabelList', 'head')
            if p.ret in q:
                got.add('there')
                k = q.index(p.ret)
                if match(m, p, m.infos[k]) is not True:
                    s.bad(m, p, 'other', 'the label found is not certain to have the name asked for')
                if p.calls('Promise_New') or p.cell(head[1]) not in (None, m.infos[0]):
                    s.bad(m, p, 'again', 'a label that is there is made again')
                continue
            hit = [x for x in m.infos if match(m, p, x)]
            unseen = [x for x in m.infos if match(m, p, x) is None]
            if hit or unseen:
                s.bad(m, p, 'missed', 'a label that is there is not found')
                continue
            if p.ret == ZERO:
                got.add('refused')
                if not p.failed:
                    s.bad(m, p, 'refused', 'a label is refused though there is memory')
                continue
            got.add('made')
            pn = p.calls('Promise_New')
            if len(pn) != 1 or p.ret != pn[0][3] or pn[0][2][1] != C(8) or p.differ(pn[0][2][0], rt(m, 'list', 'LabelList', 'alloc')):
                s.bad(m, p, 'promise', 'a new label is not a promise of a number')
                continue
            seq, x = [], p.at(head[1], 8, 'p')
            for _ in range(n + 2):
                if x == ZERO or root(x) is None:
                    break
                seq.append(x)
                x = p.at(rt(m, x, 'LabelInfo', 'next')[1], 8, 'p')
            new = [x for x in seq if x not in m.infos]
            if x != ZERO or len(seq) != n + 1 or len(new) != 1 or len(set(seq)) != n + 1:
                s.bad(m, p, 'list', 'the list does not hold the labels there were and the new one')
                continue
            I = lambda f, z=8, k='p': p.at(rt(m, new[0], 'LabelInfo', f)[1], z, k)
            al = [x for x in p.calls('BPAlloc_Malloc') if x[3] == new[0]]
            if len(al) == 1:
                bigger(s, m, p, 'room', al[0][2][1], C(s.size('LabelInfo')), 'there is no room for a label')
            if p.differ(I('name'), m['name']) or p.differ(I('name_len', 8, 'i'), m['len']) or p.differ(I('promise'), p.ret):
                s.bad(m, p, 'entry', 'a new label is not entered under its name')
        s.needs(m, ('there', 'made', 'refused') if n else ('made', 'refused'), got)

    m = s.follow(s.fn('LabelList_SetLabel'), ['list', 'name', 'len:u', 'value:l'], hooks=SetHooks, record=('LabelList_GetLabel', 'Promise_Resolve'))
    got = set()
    for p in m.paths:
        res.count('outcomes')
        g, r = p.calls('LabelList_GetLabel'), p.calls('Promise_Resolve')
        if len(g) != 1 or any(p.differ(g[0][2][k], m[x]) for k, x in enumerate(('list', 'name', 'len'))):
            s.bad(m, p, 'which', 'another label is given a value')
            continue
        if g[0][3] == ZERO:
            got.add('refused')
            if r or p.true(('ne', p.ret)) is not False:
                s.bad(m, p, 'refused', 'a label there is no memory for is given a value')
            continue
        got.add('set')
        if p.true(('eq', p.ret)) is not False:
            s.bad(m, p, 'result', 'a label that was given a value is refused')
        held = [x for x in p.ev if x[0] == 'held']
        if len(r) != 1 or p.differ(r[0][2][0], g[0][3]) or r[0][2][2] != C(8) or not held or p.differ(held[-1][2], m['value']):
            s.bad(m, p, 'value', 'a label is not given its value')
    s.needs(m, ('refused', 'set'), got)

    for n in (0, 1, 2, 3):
        for vs in itertools.product((0, 1), repeat=n):
            def pre(m, st):
                infos(m, st, n)
                m.e.h.known = {('s', 0, 'promise %d' % k, (), '', 'p'): v for k, v in enumerate(vs)}
            m = s.follow(s.fn('LabelList_GetUnresolvedCount'), ['list'], pre=pre, hooks=LabelHooks, turns=5)
            for p in m.paths:
                res.count('outcomes')
                v = p.res(p.ret)
                if isc(v) and v[1] != n - sum(vs):
                    s.bad(m, p, 'count', 'of %d labels without a value %s are counted' % (n - sum(vs), v[1]))
                elif not isc(v):
                    res.note('%s: the count is not understood' % m.f.name)


class SetHooks(PromiseHooks):
    maybe = frozenset(('LabelList_GetLabel',))

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        if n == 'Promise_Resolve':
            a = e.res(st, args[1])
            if a in st.mem:
                self.note(st, 'held', a, st.mem[a][0])
        return super().on_call(e, fr, st, ins, f, args)


def promises_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    promises(w, ob, res)
    labels(w, ob, res)
    res.need('operations', 12)
    res.need('outcomes', 40)
    return res

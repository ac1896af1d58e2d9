"""D01-D06: what the operations of each kind of object do."""
from gc_ import Objs, WOpts, sym, strip, name, call_in
from errors import *
from unroll import Unroll, UnrollOpts
from vmspec import facts
from core import Broken, Result, pmap

DISPATCH = {'Object_Hash', 'Object_Copy', 'Object_Compare', 'Object_Select', 'Object_Insert', 'Object_IsTypeOf', 'Object_Print', 'Object_Count',
            'Object_KeysOf', 'Object_GetName', 'Object_Call', 'Object_Delete'}
TRI = {'Object_Compare', 'Object_IsTypeOf'}


class ObjHooks(NojaHooks):
    """calls of operations on other objects, allocations and output are recorded"""
    def __init__(self, w, inline=(), record=()):
        super().__init__(w)
        self.boundary = frozenset()
        self.inline_ = frozenset(inline)
        self.rec = frozenset(record)
        self.n = 0

    def prop_atoms(self, p):
        out = set()
        for x in p or ():
            for y in x[1:]:
                if isinstance(y, tuple) and y and isinstance(y[0], str):
                    out |= atoms(y)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, tuple):
                            out |= atoms(z)
        return out

    def note(self, st, *a):
        st.prop = (st.prop or ()) + (a,)

    def tok(self, e, st, what, kind='p', lo=None, hi=None):
        """a value of its own for this call on this path"""
        k = len([x for x in st.prop or () if x[0] == 'call'])
        a = ('s', 0, '%s #%d' % (what, k), (), '', kind)
        e.rng[a] = (4096, 2 ** 63) if kind == 'p' else (lo, hi)
        return a

    def on_store(self, e, fr, st, ins, addr, val, size):
        r = root(addr)
        if r is None or r[0] == 'loc':
            return
        self.note(st, 'store', e.res(st, addr), e.res(st, val), size)

    loads = None

    def loaded(self, e, fr, st, ins, addr, val):
        if self.loads and e.p.size(ins.ty) == self.loads:
            a = e.res(st, addr)
            r = root(a)
            if r is not None and (r[0] in ('m', 'alloc') or r[0] == 's' and self.loads == 1):
                self.note(st, 'load', a, val)

    def fail(self, e, fr, st, ins, err):
        self.set_error(e, fr, st, ins, err)
        self.note(st, 'failed')

    def reported(self, e, fr, st, ins, args):
        self.note(st, 'report', e.res(st, args[0]))

    def forgot(self, e, fr, st, ins, args):
        self.note(st, 'cleared', e.res(st, args[0]))

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        w = self.w
        if n in DISPATCH and not (fr.depth == 0 and fr.fn.name == n):
            return self.other(e, fr, st, ins, f, n, R)
        if n in self.rec:
            return self.other(e, fr, st, ins, f, n, R) if not isinstance(f, str) else self.ext(e, fr, st, ins, n, R)
        if n in ('Heap_RawMalloc', 'Heap_Malloc'):
            r = self.contract(e, fr, st, ins, f, args)
            for s, v in r:
                self.note(s, 'alloc', n, R[1], v)
                if v == ZERO:
                    self.note(s, 'failed')
            return r
        if n in ('_Error_Report', '_Error_Report2'):
            return None
        if not isinstance(f, str) and f is not None and not f.internal and n.startswith(('Object_New', 'Object_From', 'Object_Slice')) \
                and n not in self.inline_ and w.fallible(f):
            return self.other(e, fr, st, ins, f, n, R)
        if n in ('memcpy', 'memmove') or (n or '').startswith(('llvm.memcpy', 'llvm.memmove')):
            self.note(st, 'copy', R[0], R[1], R[2])
            rs = root(R[1])
            if isc(R[2]) and R[2][1] % 8 == 0 and 0 < R[2][1] <= 128 and rs is not None and rs[0] == 'm' and rs != root(R[0]):
                # an array of references
                for k in range(R[2][1] // 8):
                    v = e.load(fr, st, ins, add(R[1], C(8 * k)), PTR, None)
                    e.put(fr, st, ins, add(R[0], C(8 * k)), v, 8, ('elem', 'ptr'))
                return [(st, R[0] if ins.res else None)]
            return None
        if n == 'memset' or (n or '').startswith('llvm.memset'):
            self.note(st, 'fill', R[0], R[1], R[2])
            return None
        if n in ('fprintf', 'fputs', 'fputc', 'putc', 'fwrite'):
            self.note(st, 'print', n, R)
            return [(st, e.sym(fr, st, ins, ins.ty) if ins.res else None)]
        if n in ('memcmp', 'strncmp', 'strcmp', 'bcmp'):
            v = ('s', 0, '%s %d' % (n, okey(R[0]) * 100003 + okey(R[1]) * 17 + (okey(R[2]) if len(R) > 2 else 0)), (), '', 'i')
            e.rng[v] = (-2 ** 31, 2 ** 31 - 1)
            self.note(st, 'cmp', n, R, v)
            return [(st, v)]
        if n in ('free', 'fclose', 'closedir', 'malloc', 'calloc'):
            r = None
            if n in ('malloc', 'calloc'):
                r = alloc_result(e, fr, st, ins)
                z = R[0]
                if n == 'calloc':
                    z = scale(R[1], R[0][1]) if isc(R[0]) else scale(R[0], R[1][1]) if isc(R[1]) else ('op', 'mul', R[0], R[1])
                for s, v in r:
                    self.note(s, 'alloc', n, z, v)
                    if n == 'calloc' and v != ZERO:
                        s.zero = s.zero | {v}
                return r
            self.note(st, 'ext', n, R)
            return r
        return None

    def ext(self, e, fr, st, ins, n, R):
        v = e.sym(fr, st, ins, ins.ty) if ins.res else None
        self.note(st, 'call', n, R, v)
        return [(st, v)]

    maybe = frozenset()

    # what functions that are checked on their own promise
    post = {'utf8_sequence_to_utf32_codepoint': lambda e, st, R, v: e.assume(st, ('le', add(v, C(-4))), True) and e.assume(st, ('le', sub(C(-1), v)), True)
            and e.assume(st, ('le', sub(v, R[1])), True)}

    def other(self, e, fr, st, ins, f, n, R):
        w = self.w
        kind = w.retkind(f)
        k = w.err_param(f)
        if n in self.maybe and kind == 'ptr' and k is None:
            bad = st.clone()            # may give nothing
            self.note(bad, 'call', n, R, ZERO)
            self.note(bad, 'failed')
            v = self.tok(e, st, n)
            self.note(st, 'call', n, R, v)
            return [(st, v), (bad, ZERO)]
        if n == 'hashbytes' and R[0][0] == 'loc' and R[0] in st.mem:
            self.note(st, 'held', R[0], st.mem[R[0]][0])
        if n == 'Object_Hash':
            v = ('s', 0, 'hash of %d' % okey(R[0]), (), '', 'i')
            e.rng[v] = (-2 ** 31, 2 ** 31 - 1)
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if k is None:
            v = None
            if ins.res:
                v = self.tok(e, st, n, 'p' if kind == 'ptr' else 'i', -2 ** 31, 2 ** 31 - 1) if kind != 'bool' else None
                if kind == 'bool':
                    s2 = st.clone()
                    self.note(st, 'call', n, R, ONE)
                    self.note(s2, 'call', n, R, ZERO)
                    return [(st, ONE), (s2, ZERO)]
            self.note(st, 'call', n, R, v)
            if n in self.post:
                self.post[n](e, st, R, v)
            return [(st, v)]
        bad = st.clone()
        self.note(bad, 'call', n, R, ('c', -1) if kind == 'int' else ZERO)
        self.fail(e, fr, bad, ins, R[k])
        if kind == 'bool':
            out = [(st, ONE)]
            if n in TRI:
                no = st.clone()
                self.note(no, 'call', n, R, ZERO)
                out.append((no, ZERO))
            self.note(st, 'call', n, R, ONE)
            return out + [(bad, ZERO)]
        if kind == 'ptr':
            out = [(bad, ZERO)]
            if n == 'Object_Select':
                no = st.clone()         # no item, without an error
                self.note(no, 'call', n, R, ZERO)
                self.note(no, 'absent')
                out.append((no, ZERO))
            v = self.tok(e, st, n)
            self.note(st, 'call', n, R, v)
            return [(st, v)] + out
        v = self.tok(e, st, n, 'i', 0, 2 ** 31 - 1)
        self.note(st, 'call', n, R, v)
        return [(st, v), (bad, C(-1))]


class Path:
    def __init__(self, m, st, ret):
        self.m, self.st, self.ret, self.e = m, st, ret, m.e
        self.ev = st.prop or ()

    def calls(self, n=None):
        return [x for x in self.ev if x[0] == 'call' and (n is None or x[1] == n)]

    def kind(self, *k):
        return [x for x in self.ev if x[0] in k]

    @property
    def failed(self):
        """a callee failed"""
        return any(x[0] == 'failed' for x in self.ev)

    @property
    def reports(self):
        return any(x[0] == 'report' for x in self.ev)

    def res(self, t):
        t = self.e.res(self.st, t)
        if t[0] == 'lin' and any(x[0] in ('eq', 'ne', 'le') for x, k in t[2]):
            # truth values that are counted
            out = C(t[1])
            for x, k in t[2]:
                v = self.e.truth(self.st, x) if x[0] in ('eq', 'ne', 'le') else None
                out = add(out, C(k if v else 0) if v is not None else scale(x, k))
            t = out
        return t

    def true(self, b):
        return self.e.truth(self.st, b)

    def may(self, *bs):
        """can all of these hold here?  None if facts that are not understood speak of the same values"""
        s = self.st.clone()
        for b in bs:
            if not self.e.assume(s, b, True):
                return False
        at = set()
        for b in bs:
            at |= atoms(b) | atoms(self.res(b))
        for k in self.st.tr:
            if atoms(k) & at:
                return None
        for a in at:
            if a[0] == 'op':
                return None
        return True

    def same(self, a, b):
        a, b = self.res(a), self.res(b)
        if a == b or (isbool(a) or isbool(b)) and bool_eq(a, b):
            return True
        d = sub(a, b)
        return d == ZERO or self.true(('eq', d)) is True

    def differ(self, a, b):
        """certainly not always the same value"""
        if self.same(a, b):
            return False
        a, b = self.res(a), self.res(b)
        if a[0] == 'm' and b[0] == 'm' and a[3] == b[3]:
            return self.differ(a[1], b[1])
        d = self.res(sub(a, b))
        if lost(d):
            return None
        if d[0] == 'lin' or d[0] in ('m', 's'):
            top = [x for x, _ in parts(d)[1]]
            for x in top:
                if x[0] in ('s', 'm') and not any(x in atoms(y) for y in top if y != x) and self.free(x, set(top)):
                    return True
        m = self.may(('ne', d))
        if m is None and structural(a, b):
            return True
        return m

    def free(self, x, others):
        """can this value still be any of several, whatever the others are?"""
        lo, hi = self.e.b1(self.st, x)
        if lo >= hi:
            return False
        at = set()
        for y in others:
            at |= atoms(y)
        for k in list(self.st.iv) + list(self.st.ne):
            if len(k) > 1 and any(z == x or x in atoms(z) for z, _ in k) and any((atoms(z) | {z}) & (at - {x}) for z, _ in k if z != x):
                return False
        for k in self.st.tr:
            if x in atoms(k):
                return False
        return True

    def case(self, *bs):
        """the path under more conditions; None if they cannot hold"""
        s = self.st.clone()
        for b in bs:
            if not self.e.assume(s, b, True):
                return None
        return Path(self.m, s, self.e.res(s, self.ret) if self.ret is not None else None)

    def at(self, addr, size, kind='i'):
        """what a location holds at the end"""
        addr = self.res(addr)
        x = self.st.mem.get(addr)
        return self.res(x[0]) if x else self.res(('m', addr, 0, size, kind))

    def cell(self, addr):
        """what was stored at a location, by whatever name; False if that is not known"""
        addr = self.res(addr)
        x = self.st.mem.get(addr)
        if x is not None:
            return self.res(x[0])
        for x in reversed(self.kind('store', 'copy', 'fill')):
            s = self.same(x[1], addr)
            if s and x[0] == 'store':
                return self.res(x[2])
            if s or root(self.res(x[1])) == root(addr) and (x[0] != 'store' or self.differ(x[1], addr) is None):
                return False
        return None

    def trail(self):
        return trail(self.m.w.p, self.st)


def bool_eq(a, b):
    def n(t):
        while True:
            if t[0] == 'ne' and isbool(t[1]):
                t = t[1]
            else:
                return t
    return n(a) == n(b)


def lost(t):
    return any(a[0] == 'h' for a in atoms(t))


def structural(a, b):
    """both are values read or given, not computed"""
    ok = ('s', 'm', 'g', 'alloc', 'c', 'lin')
    return all(x[0] in ok for t in (a, b) for x in [t] + list(atoms(t)))


class Method:
    """one function followed on an object of a type"""
    def __init__(self, w, ob, f, g, args, ints=(), inline=(), record=(), turns=4, pre=None, loads=None, free=False, hooks=None):
        self.w, self.ob, self.f, self.g = w, ob, f, g
        self.h = (hooks or ObjHooks)(w, inline, record)
        o = UnrollOpts()
        o.turns = turns
        o.free = o.foldfp = free
        o.cap = o.retcap = 3000
        self.h.loads = loads
        self.e = getattr(self.h, "engine", Unroll)(w.p, w.eff, self.h, o)
        self.a = {}
        st = St()
        st.prop = ()
        av = []
        for n in args:
            kind = 'p'
            if isinstance(n, tuple):
                av.append(n)        # a value
                continue
            if ':' in n:
                n, kind = n.split(':')
            lo, hi = (None, None) if kind == 'p' else (0, 2 ** 32 - 1) if kind == 'w' else (-2 ** 31, 2 ** 31 - 1) if kind == 'i' else (0, 2 ** 63 - 1) if kind == 'u' else \
                (-2 ** 63, 2 ** 63 - 1) if kind == 'l' else (0, 1) if kind == 'b' else (None, None)
            s = sym(self.e, n, 'p' if kind in 'pq' else 'f' if kind == 'f' else 'i', lo, hi)
            if kind == 'q':
                self.e.rng[s] = (0, 2 ** 63 - 1)        # may be null
            self.a[n] = s
            av.append(('ne', s) if kind == 'b' else s)
        if 'self' in self.a and g is not None:
            st.mem[add(self.a['self'], C(w.type_off))] = (('g', g), 8, ('struct.Object', 0))
        if 'error' in self.a:
            self.h.set_error(self.e, None, st, None, self.a['error'], ZERO)
        self.given = {}         # arguments made by pre
        if pre:
            pre(self, st)
            av = [self.given.get(a, a) for a in av]
        self.undecided = None
        self.paths = []
        try:
            fr = Frame(f, self.e.act(0, f.gid, ()), self.e.cfg(f), 0, None, None)
            self.paths = [Path(self, s, v) for s, v in self.e.run(fr, av, st)]
        except Budget as x:
            self.undecided = str(x)
        self.where = '%s:%d' % (f.file, f.line)

    def __getitem__(self, n):
        return self.a[n]

    def field(self, n, base='self', struct=None):
        """the value a field had at the start"""
        struct = struct or sorted(self.ob.of[self.g])[0]
        for m, off, ct, size in self.ob.members(struct):
            if m == n:
                a = add(self.a[base] if isinstance(base, str) else base, C(off))
                x = ('m', a, 0, size, 'p' if ct.endswith(('*', '*[]')) else 'f' if ct in ('double', 'float') else 'i')
                if x not in self.e.rng:
                    self.e.rng[x] = self.e.tyrange(('int', 8 * size) if x[-1] == 'i' else ('ptr',) if x[-1] == 'p' else ('fp', 64), ct)
                return x
        raise Broken('%s has no member %s' % (struct, n))

    def addr(self, n, base='self'):
        return self.field(n, base)[1]


class Spec:
    """the methods of a type, and what is wrong with them"""
    def __init__(self, w, ob, res, tname):
        self.w, self.ob, self.res = w, ob, res
        g = [x for x in ob.types if name(x) == tname]
        if len(g) != 1:
            raise Broken('the object type %s is gone' % tname)
        self.g = g[0]
        self.n = tname[2:]

    def slot(self, s):
        return self.ob.slot(self.g, s)

    def fn(self, n):
        f = self.w.p.fn(n)
        if f is None:
            raise Broken(n + ' is gone')
        return f

    def follow(self, f, args, **k):
        if isinstance(f, str):
            f = self.slot(f) if self.slot(f) is not None else None
            if f is None:
                return None
        m = Method(self.w, self.ob, f, self.g, args, **k)
        self.res.count('operations')
        self.res.count('paths', len(m.paths))
        if m.undecided:
            self.res.note('%s: %s: not decided' % (f.name, m.undecided))
        return m

    def bad(self, m, p, key, text):
        self.res.add('%s.%s:%s' % (self.n, m.f.name, key), m.where, self.n, '%s (%s)' % (text, m.f.name), p.trail() if p else ())

    def needs(self, m, kinds, got):
        for k in kinds:
            if k not in got:
                self.res.note('%s: no path of %s %s' % (self.n, m.f.name, k))
        self.res.count('outcomes', len([k for k in kinds if k in got]))


KEYT = 'isint'


def key_int(m, k='key'):
    """the integer in the key"""
    off = [o for n, o, ct, z in m.w.p.di_struct('IntObject') if n == 'val'][0]
    t = ('m', add(m[k], C(off)), 0, 8, 'i')
    m.e.rng.setdefault(t, (-2 ** 63, 2 ** 63 - 1))
    return t


def is_type(m, p, x, tname):
    """is the object known (not) to be of the type"""
    g = [y for y in m.ob.types if name(y) == tname][0]
    t = p.at(add(x, C(m.w.type_off)), 8, 'p')
    return p.true(('eq', sub(t, ('g', g))))


def lt(a, b):
    return ('le', sub(add(a, ONE), b))


def index_rule(s, m, idx, count, upto, what, reading):
    """indices are accepted exactly when they are in range"""
    for p in m.paths:
        if p.failed:
            continue
        ok = p.ret != ZERO
        top = count if not upto else add(count, ONE)
        if is_type(m, p, m['key'], 't_int') is False:
            if ok:
                s.bad(m, p, 'key', 'a key that is not an integer is accepted')
            continue
        if ok:
            if p.may(lt(idx, ZERO)):
                s.bad(m, p, 'negative', 'a negative index of %s is accepted' % what)
            if p.may(('le', sub(top, idx))):
                s.bad(m, p, 'beyond', 'an index past the end of %s is accepted' % what)
        elif is_type(m, p, m['key'], 't_int') is True and (not reading or reading(p)):
            if p.may(('le', scale(idx, -1)), lt(idx, top)):
                s.bad(m, p, 'refused', 'an index of %s that is in range is refused' % what)


# ------------------------------------------------------------------ lists
def list_inv(m, st):
    """what holds of any list between operations, and is checked at their ends"""
    count, cap = m.field('count'), m.field('capacity')
    for b in (('le', scale(count, -1)), ('le', sub(count, cap)), ('le', sub(ONE, cap))):
        m.e.assume(st, b, True)


def elem(p, arr, k, size=8):
    return add(p.res(arr), scale(p.res(k), size))


def new_size(p, a):
    for x in p.ev:
        if x[0] == 'alloc' and x[3] == a:
            return x[2]
    return None


def lists(w, ob, res):
    s = Spec(w, ob, res, 't_list')
    m = s.follow('select', ['self', 'key', 'heap', 'error'])
    if m:
        idx, count, vals = key_int(m), m.field('count'), m.field('vals')
        index_rule(s, m, idx, count, False, 'a list', None)
        got = set()
        for p in m.paths:
            if p.ret == ZERO:
                got.add('refuses')
                continue
            got.add('selects')
            if p.differ(p.ret, ('m', elem(p, vals, idx), 0, 8, 'p')):
                s.bad(m, p, 'item', 'what is read is not the item at the index')
        s.needs(m, ('selects', 'refuses'), got)
    m = s.follow('insert', ['self', 'key', 'val', 'heap', 'error'], pre=list_inv)
    if m:
        idx, count, vals, cap = key_int(m), m.field('count'), m.field('vals'), m.field('capacity')
        index_rule(s, m, idx, count, True, 'a list (or its end)', None)
        got = set()
        for p in m.paths:
            if p.ret == ZERO:
                if p.differ(p.at(m.addr('count'), 4), count):
                    s.bad(m, p, 'count', 'an insertion that fails changes the number of items')
                continue
            for q, what in ((p.case(('eq', sub(idx, count))), 'appends'), (p.case(('ne', sub(idx, count))), 'replaces')):
                if q is not None:
                    got.add(what)
                    list_put(s, m, q, what, idx, count, vals, got)
        s.needs(m, ('appends', 'replaces', 'grows'), got)
    counts(s, 'count')
    prints(s, lambda m, k: [('item', elem2(m, 'vals', k))], '[', ']')
    keysof_range(s, 'count')
    m = s.follow('copy', ['self', 'heap', 'error'], inline=('Object_NewList',))
    if m:
        copied(s, m, 't_list', lambda p, k: elem2(m, 'vals', k))
    m = s.follow(s.fn('Object_NewList'), ['capacity:i', 'heap', 'error'])
    got = set()
    for p in m.paths:
        if p.ret == ZERO:
            continue
        got.add('makes')
        new_list(s, m, p, ZERO)
        cap = p.at(add(p.ret, C(fo(m, 'capacity'))), 4)
        if p.may(lt(cap, m['capacity'])):
            s.bad(m, p, 'capacity', 'the list has room for fewer items than asked for')
    s.needs(m, ('makes',), got)
    m = s.follow(s.fn('Object_NewList2'), ['num:i', 'items', 'heap', 'error'], inline=('Object_NewList',))
    got = set()
    for p in m.paths:
        if p.ret == ZERO:
            continue
        got.add('makes')
        new_list(s, m, p, m['num'])
        holds_items(s, m, p, p.at(add(p.ret, C(fo(m, 'vals'))), 8, 'p'), m['items'], m['num'])
    s.needs(m, ('makes',), got)
    consecutive(s)


def list_put(s, m, p, what, idx, count, vals, got):
    c2 = p.at(m.addr('count'), 4)
    v2 = p.at(m.addr('vals'), 8, 'p')
    at = elem(p, v2, idx)
    if what == 'appends':
        if p.differ(c2, add(count, ONE)):
            s.bad(m, p, 'count', 'appending an item does not make the list one longer')
    else:
        if p.differ(c2, count):
            s.bad(m, p, 'count', 'replacing an item changes the length of the list')
        if p.differ(v2, vals):
            s.bad(m, p, 'vals', 'replacing an item replaces the items of the list')
    w = [x for x in p.ev if x[0] == 'store' and p.same(x[1], at)]
    if not w or p.differ(w[-1][2], m['val']):
        if not any(x[0] == 'store' and p.same(x[2], m['val']) and lost(x[1]) for x in p.ev):
            s.bad(m, p, 'item', 'the value is not stored at the index')
    z = new_size(p, v2)
    if z is not None:
        got.add('grows')
        c = p.at(m.addr('capacity'), 4)
        if p.differ(z, scale(c, 8)):
            s.bad(m, p, 'grow', 'the capacity of the list is not that of the block allocated for it')
        moved(s, m, p, vals, v2, count)
    if p.may(lt(p.at(m.addr('capacity'), 4), c2)):
        s.bad(m, p, 'full', 'a list may get more items than it has room for')


def fo(m, n, g=None):
    return [o for x, o, ct, z in m.ob.members(sorted(m.ob.of[g or m.g])[0]) if x == n][0]


def elem2(m, arr, k):
    return ('m', add(m.field(arr), C(8 * k)), 0, 8, 'p')


def new_list(s, m, p, num):
    c = p.at(add(p.ret, C(fo(m, 'count'))), 4)
    if p.differ(c, num):
        s.bad(m, p, 'count', 'the number of items of the new list is wrong')
    v = p.at(add(p.ret, C(fo(m, 'vals'))), 8, 'p')
    z = new_size(p, v)
    cap = p.at(add(p.ret, C(fo(m, 'capacity'))), 4)
    if p.may(lt(cap, num)) or p.may(lt(cap, ONE)):
        s.bad(m, p, 'room', 'the new list has room for fewer items than it holds, or for none')
    if z is None:
        s.bad(m, p, 'vals', 'the new list has no block for its items')
    elif p.differ(z, scale(cap, 8)):
        s.bad(m, p, 'capacity', 'the capacity of the list is not that of the block allocated for it')


def known_count(p, n, turns):
    """the number of turns when a count is decided on the path"""
    c = p.res(n)
    if isc(c):
        return c[1]
    lo, hi = p.e.bounds(p.st, c)
    return lo if lo == hi else None


def moved(s, m, p, old, new, count):
    """the items are in the new block"""
    holds_items(s, m, p, new, p.res(old), count)


def copies(p):
    return [x for x in p.ev if x[0] == 'copy']


def holds_items(s, m, p, new, items, num, size=8):
    for x in copies(p):
        if p.same(x[1], new) and p.same(x[2], items):
            if p.differ(strip(p.res(x[3])), scale(p.res(num), size)) and p.differ(x[3], scale(p.res(num), size)):
                s.bad(m, p, 'items', 'the number of items copied is not the number of items there are')
            return
    n = known_count(p, num, 4)
    if n is None:
        lo, hi = p.e.bounds(p.st, p.res(num))
        if hi <= 0:
            return
        n = max(lo, 0) if lo > 0 else None
        if n is None:
            if not any(x[0] == 'store' and root(x[1]) == root(new) for x in p.ev) and p.may(lt(ZERO, num)):
                s.bad(m, p, 'items', 'the items are not copied')
            return
    for k in range(min(n, 4)):
        x = p.st.mem.get(add(new, C(size * k)))
        if x is None or p.differ(x[0], ('m', add(items, C(size * k)), 0, size, 'p')):
            s.bad(m, p, 'items', 'the item %d is not moved to the new block' % k)
            return


def counts(s, field, pre=None):
    m = s.follow('count', ['self'], pre=pre)
    if m:
        for p in m.paths:
            if p.differ(strip(p.ret), m.field(field)):
                s.bad(m, p, 'count', 'the count of the object is not its number of items')
            s.res.count('outcomes')


def keysof_range(s, field, pre=None):
    m = s.follow('keysof', ['self', 'heap', 'error'], pre=pre)
    if not m:
        return
    got = set()
    for p in m.paths:
        if p.ret == ZERO:
            continue
        c = p.calls('Object_NewListOfConsecutiveIntegers')
        if len(c) != 1 or p.ret != c[0][3]:
            s.res.note('%s: the keys are not made by one call: not decided' % m.f.name)
            continue
        got.add('makes')
        a, b = c[0][2][0], c[0][2][1]
        n = m.field(field)
        if p.differ(a, ZERO) or p.differ(strip(add(b, ONE)), n) and p.differ(add(b, ONE), n) and not trunc_of(p, b, n):
            s.bad(m, p, 'keys', 'the keys are not the integers from 0 to the count less 1')
    s.needs(m, ('makes',), got)


def trunc_of(p, b, n):
    d = add(b, ONE)
    return strip(p.res(d)) == p.res(n) or any(x[0] == 'op' and strip(x) == p.res(n) and sub(d, x) == ZERO for x in atoms(d))


def copied(s, m, tname, item):
    """each item of the copy is a copy of the item"""
    got = set()
    count = m.field('count')
    for p in m.paths:
        n = known_count(p, count, 4)
        if p.ret == ZERO:
            got.add('fails') if p.failed else None
            continue
        if p.failed:
            s.bad(m, p, 'failed', 'a copy is returned though a part of it could not be copied')
            continue
        if n is None:
            continue
        got.add('copies')
        if p.ret == m['self']:
            s.bad(m, p, 'self', 'the copy is the object itself')
            continue
        c = p.at(add(p.ret, C(fo(m, 'count'))), 4)
        if p.differ(c, count):
            s.bad(m, p, 'count', 'the copy has another number of items')
        v = p.at(add(p.ret, C(fo(m, 'vals'))), 8, 'p')
        cp = {p.res(x[2][0]): x[3] for x in p.calls('Object_Copy')}
        for k in range(n):
            x = p.st.mem.get(add(v, C(8 * k)))
            want = cp.get(p.res(item(p, k)))
            if want is None:
                s.bad(m, p, 'item', 'the item %d is not copied' % k)
            elif x is None or p.differ(x[0], want):
                s.bad(m, p, 'item', 'the item %d of the copy is not the copy of that item' % k)
    s.needs(m, ('copies', 'fails'), got)


def text_of(p, x):
    """the pieces of text and the objects printed, in order"""
    out = []
    n, R = x[1], x[2]
    P = p.m.w.p

    def lit(a):
        return P.cstr(a) if a[0] == 'g' or a[0] == 'lin' else None
    if n == 'fprintf':
        f = lit(R[1])
        if f is None:
            return None
        return ('fmt', f, R[2:])
    if n == 'fputs':
        f = lit(R[0])
        return None if f is None else ('fmt', f.replace('%', '%%'), ())
    if n in ('fputc', 'putc') and isc(R[0]):
        return ('fmt', chr(R[0][1] & 255).replace('%', '%%'), ())
    return None


def printed(p):
    out = []
    for x in p.ev:
        if x[0] == 'print':
            t = text_of(p, x)
            if t is None:
                return None
            if out and out[-1][0] == 'fmt':
                out[-1] = ('fmt', out[-1][1] + t[1], out[-1][2] + tuple(t[2]))
            else:
                out.append(t)
        elif x[0] == 'call' and x[1] == 'Object_Print':
            out.append(('obj', x[2][0]))
    return out


def prints(s, items, lb, rb, sep=', ', mid=': ', field='count'):
    m = s.follow('print', ['self', 'fp'])
    if not m:
        return
    got = set()
    for p in m.paths:
        n = known_count(p, m.field(field), 4)
        if n is None or n < 0:
            continue
        t = printed(p)
        if t is None:
            s.res.note('%s: what it prints is not constant text: not decided' % m.f.name)
            continue
        want = [('fmt', lb, ())]

        def txt(x):
            if want[-1][0] == 'fmt':
                want[-1] = ('fmt', want[-1][1] + x, ())
            else:
                want.append(('fmt', x, ()))
        for k in range(n):
            for j, (_, a) in enumerate(items(m, k)):
                if j:
                    txt(mid)
                want.append(('obj', p.res(a)))
            if k + 1 < n:
                txt(sep)
        txt(rb)
        got.add('prints')
        if t != want:
            s.bad(m, p, 'text', 'an object of %d items is not printed as %s' % (
                n, ''.join(x[1] if x[0] == 'fmt' else '<item>' for x in want)))
    s.needs(m, ('prints',), got)


def consecutive(s):
    m = s.follow(s.fn('Object_NewListOfConsecutiveIntegers'), ['first:i', 'last:i', 'heap', 'error'])
    got = set()
    for p in m.paths:
        if p.ret == ZERO:
            if not p.failed:
                s.bad(m, p, 'fails', 'a list is refused')
            continue
        mk = p.calls('Object_NewList')
        if not mk or p.ret != mk[0][3]:
            s.res.note('%s: the list is not made by Object_NewList: not decided' % m.f.name)
            continue
        new = {x[3]: x[2][0] for x in p.calls('Object_FromInt')}
        n = add(sub(m['last'], m['first']), ONE)
        ins = [x for x in p.calls('Object_Insert')]
        for k, x in enumerate(ins):
            a, b = new.get(x[2][1]), new.get(x[2][2])
            if x[2][0] != p.ret or a is None or b is None:
                s.bad(m, p, 'item', 'something else than an integer is put in the list')
                continue
            if p.differ(a, C(k)):
                s.bad(m, p, 'index', 'the integers are not put one after the other')
            if p.differ(b, add(m['first'], C(k))):
                s.bad(m, p, 'value', 'the integers are not consecutive')
        k = len(ins)
        got.add('makes')
        if k and p.true(('eq', add(n, C(-k)))) is not True and p.may(('ne', add(n, C(-k)))):
            s.bad(m, p, 'number', 'the list does not end with the last integer')
        if not k and p.may(lt(ZERO, n)):
            s.bad(m, p, 'number', 'the list does not start with the first integer')
    s.needs(m, ('makes',), got)


# ------------------------------------------------------------------- maps
def evaluate(t, env):
    """the value of a term of 32 bit arithmetic for given values of its atoms; None if it has other parts"""
    M = 2 ** 32 - 1
    k = t[0]
    if t in env:
        return env[t]
    if k == 'c':
        return t[1]
    if k == 'lin':
        v = t[1]
        for a, c in t[2]:
            x = evaluate(a, env)
            if x is None:
                return None
            v += c * x
        return v
    if k != 'op':
        return None
    if t[1] in ('trunc', 'zext', 'sext') and len(t) == 4:
        x = evaluate(t[3], env)
        if x is None:
            return None
        n = t[2][1]
        x &= (1 << n) - 1
        if t[1] != 'zext' and x >> (n - 1):
            x -= 1 << n
        return x
    v = [evaluate(x, env) for x in t[2:]]
    if None in v or len(v) != 2:
        return None
    a, b = v
    s = lambda x: (x & M) - (2 ** 32 if (x & M) >> 31 else 0)
    try:
        r = {'and': lambda: s(a & b), 'or': lambda: s(a | b), 'xor': lambda: s(a ^ b), 'lshr': lambda: s((a & M) >> (b & 31)),
             'ashr': lambda: s(a) >> (b & 31), 'shl': lambda: s(a << (b & 31)), 'mul': lambda: a * b,
             'urem': lambda: s((a & M) % (b & M)), 'udiv': lambda: s((a & M) // (b & M)),
             'srem': lambda: int(__import__('math').fmod(s(a), s(b))), 'sdiv': lambda: int(s(a) / s(b))}[t[1]]()
    except (KeyError, ZeroDivisionError):
        return None
    return r


POINTS = [0, 1, 2, 3, 4, 5, 7, 8, 31, 32, 33, 63, 64, 255, 1023, 65535, 2 ** 20 + 5, 2 ** 30 + 77, 2 ** 31 - 1, -1, -2, -5, -32, -33, -1000, -65536, -2 ** 31, -2 ** 31 + 31,
          305419896, -559038737, 123456789, -987654321]


def same_slot(a, b, h):
    """are these terms over one hash the same?  True, False (with a hash for which they are not), None"""
    if a == b:
        return True
    for x in POINTS:
        u, v = evaluate(a, {h: x}), evaluate(b, {h: x})
        if u is None or v is None:
            return None
        if u != v:
            return False
    return None


def subst(t, a, b):
    if t == a:
        return b
    if t[0] == 'lin':
        out = C(t[1])
        for x, k in t[2]:
            out = add(out, scale(subst(x, a, b), k))
        return out
    if t[0] in ('op', 'ne', 'eq', 'le'):
        r = tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)
        if t[0] == 'op' and t[1] in ('and', 'or', 'xor', 'mul'):
            r = r[:2] + tuple(sorted(r[2:], key=okey))
        return r
    return t


def hashes(t):
    return {a for a in atoms(t) if a[0] == 's' and a[2].startswith('hash of')}


def probes(p):
    """the slots looked at: [(array, slot, hash)]"""
    out = []
    for x in p.ev:
        if x[0] != 'load':
            continue
        r = root(x[1])
        d = sub(x[1], r)
        c, its = parts(d)
        if c % 4 or any(k % 4 for _, k in its):
            continue
        j = mk(c // 4, tuple((a, k // 4) for a, k in its))
        h = hashes(j)
        if len(h) == 1:
            out.append((r, j, next(iter(h)), x[1], x[2]))
    return out


def map_pre(size, n):
    def pre(m, st):
        for f, v in (('mapper_size', size), ('count', n)):
            x = m.field(f)
            st.mem[x[1]] = (C(v), 4, (sorted(m.ob.of[m.g])[0], 0))
        for f in ('mapper', 'keys', 'vals'):
            x = m.field(f)
            st.mem[x[1]] = (x, 8, (sorted(m.ob.of[m.g])[0], 0))
    return pre


class Seq:
    """the slots a lookup looks at, one after the other, for each size"""
    def __init__(self):
        self.s = {}

    def check(self, s, m, p, sizes):
        """probes agree with lookups; {hash: [slots looked at]}"""
        seen = {}
        for r, j, h, a, _ in probes(p):
            size = sizes(r)
            ref = self.s.get(size)
            t = len(seen.setdefault((r, h), []))
            seen[(r, h)].append(a)
            if ref is None or t >= len(ref):
                continue
            ok = same_slot(j, subst(ref[t], H0, h), h)
            s.res.count('slots compared')
            if ok is False:
                s.bad(m, p, 'probe', 'the slot looked at in turn %d is not the one a lookup looks at in a map of %d slots' % (t + 1, size))
            elif ok is None:
                s.res.note('%s: the slot looked at in turn %d is not comparable: not decided' % (m.f.name, t + 1))
        return seen


H0 = ('s', 0, 'hash', (), '', 'i')


def maps(w, ob, res):
    s = Spec(w, ob, res, 't_map')
    seq = Seq()
    got = set()
    sizes = (2, 4, 8)
    for size in sizes:
        m = s.follow('select', ['self', 'key', 'heap', 'error'], pre=map_pre(size, 1), loads=4, turns=12, free=True)
        if not m:
            return
        mapper, keys, vals = m.field('mapper'), m.field('keys'), m.field('vals')
        best = []
        for p in m.paths:
            pr = [x for x in probes(p) if x[0] == mapper]
            if len(pr) > len(best):
                best = [subst(x[1], pr[0][2], H0) for x in pr]
            if [x[1] for x in pr] and pr[0][2] != ('s', 0, 'hash of %d' % okey(m['key']), (), '', 'i'):
                s.bad(m, p, 'hash', 'a lookup starts at the slot of something else than the key')
            looked(s, m, p, pr, keys, got)
            last = p.res(pr[-1][4]) if pr else None
            if p.ret == ZERO:
                if p.failed:
                    got.add('fails')
                    continue
                got.add('misses')
                if p.kind('report'):
                    s.bad(m, p, 'absent', 'a key that is not in the map is an error')
                if last is None or p.differ(last, C(-1)):
                    s.bad(m, p, 'absent', 'a key is taken for absent at a slot that is in use')
                continue
            got.add('finds')
            if p.failed:
                s.bad(m, p, 'failed', 'a value is returned though the comparison of the keys failed')
            if last is None or p.differ(p.ret, ('m', elem(p, vals, last), 0, 8, 'p')):
                s.bad(m, p, 'value', 'the value returned is not that of the key that was found')
            c = p.calls('Object_Compare')
            if not c or c[-1][3] == ZERO:
                s.bad(m, p, 'found', 'a value is returned though no key was equal')
        seq.s[size] = best
    s.res.count('lookup turns', sum(len(x) for x in seq.s.values()))
    s.needs(m, ('finds', 'misses', 'fails'), got)
    map_insert(s, seq)
    counts(s, 'count')
    prints(s, lambda m, k: [('key', elem2(m, 'keys', k)), ('value', elem2(m, 'vals', k))], '{', '}')
    map_copy(s)
    map_new(s)
    m = s.follow('keysof', ['self', 'heap', 'error'])
    got = set()
    for p in m.paths if m else ():
        if p.ret == ZERO:
            continue
        c = p.calls('Object_NewList2')
        if len(c) != 1 or c[0][3] != p.ret:
            s.res.note('%s: the keys are not made by one call: not decided' % m.f.name)
            continue
        got.add('makes')
        if p.differ(c[0][2][0], m.field('count')) or p.differ(c[0][2][1], m.field('keys')):
            s.bad(m, p, 'keys', 'the keys of a map are not those stored in it')
    if m:
        s.needs(m, ('makes',), got)


def looked(s, m, p, pr, keys, got):
    """at each slot in use but the last the key was compared and was another one; probing does not go on after an empty slot"""
    cmp = p.calls('Object_Compare')
    n = 0
    for k, x in enumerate(pr):
        v = p.res(x[4])
        if k + 1 < len(pr):
            if p.true(('eq', add(v, ONE))) is True:
                s.bad(m, p, 'on', 'probing goes on after an empty slot')
        at = elem(p, keys, v)
        c = [y for y in cmp if m['key'] in y[2][:2] and any(z[0] == 'm' and z[1] in (at, elem(p, keys, x[4])) or at in p.st.mem and z == p.st.mem[at][0]
                                                           for z in y[2][:2])]
        if not c:
            if p.true(('ne', add(v, ONE))) is not False and k + 1 < len(pr):
                s.bad(m, p, 'skip', 'a slot in use is passed without comparing its key with the one looked for')
            continue
        if c[0][3] != ZERO and k + 1 < len(pr):
            s.bad(m, p, 'on', 'probing goes on after the key was found')


def map_insert(s, seq):
    got = set()
    for size, n, turns in ((4, 1, 12), (8, 2, 4), (2, 1, 9), (4, 2, 3)):
        m = s.follow('insert', ['self', 'key', 'val', 'heap', 'error'], pre=map_pre(size, n), loads=4, turns=turns, free=True)
        if not m:
            return
        mapper0 = m.field('mapper')
        for p in m.paths:
            A = {k: m.addr(k) for k in ('mapper', 'keys', 'vals')}
            now = {k: p.at(A[k], 8, 'p') for k in A}
            mapper, keys, vals = now['mapper'], now['keys'], now['vals']
            nsize = p.at(m.addr('mapper_size'), 4)
            c2 = p.at(m.addr('count'), 4)
            if not isc(nsize) or not isc(c2):
                s.res.note('%s: the size of the map is not determined on a path: not decided' % m.f.name)
                continue
            seen = seq.check(s, m, p, lambda r: size if r == mapper0 else nsize[1])
            hk = ('s', 0, 'hash of %d' % okey(m['key']), (), '', 'i')
            pr = [x for x in probes(p) if x[0] == mapper and x[2] == hk]
            stores = [x for x in p.ev if x[0] == 'store']

            def st_at(arr, k=None):
                r = root(arr)
                return [x for x in stores if x[1] == (elem(p, arr, k) if k is not None else 0) or k is None and root(x[1]) == r and r is not None]
            if mapper != mapper0:
                grown(s, m, p, size, n, nsize[1], now, seen, got)
                if p.ret == ZERO and not p.failed:
                    s.bad(m, p, 'fails', 'an insertion fails though nothing failed')
            if p.ret == ZERO:
                got.add('fails')
                if not p.failed:
                    s.bad(m, p, 'fails', 'an insertion fails though nothing failed')
                if c2 != C(n):
                    s.bad(m, p, 'count', 'an insertion that fails changes the number of items')
                if pr and any(x[1] == pr[-1][3] for x in stores if x[2] not in (C(-1),) and (mapper == mapper0 or x[2] == C(n))):
                    s.bad(m, p, 'slot', 'an insertion that fails leaves a slot for an item that is not there')
                continue
            if p.failed:
                s.bad(m, p, 'failed', 'an insertion succeeds though a part of it failed')
                continue
            if not pr:
                s.bad(m, p, 'hash', 'the key is not looked for from the slot of its hash')
                continue
            looked(s, m, p, pr, keys, got)
            last = pr[-1]
            cmp = p.calls('Object_Compare')
            if cmp and cmp[-1][3] == ONE:
                got.add('replaces')
                if c2 != C(n):
                    s.bad(m, p, 'count', 'storing the value of a key that is in the map changes the number of items')
                w = [x for x in stores if p.same(x[2], m['val'])]
                k = [y for y in probes(p) if y[0] == mapper and y[2] == hk][-1]
                val = None
                for x in w:
                    if x[1] in (elem(p, vals, k[4]), elem(p, vals, p.res(k[4]))):
                        val = x
                if val is None:
                    s.bad(m, p, 'value', 'the value is not stored where the key was found')
                elif len(stores) != len([x for x in stores if x == val]) and mapper == mapper0:
                    s.bad(m, p, 'other', 'storing the value of a key that is in the map changes something else')
                continue
            got.add('adds')
            if c2 != C(n + 1):
                s.bad(m, p, 'count', 'adding a key does not make the map one larger')
            w = [x for x in stores if x[1] == last[3]]
            if not w or w[-1][2] != C(n):
                s.bad(m, p, 'slot', 'the empty slot that was found is not given the number of the new item')
            cp = [x for x in p.calls('Object_Copy') if x[2][0] == m['key']]
            w = st_at(keys, C(n))
            if not w or not cp or not p.same(w[-1][2], cp[-1][3]):
                s.bad(m, p, 'key', 'the new item is not given a copy of the key')
            w = st_at(vals, C(n))
            if not w or not p.same(w[-1][2], m['val']):
                s.bad(m, p, 'value', 'the new item is not given the value')
    s.needs(m, ('adds', 'replaces', 'fails', 'grows'), got)


def grown(s, m, p, size, n, nsize, now, seen, got):
    got.add('grows')
    k, v, mp = new_size(p, now['keys']), new_size(p, now['vals']), new_size(p, now['mapper'])
    if mp is None or not isc(mp) or mp[1] < 4 * nsize:
        s.bad(m, p, 'size', 'a map that grows has fewer slots than its size')
        return
    if k is None or v is None or not isc(k) or not isc(v) or min(k[1], v[1]) // 8 <= n:
        s.bad(m, p, 'room', 'a map that grows has no room for another item')
        return
    if min(k[1], v[1]) // 8 >= nsize:
        s.bad(m, p, 'load', 'a map can get as many items as it has slots')
    if nsize & (nsize - 1) or nsize <= size:
        s.bad(m, p, 'size', 'a map that grows does not double its slots')
    for arr in ('keys', 'vals'):
        for i in range(n):
            w = [x for x in p.ev if x[0] == 'store' and x[1] == add(now[arr], C(8 * i))]
            if not w or not p.same(w[0][2], ('m', add(m.field(arr), C(8 * i)), 0, 8, 'p')):
                if not any(x[0] == 'copy' and x[1] == now[arr] and x[2] == m.field(arr) and x[3] == C(8 * n) for x in p.ev):
                    s.bad(m, p, arr, 'a map that grows loses its item %d' % i)
    st = [x for x in p.ev if x[0] == 'store' and root(x[1]) == now['mapper'] and x[3] == 4]
    blank = {x[1] for x in st if x[2] == C(-1)}
    fill = [x for x in p.ev if x[0] == 'fill' and x[1] == now['mapper'] and x[2] in (C(-1), C(255)) and isc(x[3]) and x[3][1] >= 4 * nsize]
    if not fill:
        for i in range(nsize):
            if add(now['mapper'], C(4 * i)) not in blank:
                s.bad(m, p, 'blank', 'the slot %d of a map that grows is not made empty' % i)
                break
    if p.ret == ZERO and p.calls('Object_Copy') == [] and not p.calls('Object_Compare'):
        pass
    for i in range(n):
        w = [x for x in st if x[2] == C(i)]
        h = ('s', 0, 'hash of %d' % okey(('m', add(m.field('keys'), C(8 * i)), 0, 8, 'p')), (), '', 'i')
        slots = seen.get((now['mapper'], h), [])
        if not w:
            s.bad(m, p, 'rehash', 'the item %d of a map that grows is given no slot' % i)
        elif not slots or w[0][1] != slots[-1]:
            s.bad(m, p, 'rehash', 'the item %d of a map that grows is not given the slot its key was probed for' % i)


def map_copy(s):
    m = s.follow('copy', ['self', 'heap', 'error'])
    if not m:
        return
    got = set()
    for p in m.paths:
        n = known_count(p, m.field('count'), 4)
        if p.ret == ZERO:
            got.add('fails')
            if not p.failed:
                s.bad(m, p, 'fails', 'a copy fails though nothing failed')
            continue
        if p.failed:
            s.bad(m, p, 'failed', 'a copy is returned though a part of it failed')
            continue
        if n is None:
            continue
        mk_ = [x for x in p.calls('Object_NewMap') if x[3] == p.ret]
        if not mk_:
            s.res.note('%s: the copy is not made by Object_NewMap: not decided' % m.f.name)
            continue
        got.add('copies')
        cp = {x[3]: p.res(x[2][0]) for x in p.calls('Object_Copy')}
        ins = [(cp.get(x[2][1], x[2][1]), cp.get(x[2][2])) for x in p.calls('Object_Insert') if x[2][0] == p.ret]
        want = [(p.res(elem2(m, 'keys', k)), p.res(elem2(m, 'vals', k))) for k in range(n)]
        if ins != want:
            s.bad(m, p, 'items', 'the copy of a map of %d items is not given copies of its keys and values in order' % n)
    s.needs(m, ('copies', 'fails'), got)


def map_new(s):
    got = set()
    for num in (0, 5, 6):
        def pre(m, st):
            pass
        f = s.fn('Object_NewMap')
        m = Method(s.w, s.ob, f, s.g, ['num:i', 'heap', 'error'], free=True,
                   pre=lambda m, st: m.e._assume_eq(st, sub(m['num'], C(num))))
        s.res.count('operations')
        for p in m.paths:
            if p.ret == ZERO:
                if not p.failed:
                    s.bad(m, p, 'fails', 'a map is refused')
                continue
            if p.failed:
                s.bad(m, p, 'failed', 'a map is returned though a block of it could not be allocated')
                continue
            v = {n: p.at(add(p.ret, C(fo(m, n))), 4 if n in ('count', 'mapper_size') else 8, 'i' if n in ('count', 'mapper_size') else 'p')
                 for n in ('count', 'mapper_size', 'mapper', 'keys', 'vals')}
            z = {n: new_size(p, v[n]) for n in ('mapper', 'keys', 'vals')}
            if not isc(v['mapper_size']) or not all(x is not None and isc(x) for x in z.values()):
                s.res.note('%s: sizes are not determined: not decided' % f.name)
                continue
            got.add('makes')
            n = v['mapper_size'][1]
            if v['count'] != ZERO:
                s.bad(m, p, 'count', 'a new map is not empty')
            if n & (n - 1) or z['mapper'][1] != 4 * n:
                s.bad(m, p, 'size', 'the slots of a new map are not the block allocated for them or not a power of two')
            room = min(z['keys'][1], z['vals'][1]) // 8
            if room < max(num, 1) or z['keys'] != z['vals']:
                s.bad(m, p, 'room', 'a new map has no room for the items it was asked for')
            if room >= n:
                s.bad(m, p, 'load', 'a map can get as many items as it has slots')
            st = {x[1] for x in p.ev if x[0] == 'store' and x[2] == C(-1)}
            fill = [x for x in p.ev if x[0] == 'fill' and x[1] == v['mapper'] and x[2] in (C(-1), C(255)) and isc(x[3]) and x[3][1] >= 4 * n]
            if not fill and not all(add(v['mapper'], C(4 * i)) in st for i in range(n)):
                s.bad(m, p, 'blank', 'a slot of a new map is not made empty')
    s.needs(m, ('makes',), got)


def maps_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    maps(w, ob, res)
    res.need('operations', 10)
    res.need('outcomes', 8)
    res.need('slots compared', 50)
    return res


def lists_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    lists(w, ob, res)
    res.need('operations', 5)
    res.need('outcomes', 9)
    return res

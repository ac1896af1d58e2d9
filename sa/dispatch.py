"""D06-D09: operations are those of the object's type; what values, types and scopes are."""
import re
from bufs import *

# operation, slot, arguments of the operation, arguments of the slot, result when the type lacks it
OPS = [
    ('Object_Hash', 'hash', ['self'], ['self'], ('c', 0)),
    ('Object_Copy', 'copy', ['self', 'heap', 'error'], ['self', 'heap', 'error'], 'error'),
    ('Object_Call', 'call', ['self', 'argv', 'argc:w', 'rets', 'heap', 'error'], ['self', 'argv', 'argc', 'rets', 'heap', 'error'], 'error'),
    ('Object_Select', 'select', ['self', 'key', 'heap', 'error'], ['self', 'key', 'heap', 'error'], 'error'),
    ('Object_Delete', 'delete', ['self', 'key', 'heap', 'error'], ['self', 'key', 'heap', 'error'], 'error'),
    ('Object_Insert', 'insert', ['self', 'key', 'val', 'heap', 'error'], ['self', 'key', 'val', 'heap', 'error'], 'error'),
    ('Object_Count', 'count', ['self', 'error'], ['self'], 'error'),
    ('Object_KeysOf', 'keysof', ['self', 'heap', 'error'], ['self', 'heap', 'error'], 'none'),
    ('Object_IsTypeOf', 'istypeof', ['self', 'other', 'heap', 'error'], ['self', 'other', 'heap', 'error'], ('c', 0)),
    ('Object_Compare', 'op_eql', ['self', 'other', 'error'], ['self', 'other'], 'error'),
    ('Object_Print', 'print', ['self', 'fp'], ['self', 'fp'], 'text'),
    ('Object_WalkReferences', 'walk', ['self', 'callback', 'userp'], ['self', 'callback', 'userp'], 'nothing'),
    ('Object_WalkExtensions', 'walkexts', ['self', 'callback', 'userp'], ['self', 'callback', 'userp'], 'nothing'),
]
PRINT = 4


class SlotHooks(ObjHooks):
    def by_pointer(self, e, fr, st, ins, fp, ts, args):
        R = tuple(e.res(st, a) for a in args)
        err = next((k for k, a in enumerate(R) if a == self.err), None)
        flags = self.flag(e, st) if self.flag else None
        def rec(s, v):
            self.note(s, 'slot', fp, R, v, flags)
        if ins.res is None:
            rec(st, None)
            return [(st, None)]
        out = []
        ptr = ins.ty == PTR
        if err is not None:
            bad = st.clone()
            v = ZERO if ptr or ins.ty == ('int', 1) else C(-1)
            rec(bad, v)
            self.set_error(e, fr, bad, ins, R[err])
            self.note(bad, 'failed')
            out.append((bad, v))
        if ins.ty == ('int', 1):
            no = st.clone()
            rec(no, ZERO)
            rec(st, ONE)
            return out + [(no, ZERO), (st, ONE)]
        v = self.tok(e, st, 'result', 'p' if ptr else 'i', -2 ** 31, 2 ** 31 - 1)
        rec(st, v)
        return out + [(st, v)]

    err = None
    flag = None


class Dispatcher(Method):
    def __init__(self, w, ob, f, args):
        self.flagged = None
        super().__init__(w, ob, f, None, args, pre=self.prep)

    def prep(self, m, st):
        h = SlotHooks(self.w)
        self.h = self.e.h = h
        h.err = self.a.get('error')
        fl = self.cellof('self', self.w.flags_off, 4, 'i')
        h.flag = lambda e, s: e.res(s, s.mem[fl[1]][0]) if fl[1] in s.mem else fl
        self.flags = fl
        for n in ('self', 'other'):
            if n in self.a:
                self.e.assume(st, ('ne', self.cellof(n, self.w.type_off)), True)
        if 'error' in self.a:
            h.set_error(self.e, None, st, None, self.a['error'], ZERO)

    def cellof(self, n, off, size=8, kind='p'):
        t = ('m', add(self.a[n] if isinstance(n, str) else n, C(off)), 0, size, kind)
        if kind == 'i':
            self.e.rng.setdefault(t, self.e.tyrange(('int', 8 * size), 'unsigned int'))
        return t


def dispatch(w, ob, res):
    class S(Spec):
        def __init__(self):
            self.w, self.ob, self.res, self.g, self.n = w, ob, res, None, 'object'
    s = S()
    for op, slot, args, pas, lack in OPS:
        f = s.fn(op)
        m = Dispatcher(w, ob, f, args)
        res.count('operations')
        res.count('paths', len(m.paths))
        if m.undecided:
            res.note('%s: %s: not decided' % (f.name, m.undecided))
            continue
        T = m.cellof('self', w.type_off)
        F = m.cellof(T, w.type_fields[slot])
        F2 = m.cellof(m.cellof('other', w.type_off), w.type_fields[slot]) if op == 'Object_Compare' else F
        got = set()

        def holds_(p, k):
            a, b = p.true((k, F)), p.true((k, F2))
            return a if b is None else b

        def possible(p, k):
            a = p.may((k, F))
            return a if a is False or F2 == F else p.may((k, F2))
        for p in m.paths:
            calls = p.kind('slot')
            if op == 'Object_Print' and printing(s, m, p, calls, got):
                continue
            if op == 'Object_Compare':
                T2 = m.cellof('other', w.type_off)
                eq = p.true(('eq', sub(T, T2)))
                if eq is not True and calls:
                    s.bad(m, p, 'types', 'objects of different types may be given to the comparison of one of them')
                    continue
                if eq is False:
                    got.add('differs')
                    if p.ret != ZERO or p.reports or p.failed:
                        s.bad(m, p, 'types', 'objects of different types are not simply different')
                    continue
            for x in calls:
                if not p.same(x[1], F) and not p.same(x[1], F2) and p.differ(x[1], F):
                    s.bad(m, p, 'slot', 'the function called is not that of the type of the object')
                    break
                if possible(p, 'eq'):
                    s.bad(m, p, 'absent', 'the function of the type is called though it may be absent')
                for k, n in enumerate(pas):
                    if k >= len(x[2]) or p.differ(x[2][k], m[n]):
                        s.bad(m, p, 'args', 'the function of the type is not given the arguments of the operation in order')
                        break
            if calls:
                got.add('called')
                if len(calls) != 1:
                    s.bad(m, p, 'twice', 'the function of the type is called more than once')
                v = calls[-1][3]
                if v is not None and not p.same(p.ret, v) and p.differ(p.ret, v) is not False:
                    s.bad(m, p, 'result', 'the result is not that of the function of the type')
                if p.reports:
                    s.bad(m, p, 'report', 'an error is reported though the type has the operation')
                if op == 'Object_Print' and p.kind('print'):
                    s.bad(m, p, 'print', 'more than what the type prints is printed')
                continue
            if holds_(p, 'eq') is not True:
                if possible(p, 'ne') is not False and not p.failed:
                    s.bad(m, p, 'ignored', 'the function of the type is not called')
                continue
            got.add('lacks')
            if lack == 'error':
                if not p.reports:
                    s.bad(m, p, 'lacks', 'there is no error though the type lacks the operation')
            elif p.reports:
                s.bad(m, p, 'lacks', 'there is an error where the type lacks the operation')
            elif lack == 'none':
                c = p.calls('Object_NewNone')
                r = none_object(w)
                if not (c and c[-1][3] == p.ret) and p.ret != r and not p.failed:
                    s.bad(m, p, 'lacks', 'the result for a type without the operation is not none')
            elif isinstance(lack, tuple):
                if not p.same(p.ret, lack) and (p.differ(p.ret, lack) or not lost(p.ret)):
                    s.bad(m, p, 'lacks', 'the result for a type without the operation is not %d' % lack[1])
            elif lack == 'text' and not p.kind('print'):
                s.bad(m, p, 'lacks', 'nothing is printed for an object that has no text')
        s.needs(m, ('called', 'lacks') + (('nested',) if op == 'Object_Print' else ('differs',) if op == 'Object_Compare' else ()), got)


def none_object(w):
    gs = [g for g, x in w.p.globals.items() if g.split('@')[0] == 'the_none_object']
    return ('g', gs[0]) if gs else None


def bits(p, t, flags):
    """values of the flags for which the path is taken, and what the term is for them"""
    out = []
    for v in (0, 1, 2, 3, 4, 5, 6, 7, 9, 12):
        if holds(p, {flags: v}):
            out.append((v, evaluate(t, {flags: v})))
    return out


def printing(s, m, p, calls, got):
    """an object that is being printed is marked, and only then"""
    end = p.st.mem.get(m.flags[1])
    end = p.res(end[0]) if end else m.flags
    vals = bits(p, end, m.flags)
    if not vals:
        return False
    marked = {bool(v & PRINT) for v, _ in vals}
    for v, x in vals:
        if x is not None and x & 0xffffffff != v:
            s.bad(m, p, 'flags', 'printing changes the flags of the object from %d to %d' % (v, x & 0xffffffff))
            break
    if marked == {True}:
        got.add('nested')
        if calls:
            s.bad(m, p, 'nested', 'an object that is being printed is printed again inside of itself')
        elif not p.kind('print'):
            s.bad(m, p, 'nested', 'nothing is printed for an object inside of itself')
        return True
    if True in marked and calls:
        s.bad(m, p, 'nested', 'an object that is being printed is printed again inside of itself')
        return True
    for c in calls:
        for v, x in bits(p, c[4], m.flags):
            if x is not None and not x & PRINT:
                s.bad(m, p, 'mark', 'an object is not marked while it is printed')
                return True
    return False


def dispatch_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    dispatch(w, ob, res)
    res.need('operations', 7)
    res.need('outcomes', 14)
    return res


# ------------------------------------------------------------------ values
IS = [(k, 't_' + t) for k, t in (('None', 'none'), ('Int', 'int'), ('Bool', 'bool'), ('Float', 'float'), ('String', 'string'), ('Buffer', 'buffer'), ('File', 'file'),
                                 ('Dir', 'dir'), ('Map', 'map'), ('List', 'list'))]
TYPES = IS + [('Type', 't_type'), ('Nullable', 't_nullable'), ('Sum', 't_sum'), ('Any', 't_any')]
# made by, read by, type, member, kind of the value
BOXES = [('Object_FromInt', 'Object_GetInt', 't_int', 'val', 'l'), ('Object_FromFloat', 'Object_GetFloat', 't_float', 'val', 'f'),
         ('Object_FromStream', 'Object_GetStream', 't_file', 'fp', 'p'), ('Object_FromDIR', 'Object_GetDIR', 't_dir', 'dir', 'p')]
INTFMT = re.compile(r'^%(l|ll|j|z|t|q)[di]$')


def type_g(w, ob, n):
    g = [x for x in ob.types if name(x) == n]
    if len(g) != 1:
        raise Broken('the object type %s is gone' % n)
    return g[0]


def values(w, ob, res):
    g = lambda n: type_g(w, ob, n)

    class F(Spec):
        def __init__(self, n):
            self.w, self.ob, self.res, self.g, self.n = w, ob, res, None, n
    s = F('values')
    for k, t in IS:
        m = s.follow(s.fn('Object_Is' + k), ['self'])
        T = ('m', add(m['self'], C(w.type_off)), 0, 8, 'p')
        want = ('eq', sub(T, ('g', g(t))))
        for p in m.paths:
            for v, q in outcomes(p):
                res.count('outcomes')
                if v and q.may(('ne', want[1])):
                    s.bad(m, q, 'yes', 'an object of another type is taken for one of type %s' % k)
                elif not v and q.may(want):
                    s.bad(m, q, 'no', 'an object of type %s is not taken for one' % k)
    for k, t in TYPES:
        m = s.follow(s.fn('Object_Get%sType' % k), [])
        for p in m.paths:
            res.count('outcomes')
            if p.differ(p.ret, ('g', g(t))):
                s.bad(m, p, 'type', 'the type given for %s is another one' % k)
    for mk_, get, t, field, kind in BOXES:
        struct = sorted(ob.of[g(t)])[0]
        off = [o for n, o, ct, z in ob.members(struct) if n == field]
        if not off:
            raise Broken('%s has no member %s' % (struct, field))
        off = off[0]
        m = s.follow(s.fn(mk_), ['v' if kind == 'p' else 'v:' + kind, 'heap', 'error'])
        for p in m.paths:
            if p.ret == ZERO:
                continue
            res.count('outcomes')
            ty = p.at(add(p.ret, C(w.type_off)), 8, 'p')
            if ty != ('g', g(t)) and p.differ(ty, ('g', g(t))) is not False:
                s.bad(m, p, 'type', 'the new object is not of type %s' % name(g(t))[2:])
            x = p.st.mem.get(p.res(add(p.ret, C(off))))
            if x is None or x[0] != m['v'] and not p.same(x[0], m['v']) and (p.differ(x[0], m['v']) is not None or converted(x[0], m['v'])):
                s.bad(m, p, 'value', 'the new object does not hold the value')
        m = Method(w, ob, s.fn(get), g(t), ['self'])
        res.count('operations')
        for p in m.paths:
            res.count('outcomes')
            want = ('m', add(m['self'], C(off)), 0, 8, 'i' if kind == 'l' else kind)
            if p.ret != want and p.differ(p.ret, want) is not False:
                s.bad(m, p, 'value', 'what is read is not the value of the object')
    booleans(w, ob, res, s)
    scalar(w, ob, res, 't_int', 'val', 'i')
    scalar(w, ob, res, 't_float', 'val', 'f')
    for t in ('t_bool', 't_none', 't_type'):
        singles(w, ob, res, t)
    hashing(w, ob, res, s)


def converted(t, v):
    """is this another value for some v?"""
    if t[0] == 'op' and t[1] in ('fptrunc', 'fptosi', 'sitofp'):
        return True
    if t[0] == 'op' and t[1] == 'fpext':
        return t[-1] != v
    for x in POINTS + [2 ** 31, 2 ** 32 + 7, 2 ** 40, -2 ** 40, 2 ** 62 + 1]:
        y = evaluate(t, {v: x})
        if y is not None and y != x:
            return True
    return False


def booleans(w, ob, res, s):
    g = type_g(w, ob, 't_bool')
    m = s.follow(s.fn('Object_FromBool'), ['v:b', 'heap', 'error'])
    objs = {}
    for p in m.paths:
        for v in (True, False):
            q = p.case(('ne' if v else 'eq', m['v']))
            if q is None:
                continue
            res.count('outcomes')
            r = q.ret
            if r[0] != 'g':
                res.note('values: what Object_FromBool returns is not an object of the program: not decided')
                return
            if objs.setdefault(v, r) != r:
                s.bad(m, q, 'one', 'there is more than one object for a truth value')
            ini = w.p.globals[r[1]].init if r[1] in w.p.globals else None
            if ini is None or not any(x[1] == ('g', g) for x in (ini[1] if isinstance(ini[1], (list, tuple)) else ()) if isinstance(x, tuple) and len(x) > 1):
                s.bad(m, q, 'type', 'a truth value is not an object of type bool')
    if len(objs) == 2 and objs[True] == objs[False]:
        s.bad(m, None, 'same', 'true and false are the same object')
        return
    T = Spec(w, ob, res, 't_bool')
    eql = T.slot('op_eql')
    if eql is None:
        res.add('bool.eql', 'bool', 'bool', 'truth values cannot be compared', ())
    for v, r in objs.items() if eql is not None else ():
        for v2, r2 in objs.items():
            def pre(m, st):
                for n, x in (('self', r), ('other', r2)):
                    m.e._assume_eq(st, sub(m[n], x))
                    m.e._assume_eq(st, sub(('m', add(m[n], C(w.type_off)), 0, 8, 'p'), ('g', g)))
                    m.e._assume_eq(st, sub(('m', add(x, C(w.type_off)), 0, 8, 'p'), ('g', g)))
            m = Method(w, ob, eql, None, ['self', 'other'], pre=pre)
            res.count('operations')
            for p in m.paths:
                for x, q in outcomes(p):
                    res.count('outcomes')
                    if x != (v == v2):
                        T.bad(m, q, 'eql', 'the comparison of %s with %s is wrong' % (str(v).lower(), str(v2).lower()))
    for v, r in objs.items():
        for n, what in (('Object_GetBool', 'get'), ('print', 'print')):
            m = Method(w, ob, s.fn(n) if what == 'get' else T.slot(n), None, ['self'] if what == 'get' else ['self', 'fp'],
                       pre=lambda m, st: (m.e._assume_eq(st, sub(m['self'], r)), m.e._assume_eq(st, sub(('m', add(m['self'], C(w.type_off)), 0, 8, 'p'), ('g', g)))))
            res.count('operations')
            for p in m.paths:
                res.count('outcomes')
                if what == 'get':
                    for x, q in outcomes(p):
                        if x != v:
                            s.bad(m, q, 'value', 'the truth value of %s is %s' % (str(v).lower(), str(x).lower()))
                else:
                    t = printed(p)
                    if t is not None and ''.join(x[1] for x in t if x[0] == 'fmt') != str(v).lower():
                        T.bad(m, p, 'text', '%s is printed as something else' % str(v).lower())


def copies_itself(s, m, off=None, kind=None):
    for p in m.paths:
        s.res.count('outcomes')
        if p.ret == m['self'] or p.ret == ZERO and p.failed:
            continue
        if p.ret == ZERO:
            s.bad(m, p, 'copy', 'a copy of the value is refused')
            continue
        x = p.st.mem.get(add(p.ret, C(off))) if off is not None else None
        c = [y for y in p.ev if y[0] == 'call' and y[3] == p.ret and y[1].startswith('Object_From')]
        f = ('m', add(m['self'], C(off or 0)), 0, 8, kind)
        if off is not None and (x is not None and x[0] == f or c and c[0][2][0] == f):
            continue
        if p.differ(p.ret, m['self']) is not None or p.ret[0] in ('g', 'alloc'):
            s.bad(m, p, 'copy', 'a copy of the value is another value')


def scalar(w, ob, res, t, field, kind):
    s = Spec(w, ob, res, t)
    m = s.follow('op_eql', ['self', 'other'], pre=lambda m, st: st.mem.__setitem__(add(m['other'], C(w.type_off)), (('g', s.g), 8, ('struct.Object', 0))))
    if m is None:
        res.add('%s.eql' % s.n, s.n, s.n, 'values of this type cannot be compared', ())
        return
    off = fo(m, field)
    a, b = m.field(field), ('m', add(m['other'], C(off)), 0, 8, kind)
    m.e.rng.setdefault(b, m.e.rng.get(a, (None, None)))
    for p in m.paths:
        for v, q in outcomes(p):
            res.count('outcomes')
            if kind == 'i':
                if q.true(('eq', sub(m['self'], m['other']))):
                    if not v:
                        s.bad(m, q, 'eql', 'a value is not equal to itself')
                elif v and q.may(('ne', sub(a, b))):
                    s.bad(m, q, 'eql', 'values that differ are equal')
                elif not v and q.may(('eq', sub(a, b))):
                    s.bad(m, q, 'eql', 'values that are the same are not equal')
            else:
                f = [(k[1], x) for k, x in q.st.tr.items() if k[0] == 'fcmp' and set(k[2:]) == {a, b}]
                eq = [x if k == 'oeq' else not x for k, x in f if k in ('oeq', 'une')]
                if eq:
                    if eq[0] != v:
                        s.bad(m, q, 'eql', 'values that are the same are not equal' if eq[0] else 'values that differ are equal')
                elif f or not any(a in atoms(k) for k in q.st.tr) and not q.st.tr:
                    s.bad(m, q, 'eql', 'the equality of values is decided by something else than that they are the same')
                else:
                    res.note('%s: the comparison is not recognised: not decided' % m.f.name)
    m = s.follow('copy', ['self', 'heap', 'error'])
    if m:
        copies_itself(s, m, off, kind)
    m = s.follow('hash', ['self'], record=('hashbytes',))
    if m:
        hash_of(s, m, off, kind)
    m = s.follow('print', ['self', 'fp'])
    for p in m.paths if m else ():
        t = printed(p)
        if not t or len(t) != 1 or t[0][0] != 'fmt':
            if t is not None and not (t and any(x[0] == 'fmt' and x[2] for x in t)):
                s.bad(m, p, 'text', 'the value is not printed')
            continue
        res.count('outcomes')
        f, args = t[0][1], t[0][2]
        if len(args) != 1 or p.differ(args[0], m.field(field)) and args[0] != m.field(field):
            s.bad(m, p, 'text', 'something else than the value is printed')
        elif kind == 'i' and not INTFMT.match(f):
            s.bad(m, p, 'text', 'the integer is not printed as its decimal digits')
        elif kind == 'f' and not re.match(r'^%[0-9.]*l?[fFgGeE]$', f):
            s.bad(m, p, 'text', 'the number is not printed as one')


def hash_of(s, m, off, kind):
    """equal values have the same hash"""
    f = m.field('val')
    size = 8
    for p in m.paths:
        s.res.count('outcomes')
        zero = None
        for k, x in p.st.tr.items():
            if k[0] == 'fcmp' and set(k[2:]) == {f, ('f', 0.0)} and k[1] in ('oeq', 'ueq', 'une', 'one'):
                zero = x if k[1] in ('oeq', 'ueq') else not x
        c = p.calls('hashbytes')
        inputs = [('ret', p.ret)] if not c or p.ret != c[-1][3] else []
        for x in c:
            a, n = p.res(x[2][0]), p.res(x[2][1])
            if root(a) is not None and root(a)[0] == 'loc':
                v = [y[2] for y in p.kind('held') if y[1] == a]
                inputs.append(('copy', p.res(v[-1])) if v else ('?', None))
                if not isc(n) or n[1] > 8:
                    s.bad(m, p, 'size', 'more than the value is hashed')
                continue
            d = sub(a, m['self'])
            if not isc(d) or not isc(n):
                inputs.append(('?', None))
                continue
            if d[1] < off or d[1] + n[1] > off + size:
                s.bad(m, p, 'size', 'more than the value is hashed, so that equal values may have different hashes')
            inputs.append(('copy', f))
        for how, v in inputs:
            if v is None:
                s.res.note('%s: what is hashed is not followed: not decided' % m.f.name)
                continue
            at = {x for x in atoms(v) | {v} if x[0] in ('s', 'm') and not str(x[2]).startswith('hashbytes')}
            inner = set()
            for x in at:
                if x[0] == 'm':
                    inner |= atoms(x[1])
            top = at - inner
            for x in top:
                if x[0] == 'm' and root(x[1]) == m['self'] and isc(sub(x[1], m['self'])) and off <= sub(x[1], m['self'])[1] < off + size:
                    if kind == 'f' and zero is not False:
                        s.bad(m, p, 'zero', 'zeros of different signs are equal, and may have different hashes')
                elif x == m['self'] or x[0] == 'm' and root(x[1]) == m['self']:
                    s.bad(m, p, 'other', 'the hash depends on something else than the value, so that equal values may have different hashes')


def singles(w, ob, res, t):
    """objects that are equal only to themselves"""
    s = Spec(w, ob, res, t)
    m = s.follow('op_eql', ['self', 'other'], pre=lambda m, st: st.mem.__setitem__(add(m['other'], C(w.type_off)), (('g', s.g), 8, ('struct.Object', 0))))
    if m is None:
        res.add('%s.eql' % s.n, s.n, s.n, 'values of this type cannot be compared', ())
        return
    d = sub(m['self'], m['other'])
    for p in m.paths:
        for v, q in outcomes(p):
            res.count('outcomes')
            if t == 't_bool':
                continue
            if v and t != 't_none' and q.may(('ne', d)):
                s.bad(m, q, 'eql', 'values that differ are equal')
            elif not v and q.may(('eq', d)):
                s.bad(m, q, 'eql', 'a value is not equal to itself')
            elif not v and t == 't_none':
                s.bad(m, q, 'eql', 'none is not equal to none')
    m = s.follow('copy', ['self', 'heap', 'error'])
    if m:
        copies_itself(s, m)
    m = s.follow('hash', ['self'])
    for p in m.paths if m else ():
        res.count('outcomes')
        if t == 't_none' and not isc(p.ret):
            s.bad(m, p, 'hash', 'the hash of none is not always the same')
        elif any(x[0] == 'm' for x in atoms(p.ret) | {p.ret}):
            s.bad(m, p, 'hash', 'the hash depends on something that changes')
    m = s.follow('print', ['self', 'fp'])
    for p in m.paths if m else ():
        x = printed(p)
        if x is None or t == 't_bool':
            continue
        res.count('outcomes')
        f = ''.join(y[1] for y in x if y[0] == 'fmt')
        a = [z for y in x if y[0] == 'fmt' for z in y[2]]
        if t == 't_none' and f != 'none':
            s.bad(m, p, 'text', 'none is printed as something else')
        if t == 't_type':
            want = ('m', add(m['self'], C(w.type_fields['name'])), 0, 8, 'p')
            if f != '%s' or len(a) != 1 or p.differ(a[0], want):
                s.bad(m, p, 'text', 'a type is not printed as its name')


def hashing(w, ob, res, s):
    f = w.p.fn('hashbytes')
    if f is not None:
        m = Method(w, ob, f, None, ['str', 'len:i'], loads=1, turns=5)
        res.count('operations')
        for p in m.paths:
            res.count('outcomes')
            for x in p.kind('load'):
                d = sub(x[1], m['str'])
                if root(x[1]) != m['str']:
                    continue
                if p.may(lt(d, ZERO)) or d != ZERO and p.may(('le', sub(m['len'], d))):
                    s.bad(m, p, 'past', 'bytes past the end of the value are hashed, so that equal values may have different hashes')
            if p.kind('store', 'ext', 'call'):
                s.bad(m, p, 'pure', 'hashing has effects')
            if any(x[0] in ('m', 'g') and root(x[1] if x[0] == 'm' else x) != m['str'] for x in atoms(p.ret) | {p.ret}):
                s.bad(m, p, 'pure', 'the hash depends on something else than the bytes')
    t = Spec(w, ob, res, 't_string')
    m = t.follow('hash', ['self'], record=('hashbytes',), pre=lambda m, st: (m.e.assume(st, ('le', sub(m.field('count'), m.field('bytes'))), True),
                                                                             m.e.assume(st, ('le', scale(m.field('count'), -1)), True)))
    for p in m.paths if m else ():
        res.count('outcomes')
        c = p.calls('hashbytes')
        if not c or p.ret != c[-1][3]:
            continue
        a, n = c[-1][2]
        if p.differ(a, m.field('body')):
            t.bad(m, p, 'hash', 'what is hashed is not the text of the string, so that equal strings may have different hashes')
        elif p.may(lt(m.field('bytes'), strip(n))):
            t.bad(m, p, 'hash', 'more than the text of the string is hashed, so that equal strings may have different hashes')


def values_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    values(w, ob, res)
    res.need('operations', 25)
    res.need('outcomes', 40)
    return res


# ------------------------------------------------------------------- types
def tests(p):
    return p.calls('Object_IsTypeOf')


def one_test(s, m, p, x, item):
    """is the recorded test that of the other object against the item?"""
    if p.differ(x[2][0], item):
        s.bad(m, p, 'item', 'the object is tested against something else than a part of the type')
    if p.differ(x[2][1], m['other']):
        s.bad(m, p, 'object', 'something else than the object is tested')


def types(w, ob, res):
    A = ['self', 'other', 'heap', 'error']
    # a type: the objects that have it
    s = Spec(w, ob, res, 't_type')
    m = s.follow('istypeof', A)
    if m is None:
        res.add('type.istypeof', 'type', 'type', 'types do not test objects', ())
    else:
        d = sub(('m', add(m['other'], C(w.type_off)), 0, 8, 'p'), m['self'])
        for p in m.paths:
            for v, q in outcomes(p):
                res.count('outcomes')
                if v and q.may(('ne', d)):
                    s.bad(m, q, 'yes', 'an object of another type is taken for one of the type')
                elif not v and q.may(('eq', d)):
                    s.bad(m, q, 'no', 'an object is not taken for one of its type')
    s = Spec(w, ob, res, 't_any')
    m = s.follow('istypeof', A)
    for p in m.paths if m else ():
        res.count('outcomes')
        if p.ret != ONE:
            s.bad(m, p, 'no', 'an object may be not of type any')
    if m is None:
        res.add('any.istypeof', 'any', 'any', 'any does not test objects', ())
    # optional types
    s = Spec(w, ob, res, 't_nullable')
    m = s.follow('istypeof', A)
    got = set()
    for p in m.paths if m else ():
        none = is_type(m, p, m['other'], 't_none')
        t = tests(p)
        if none is None and not t:
            s.bad(m, p, 'item', 'the result does not depend on the object')
            continue
        if none is True and (not t or p.ret == ZERO):
            got.add('none')
            if p.ret != ONE and not (t and t[-1][3] == ONE):
                s.bad(m, p, 'none', 'none is not of an optional type')
            continue
        if not t:
            s.bad(m, p, 'item', 'an object is %s an optional type without a test against its item' % ('of' if p.ret == ONE else 'not of'))
            continue
        got.add('item')
        one_test(s, m, p, t[0], m.field('item'))
        if p.ret != t[-1][3] and none is not True:
            s.bad(m, p, 'result', 'the result is not that of the test against the item')
    s.needs(m, ('none', 'item'), got)
    # alternatives
    s = Spec(w, ob, res, 't_sum')
    m = s.follow('istypeof', A)
    got = set()
    for p in m.paths if m else ():
        t = tests(p)
        res.count('outcomes')
        items = [elem_of(m, 'items', k) for k in range(2)]
        for x in t:
            if p.differ(x[2][1], m['other']):
                s.bad(m, p, 'object', 'something else than the object is tested')
        seen = [next((k for k in range(2) if p.same(x[2][0], items[k])), None) for x in t]
        if None in seen:
            s.bad(m, p, 'item', 'the object is tested against something else than the alternatives')
            continue
        yes = {k for k, x in zip(seen, t) if x[3] == ONE}
        if p.ret == ONE:
            got.add('yes')
            if not yes:
                s.bad(m, p, 'yes', 'an object is of a type with alternatives though it is of none of them')
        elif p.ret == ZERO:
            got.add('failed' if p.failed else 'no')
            if yes and not p.failed:
                s.bad(m, p, 'no', 'an object is not of a type with alternatives though it is of one')
            elif not p.failed and set(seen) != {0, 1}:
                s.bad(m, p, 'no', 'an object is refused without a test against each alternative')
        if p.failed and t and t[0][3] == ZERO and len(t) > 1:
            k = [x[0] for x in p.ev]
            if 'failed' in k and k.index('failed') < max(i for i, x in enumerate(p.ev) if x[0] == 'call' and x[1] == 'Object_IsTypeOf'):
                s.bad(m, p, 'after', 'another alternative is tried after a test failed with an error')
    s.needs(m, ('yes', 'no', 'failed'), got)
    for t in ('t_list', 't_map'):
        parts_of(w, ob, res, t, A)
    for t, ctor, args, fields in (('t_nullable', 'Object_NewNullable', ['item'], [('item', 0)]),
                                  ('t_sum', 'Object_NewSum', ['item0', 'item1'], [('items', 0), ('items', 8)])):
        s = Spec(w, ob, res, t)
        m = s.follow(s.fn(ctor), args + ['heap', 'error'])
        for p in m.paths:
            if p.ret == ZERO:
                continue
            res.count('outcomes')
            made(s, m, p, t, [(fo(m, f) + o, m[a]) for (f, o), a in zip(fields, args)])
    s = Spec(w, ob, res, 't_any')
    m = s.follow(s.fn('Object_NewAny'), [])
    for p in m.paths:
        res.count('outcomes')
        g = p.ret[1] if p.ret[0] == 'g' else None
        ini = w.p.globals[g].init if g in w.p.globals else None
        if ini is not None and not any(isinstance(x, tuple) and len(x) > 1 and x[1] == ('g', s.g) for x in ini[1]):
            s.bad(m, p, 'type', 'any is not an object of its type')
    for t, want in (('t_nullable', lambda m: ['?', m.field('item')]), ('t_sum', lambda m: [elem_of(m, 'items', 0), ' | ', elem_of(m, 'items', 1)])):
        s = Spec(w, ob, res, t)
        m = s.follow('print', ['self', 'fp'])
        for p in m.paths if m else ():
            x = printed(p)
            if x is None:
                continue
            res.count('outcomes')
            y = [a[1] if a[0] == 'fmt' else p.res(a[1]) for a in x]
            if y != want(m):
                s.bad(m, p, 'text', 'the type is not printed as %s' % ''.join(a if isinstance(a, str) else '<type>' for a in want(m)))


def elem_of(m, f, k):
    """an item of an array that is part of the object"""
    return ('m', add(m['self'], C(fo(m, f) + 8 * k)), 0, 8, 'p')


def made(s, m, p, t, fields):
    g = type_g(s.w, s.ob, t)
    ty = p.at(add(p.ret, C(s.w.type_off)), 8, 'p')
    if p.differ(ty, ('g', g)):
        s.bad(m, p, 'type', 'the new object is of another type')
    for off, v in fields:
        x = p.st.mem.get(p.res(add(p.ret, C(off))))
        if x is None or p.differ(x[0], v):
            s.bad(m, p, 'field', 'the new object does not hold what it was made of')


def parts_of(w, ob, res, t, A):
    """lists and maps as types: each part of the type tests the part of the object at the same place"""
    s = Spec(w, ob, res, t)
    m = s.follow('istypeof', A)
    if m is None:
        res.add(t + '.istypeof', t, t, 'objects of type %s do not test objects' % t[2:], ())
        return
    got = set()
    count = m.field('count')
    for p in m.paths:
        res.count('outcomes')
        n = known_count(p, count, 4)
        like = is_type(m, p, m['other'], t)
        new = {x[3]: x[2][0] for x in p.calls('Object_FromInt')}
        sel = {}
        for x in p.calls('Object_Select'):
            if p.differ(x[2][0], m['other']):
                s.bad(m, p, 'object', 'an item is taken from something else than the object')
            if x[3] != ZERO:
                sel[x[3]] = x[2][1]
            if x[2][3] == m['error'] and x[3] == ZERO and p.failed:
                s.bad(m, p, 'missing', 'a missing item is an error')

        def place(k):
            """the part k of the type, and is a value the part of the object at its place?"""
            def at(v):
                if t == 't_list':
                    if v in sel:
                        return sel[v] in new and p.same(new[sel[v]], C(k))
                    return p.same(v, ('m', add(('m', add(m['other'], C(fo(m, 'vals'))), 0, 8, 'p'), C(8 * k)), 0, 8, 'p'))
                return v in sel and p.same(sel[v], elem2(m, 'keys', k))
            return at
        T = tests(p)
        if p.ret == ONE:
            if like is False or like is None and p.may(('ne', sub(('m', add(m['other'], C(w.type_off)), 0, 8, 'p'), ('g', s.g)))):
                s.bad(m, p, 'kind', 'an object that is not a %s is of a type that is one' % t[2:])
                continue
            got.add('yes')
            if any(x[3] == ZERO for x in T):
                s.bad(m, p, 'yes', 'an object is of the type though a part of it is not')
            if n is None:
                lo, hi = p.e.bounds(p.st, count)
                if hi <= 0:
                    continue
                if p.may(lt(C(len(T)), count)):
                    s.bad(m, p, 'all', 'an object is of the type though not all parts of it were tested')
                continue
            for k in range(min(n, 4)):
                at = place(k)
                if not any(p.same(x[2][0], elem2(m, 'vals', k)) and at(x[2][1]) for x in T):
                    s.bad(m, p, 'all', 'an object is of the type though its part %d was not tested against that of the type' % k)
                    break
        elif p.ret == ZERO:
            miss = any(x[3] == ZERO for x in p.calls('Object_Select')) or any(x[3] == ZERO for x in p.calls('Object_FromInt'))
            no = any(x[3] == ZERO for x in T)
            if like is False:
                got.add('kind')
            elif miss:
                got.add('missing')
            elif no:
                got.add('no')
            elif not p.true(lt(('m', add(m['other'], C(fo(m, 'count'))), 0, 4, 'i'), count)):
                s.bad(m, p, 'no', 'an object is not of the type though all its parts that were tested are')
            for k, x in enumerate(T):
                if not any(p.same(x[2][0], elem2(m, 'vals', j)) and place(j)(x[2][1]) for j in range(5)):
                    s.bad(m, p, 'place', 'a part of the object is tested against another part of the type')
    s.needs(m, ('yes', 'no', 'kind', 'missing'), got)


def types_of(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    types(w, ob, res)
    res.need('operations', 7)
    res.need('outcomes', 30)
    return res


# ------------------------------------------------------------------- names
def rt(m, base, struct, n, kind=None):
    """a member of a structure at the start"""
    return m.field(n, base, 'struct.' + struct)


def names(w, ob, res):
    class F(Spec):
        def __init__(self, n):
            self.w, self.ob, self.res, self.g, self.n = w, ob, res, None, n
    s = F('names')
    NORMAL = w.p.enums()[0].get('FrameType_NORMAL')
    if NORMAL is None:
        raise Broken('FrameType_NORMAL is gone')

    def prep(m, st):
        fr = rt(m, 'runtime', 'xRuntime', 'frame')
        m.frame = fr
        ty = rt(m, fr, 'NormalFrame', 'base')
        off = [o for n, o, ct, z in ob.members('struct.Frame') if n == 'type'][0]
        st.mem[add(fr, C(off))] = (C(NORMAL), 4, ('struct.Frame', 1))
        m.e.assume(st, ('ne', fr), True)
    # reading a variable
    m = s.follow(s.fn('Runtime_GetVariable'), ['runtime', 'error', 'name', 'value'], pre=prep)
    places = [rt(m, m.frame, 'NormalFrame', 'locals'), rt(m, m.frame, 'NormalFrame', 'closure'), rt(m, 'runtime', 'xRuntime', 'builtins')]
    what = ['the variables of the function', 'those of the functions around it', 'the builtins']
    got = set()
    for p in m.paths:
        key = [x for x in p.calls('Object_FromString')]
        sel = p.calls('Object_Select')
        if key and p.differ(key[0][2][0], m['name']):
            s.bad(m, p, 'name', 'what is looked up is not the name')
        if key and key[0][2][1] != C(-1) and p.differ(key[0][2][1], C(-1)) and 'strlen' not in repr(key[0][2][1]):
            s.bad(m, p, 'name', 'not all of the name is looked up')
        i = 0
        found = None
        wrong = False
        for k, pl in enumerate(places):
            if p.true(('eq', pl)) is True:
                continue
            if i >= len(sel):
                break
            if p.differ(sel[i][2][0], pl):
                s.bad(m, p, 'order', 'a name is not looked up in %s%s' % (what[k], ', after it was not found in what is further inside' if k else ' first'))
                wrong = True
                break
            if key and p.differ(sel[i][2][1], key[0][3]):
                s.bad(m, p, 'key', 'what is looked up is not the name')
            found = sel[i][3] if sel[i][3] != ZERO else None
            i += 1
            if found or p.ev[p.ev.index(sel[i - 1]) + 1:][:1] == (('failed',),):
                break
        if wrong:
            continue
        if i < len(sel):
            s.bad(m, p, 'on', 'a name is looked up further out though it was found%s' % (' to be in error' if p.failed else ''))
            continue
        for k, pl in enumerate(places):
            if found is None and not p.failed and p.true(('eq', pl)) is not True and not any(p.same(x[2][0], pl) for x in sel):
                s.bad(m, p, 'skip', 'a name is not looked up in %s' % what[k])
                break
        if p.ret == ZERO:
            got.add('fails')
            if not p.failed:
                s.bad(m, p, 'fails', 'reading a variable fails though nothing failed')
            continue
        if p.failed:
            s.bad(m, p, 'failed', 'reading a variable succeeds though looking it up failed')
            continue
        x = p.st.mem.get(m['value'])
        got.add('found' if found else 'absent')
        if x is None or p.differ(x[0], found or ZERO):
            s.bad(m, p, 'value', 'the value of the variable is not what was found')
    s.needs(m, ('found', 'absent', 'fails'), got)
    # writing a variable
    m = s.follow(s.fn('Runtime_SetVariable'), ['runtime', 'error', 'name', 'value'], pre=prep)
    got = set()
    for p in m.paths:
        ins = p.calls('Object_Insert')
        key = p.calls('Object_FromString')
        if not ins:
            if p.ret != ZERO:
                s.bad(m, p, 'lost', 'assigning a variable stores nothing')
            continue
        got.add('stored' if p.ret != ZERO else 'fails')
        R = ins[-1][2]
        if len(ins) > 1 or p.differ(R[0], rt(m, m.frame, 'NormalFrame', 'locals')):
            s.bad(m, p, 'where', 'an assigned variable is not stored in the variables of the function')
        if not key or p.differ(key[-1][2][0], m['name']) or p.differ(R[1], key[-1][3]):
            s.bad(m, p, 'name', 'an assigned variable is not stored under its name')
        if p.differ(R[2], m['value']):
            s.bad(m, p, 'value', 'what is stored is not the value')
        if ins[-1][3] != p.ret and not (isc(p.ret) and isc(ins[-1][3])):
            pass
        elif (p.ret == ZERO) != (ins[-1][3] == ZERO):
            s.bad(m, p, 'result', 'a failed assignment is taken for one that succeeded, or the other way round')
    s.needs(m, ('stored', 'fails'), got)
    # closures
    c = Spec(w, ob, res, 't_closure')
    m = c.follow('select', ['self', 'key', 'heap', 'error'])
    got = set()
    if m is None:
        res.add('closure.select', 'closure', 'closure', 'closures cannot be looked into', ())
    for p in m.paths if m else ():
        sel = p.calls('Object_Select')
        vars_, prev = m.field('vars'), m.field('prev')
        for x in sel:
            if p.differ(x[2][1], m['key']):
                c.bad(m, p, 'key', 'what is looked up is not the name')
        if not sel or p.differ(sel[0][2][0], vars_):
            c.bad(m, p, 'first', 'a name is not looked up in the variables of the innermost function first')
            continue
        if len(sel) > 1 and (sel[0][3] != ZERO or p.differ(sel[1][2][0], prev)):
            c.bad(m, p, 'second', 'a name is not looked up further out exactly when it is not found')
            continue
        if len(sel) > 1 and p.ev.index(sel[1]) > min([k for k, x in enumerate(p.ev) if x[0] == 'failed'] or [1 << 30]):
            c.bad(m, p, 'error', 'a name is looked up further out after an error')
        if len(sel) == 1 and sel[0][3] == ZERO and not p.failed:
            got.add('outermost')
            if p.true(('eq', prev)) is not True and p.may(('ne', prev)):
                c.bad(m, p, 'out', 'a name that is not found is not looked up further out')
        if p.ret != sel[-1][3] and p.differ(p.ret, sel[-1][3]) is not False:
            c.bad(m, p, 'result', 'the result is not what was found')
        got.add('inner' if len(sel) == 1 and sel[0][3] != ZERO else 'outer' if len(sel) > 1 else 'none')
    if m:
        c.needs(m, ('inner', 'outer', 'outermost'), got)
    m = c.follow(c.fn('Object_NewClosure'), ['parent', 'new_map', 'heap', 'error'])
    for p in m.paths:
        if p.ret != ZERO:
            res.count('outcomes')
            made(c, m, p, 't_closure', [(fo(m, 'prev'), m['parent']), (fo(m, 'vars'), m['new_map'])])
    m = s.follow(s.fn('Runtime_plugBuiltins'), ['runtime', 'object', 'error'])
    old = rt(m, 'runtime', 'xRuntime', 'builtins')
    got = set()
    for p in m.paths:
        now = p.at(old[1], 8, 'p')
        cl = p.calls('Object_NewClosure')
        if p.ret == ZERO:
            if p.differ(now, old):
                s.bad(m, p, 'plug', 'the builtins change though they could not be extended')
            continue
        if p.true(('eq', old)) is True:
            got.add('first')
            if p.differ(now, m['object']):
                s.bad(m, p, 'plug', 'the builtins are not those given')
        else:
            got.add('more')
            if not cl or p.differ(now, cl[-1][3]):
                s.bad(m, p, 'plug', 'builtins added later are lost, or replace the earlier ones')
            elif {p.res(cl[-1][2][0]), p.res(cl[-1][2][1])} != {m['object'], p.res(old)}:
                s.bad(m, p, 'plug', 'the builtins are not extended by those given')
    s.needs(m, ('first', 'more'), got)
    staticmap(w, ob, res)


def staticmap(w, ob, res):
    s = Spec(w, ob, res, 't_staticmap')
    kinds = dict(w.p.enums()[1].get('StaticMapSlotKind') or {})
    d = w.p.di_struct('StaticMapSlot')
    if not kinds or not d:
        raise Broken('StaticMapSlot is gone')
    off = {n: o for n, o, ct, z in d if n}
    size = w.p.size(('struct', [x for x in w.p.structs if x.split('@')[0] == 'struct.StaticMapSlot'][0]))
    val = min(o for n, o, ct, z in d if o > off['kind'])
    num = max(o for n, o, ct, z in d)
    m = s.follow('select', ['self', 'key', 'heap', 'error'])
    if m is None:
        res.add('staticmap.select', s.n, s.n, 'static maps cannot be looked into', ())
        return
    slots = m.field('slots')
    body = None
    for n, o, ct, z in ob.members(sorted(ob.of[type_g(w, ob, 't_string')])[0]):
        if n == 'body':
            body = ('m', add(m['key'], C(o)), 0, 8, 'p')
    ctor = {'SM_BOOL': 'Object_FromBool', 'SM_INT': 'Object_FromInt', 'SM_FLOAT': 'Object_FromFloat', 'SM_FUNCT': 'Object_FromNativeFunction', 'SM_STRING': 'Object_FromString',
            'SM_SMAP': 'Object_NewStaticMap', 'SM_NONE': 'Object_NewNone'}
    seen = set()
    for p in m.paths:
        cm = p.kind('cmp')
        at = []
        ok = True
        for x in cm:
            R = [y for y in x[2][:2] if p.res(y) != p.res(body)]
            a = p.res(R[0]) if len(R) == 1 else None
            if x[1] != 'strcmp' or a is None or a[0] != 'm':
                ok = False
                break
            k = sub(a[1], slots)
            if not isc(k) or (k[1] - off['name']) % size:
                s.bad(m, p, 'name', 'the name looked for is compared with something else than the names of the map')
                ok = False
                break
            at.append((k[1] - off['name']) // size)
        if not ok:
            continue
        if at != list(range(len(at))):
            s.bad(m, p, 'order', 'not all names of the map are compared with the one looked for')
            continue
        hit = [k for k, x in zip(at, cm) if p.true(('eq', x[3])) is True]
        if not hit:
            if p.ret != ZERO:
                s.bad(m, p, 'found', 'something is found though no name is the one looked for')
            elif p.failed:
                pass
            elif cm and is_type(m, p, m['key'], 't_string') is True:
                nxt = ('m', add(slots, C(size * len(at) + off['name'])), 0, 8, 'p')
                if p.true(('eq', nxt)) is not True and p.may(('ne', nxt)):
                    s.bad(m, p, 'end', 'the search stops before the end of the map')
            continue
        if hit != [at[-1]]:
            s.bad(m, p, 'on', 'the search goes on after the name was found')
            continue
        a = add(slots, C(size * hit[0]))
        kind = ('m', add(a, C(off['kind'])), 0, 4, 'i')
        ks = [n for n, v in kinds.items() if p.case(('eq', add(p.res(kind), C(-v)))) is not None]
        if len(ks) != 1:
            if not ks:
                continue
            if len(ks) == len(kinds):
                if any(j != hit[0] and len([n for n, v in kinds.items() if p.case(
                        ('eq', add(p.res(('m', add(slots, C(size * j + off['kind'])), 0, 4, 'i')), C(-v)))) is not None]) == 1 for j in range(5)):
                    s.bad(m, p, 'other', 'what is given is another member than the one whose name was found')
                    continue
                s.res.note('%s: what is returned does not depend on the kind as far as it is understood: not decided' % m.f.name)
                continue
        for kn in ks:
            v = add(a, C(val))
            c = [x for x in p.ev if x[0] == 'call' and x[1].startswith('Object_') and x[1] not in ('Object_GetString',)]
            if kn in ctor:
                if p.ret == ZERO and p.failed:
                    continue
                if not c or c[-1][1] != ctor[kn] or p.ret != c[-1][3]:
                    s.bad(m, p, kn, 'a member of kind %s is not given as what it is' % kn)
                    continue
                R = c[-1][2]
                arg = R[1] if kn == 'SM_FUNCT' else R[0]
                if kn != 'SM_NONE':
                    x = arg
                    while x[0] in ('ne', 'eq') and len(x) == 2 or x[0] == 'op' and x[1] in ('zext', 'sext', 'trunc'):
                        x = x[-1]
                    if x[0] == 'm' and x[1] != v and not lost(x):
                        s.bad(m, p, kn, 'a member of kind %s is made of something else than its value' % kn)
                n = R[2] if kn == 'SM_FUNCT' else R[1] if kn == 'SM_STRING' else None
                if n is not None and not (n[0] == 'm' and n[1] == add(a, C(num))) and not lost(n):
                    s.bad(m, p, kn, 'a member of kind %s is made with another %s than its own' % (kn, 'number of arguments' if kn == 'SM_FUNCT' else 'length'))
                if kn in ('SM_FUNCT', 'SM_SMAP'):
                    r = R[0] if kn == 'SM_FUNCT' else R[2]
                    if p.differ(r, m.field('runt')):
                        s.bad(m, p, kn, 'a member of kind %s is given another runtime' % kn)
            elif kn in ('SM_TYPE', 'SM_OBJECT'):
                if not (p.ret[0] == 'm' and p.ret[1] == v) and not lost(p.ret):
                    s.bad(m, p, kn, 'a member of kind %s is not given as what it is' % kn)
            else:
                continue
            seen.add(kn)
    for kn in ctor:
        if kn not in seen:
            s.res.note('no path of %s gives a member of kind %s' % (m.f.name, kn))
    s.res.count('kinds of members', len(seen))
    m = s.follow(s.fn('Object_NewStaticMap'), ['slots', 'initfn', 'runt', 'error'])
    for p in m.paths:
        if p.ret != ZERO:
            s.res.count('outcomes')
            made(s, m, p, 't_staticmap', [(fo(m, 'runt'), m['runt']), (fo(m, 'slots'), m['slots'])])


def names_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    names(w, ob, res)
    res.need('operations', 5)
    res.need('outcomes', 8)
    return res

"""What each instruction does: results, order of operands, stack effect."""
from instrs import *
from core import Broken, pmap

TYPES = ('int', 'float', 'bool', 'other')
IS = {'Object_IsInt': 'int', 'Object_IsFloat': 'float', 'Object_IsBool': 'bool'}
GET = {'Object_GetInt': ('int', 'i'), 'Object_GetFloat': ('float', 'f'), 'Object_GetBool': ('bool', 'i')}
NEW = {'Object_FromInt': 'int', 'Object_FromFloat': 'float', 'Object_FromBool': 'bool', 'Object_FromString': 'string',
       'Object_NewNone': 'none', 'Object_NewList': 'list', 'Object_NewMap': 'map', 'Object_NewNullable': 'nullable',
       'Object_NewSum': 'sum', 'Object_NewClosure': 'closure', 'Object_FromNojaFunction': 'function'}


def tok(n):
    return ('s', 0, 'tok:' + n, (), '', 'p')


class VMState(tuple):
    pass


# prop: (depth popped, pushed tokens, index, effects, types, errors)
P0 = (0, (), None, (), (), None)


class VMHooks(NojaHooks):
    def __init__(self, w, tab, row, args, opvals):
        super().__init__(w)
        self.boundary = frozenset()
        self.tab, self.row, self.opvals = tab, row, opvals
        self.stray = []
        self.made = {}
        self.arith = []
        self.entry = None
        self.opsat = None
        self.undef = []

    def on_undef(self, e, fr, st, ins, addr):
        if self.opsat is None:
            return
        k = sub(e.res(st, addr), self.opsat)
        if isc(k) and 0 <= k[1] < 4 * self.tab.op_size:
            self.undef.append((ins, k[1] // self.tab.op_size))

    def tok(self, e, n):
        a = tok(n)
        e.rng[a] = (4096, 2 ** 63)
        return a

    def prop_atoms(self, p):
        out = set()

        def go(x):
            if isinstance(x, tuple):
                if x and x[0] in ('s', 'm', 'h', 'alloc', 'loc', 'g', 'lin', 'op', 'le', 'eq', 'ne', 'not', 'fcmp', 'and', 'or', 'ult', 'ule'):
                    try:
                        out.update(atoms(x))
                    except Exception:
                        pass
                for y in x:
                    go(y)
        go(p)
        return out

    def typ(self, e, st, t):
        x = dict(st.prop[4])
        return x.get(t)

    def settyp(self, st, t, k):
        p = st.prop
        d = dict(p[4])
        d[t] = k
        st.prop = p[:4] + (tuple(sorted(d.items(), key=okey)),) + p[5:]

    def stack(self, st, n):
        """n-th from the top, None if it is below what was there at the start"""
        d, pu = st.prop[0], st.prop[1]
        if n < len(pu):
            return pu[len(pu) - 1 - n]
        return ('depth', n - len(pu) + d)

    def pop(self, st, n):
        p = st.prop
        d, pu = p[0], p[1]
        k = min(n, len(pu))
        st.prop = (d + n - k, pu[:len(pu) - k]) + p[2:]

    def push(self, st, t):
        p = st.prop
        st.prop = (p[0], p[1] + (t,)) + p[2:]

    def effect(self, st, *a):
        p = st.prop
        st.prop = p[:3] + (p[3] + (a,),) + p[4:]

    def sym(self, e, name, kind='p', lo=-2 ** 63, hi=2 ** 63 - 1):
        a = ('s', 0, name, (), '', kind)
        e.rng[a] = (4096, 2 ** 63) if kind == 'p' else (lo, hi)
        return a

    def fresh(self, e, fr, st, ins, what):
        """a new object"""
        a = ('s', fr.act, (ins.res or '%s.%d' % (ins.blk, ins.idx)) + ':' + what, e.it(fr, st, ins.blk), '', 'p')
        e.rng[a] = (4096, 2 ** 63)
        return a

    def reported(self, e, fr, st, ins, args):
        p = st.prop
        at = e.p.where(ins)
        st.prop = p[:5] + ((p[5] or ()) + (at,),)

    def on_bin(self, e, fr, st, ins, a, b):
        if ins.op in ('sdiv', 'srem', 'udiv', 'urem'):
            b = e.res(st, b)
            z = e.truth(st, ('eq', b))
            m = e.truth(st, ('eq', add(b, ONE)))
            self.arith.append((ins, z, m, a, b))

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else (f.name if f is not None else None)
        if n is None:
            return None
        R = lambda k: e.res(st, args[k])
        if n == 'Executable_Fetch':
            self.opsat = e.res(st, args[3])
            self.put(e, fr, st, ins, args[2], C(self.tab.code['OPCODE_' + self.row.name]), 4)
            for k, t in enumerate(self.row.types):
                b = add(args[3], C(k * self.tab.op_size))
                self.put(e, fr, st, ins, add(b, C(self.tab.op_type)), C(self.tab.otype[t]), 4)
                self.put(e, fr, st, ins, add(b, C(self.tab.op_val)), self.opvals[k], 8)
            self.put(e, fr, st, ins, args[4], C(len(self.row.types)), 4)
            return [(st, ONE)]
        if n == 'Runtime_GetCurrentIndex':
            return [(st, self.sym(e, 'index', 'i', 0, 2 ** 31 - 2))]
        if n == 'Runtime_GetHeap':
            return [(st, self.sym(e, 'heap'))]
        if n in ('Runtime_GetCurrentExecutable', 'Runtime_GetLocals', 'Runtime_GetClosure'):
            return [(st, self.sym(e, n))]
        if n == 'Object_GetNoneType':
            return [(st, self.sym(e, 'nonetype'))]
        if n == 'Runtime_SetInstructionIndex':
            p = st.prop
            st.prop = p[:2] + (R(1),) + p[3:]
            return [(st, None)]
        if n == 'Runtime_Push':
            self.push(st, R(2))
            return [(st, ONE)]
        if n == 'Runtime_Pop':
            c = R(3)
            if not isc(c):
                q = R(2)
                self.effect(st, 'pop', c, q)
                return [(st, ONE)]
            if args[2] != ZERO:
                for k in range(c[1]):
                    self.put(e, fr, st, ins, add(args[2], C(8 * k)), self.token(e, st, k), 8)
            self.pop(st, c[1])
            return [(st, ONE)]
        if n == 'Runtime_Top':
            c = R(1)
            if not isc(c) or c[1] > 0:
                self.stray.append((ins, 'an unknown depth of the stack is read'))
                return []
            return [(st, self.token(e, st, -c[1]))]
        if n in IS:
            return self.istype(e, fr, st, ins, R(0), IS[n])
        if n in GET:
            k, kind = GET[n]
            t = R(0)
            v = ('s', 0, '%s of %r' % (k, self.name(t)), (), '', kind)
            e.rng[v] = (0, 1) if k == 'bool' else (-2 ** 63, 2 ** 63 - 1)
            self.effect_get(st, k, t)
            return [(st, ('ne', v) if k == 'bool' else v)]
        if n in NEW:
            return self.new(e, fr, st, ins, n, args)
        if n == 'Object_GetType':
            return [(st, self.sym(e, 'type of %r' % (self.name(R(0)),)))]
        if n == 'Object_Select':
            err = R(3)
            bad = st.clone()
            v = self.fresh(e, fr, st, ins, 'selected')
            self.effect(st, 'select', R(0), R(1), v)
            self.effect(bad, 'select', R(0), R(1), ZERO)
            self.fail(e, fr, bad, ins, err)
            return [(st, v), (bad, ZERO)]
        if n == 'Object_Insert':
            self.effect(st, 'insert', R(0), R(1), R(2))
            bad = st.clone()
            self.fail(e, fr, bad, ins, R(4))
            return [(st, ONE), (bad, ZERO)]
        if n == 'Object_Compare':
            v = ('s', 0, 'equal', (), '', 'i')
            e.rng[v] = (0, 1)
            self.effect(st, 'compare', R(0), R(1))
            bad = st.clone()
            self.fail(e, fr, bad, ins, R(2))
            return [(st, ('ne', v)), (bad, ZERO)]
        if n == 'Object_Call':
            argc = R(2)
            if not isc(argc):
                self.stray.append((ins, 'the number of arguments is not determined'))
                return []
            av = tuple(e.res(st, e.load(fr, st, ins, add(args[1], C(8 * k)), PTR, None)) for k in range(argc[1]))
            out = []
            for r in range(5):
                s = st.clone()
                for k in range(r):
                    self.put(e, fr, s, ins, add(args[3], C(8 * k)), self.sym(e, 'ret%d' % k), 8)
                self.effect(s, 'call', R(0), av, r)
                out.append((s, C(r)))
            bad = st
            self.effect(bad, 'call', R(0), av, -1)
            self.fail(e, fr, bad, ins, R(5))
            return out + [(bad, C(-1))]
        if n == 'Object_IsTypeOf':
            self.effect(st, 'istypeof', R(0), R(1))
            s2 = st.clone()
            s3 = st.clone()
            self.fail(e, fr, s3, ins, R(3))
            self.effect(s2, 'not a member')
            return [(st, ONE), (s2, ZERO), (s3, ZERO)]
        if n == 'Runtime_GetVariable':
            v = self.fresh(e, fr, st, ins, 'variable')
            s2, s3 = st.clone(), st.clone()
            self.effect(st, 'get variable', R(2), v)
            self.effect(s2, 'get variable', R(2), ZERO)
            self.put(e, fr, st, ins, args[3], v, 8)
            self.put(e, fr, s2, ins, args[3], ZERO, 8)
            self.fail(e, fr, s3, ins, R(1))
            return [(st, ONE), (s2, ONE), (s3, ZERO)]
        if n == 'Runtime_SetVariable':
            self.effect(st, 'set variable', R(2), R(3))
            bad = st.clone()
            self.fail(e, fr, bad, ins, R(1))
            return [(st, ONE), (bad, ZERO)]
        if n in ('Object_Print', 'fclose', 'Runtime_GetTimingTable'):
            return [(st, e.sym(fr, st, ins, ins.ty) if ins.res else None)]
        return None

    def effect_get(self, st, k, t):
        """a value is taken out of an object not known to have it"""
        if dict(st.prop[4]).get(t) != k:
            self.effect(st, 'raw', k, t)

    def put(self, e, fr, st, ins, a, v, size):
        e.put(fr, st, ins, e.res(st, a), e.res(st, v), size, ('raw', 0))

    def token(self, e, st, n):
        t = self.stack(st, n)
        return self.tok(e, 'o%d' % t[1]) if t[0] == 'depth' else t

    def name(self, t):
        return t[2] if t[0] == 's' else t

    def fail(self, e, fr, st, ins, err):
        """a callee failed: the error it reported is not this function's"""
        own = e.res(st, self.entry)
        if err == own:
            p = st.prop
            st.prop = p[:5] + ((p[5] or ()) + ('callee',),)
        self.set_error(e, fr, st, ins, err)

    def istype(self, e, fr, st, ins, t, k):
        x = self.typ(e, st, t)
        if x is not None and not x.startswith('!'):
            return [(st, ONE if x == k else ZERO)]
        no = set(x[1:].split(',')) if x else set()
        if k in no:
            return [(st, ZERO)]
        s2 = st.clone()
        self.settyp(st, t, k)
        self.settyp(s2, t, '!' + ','.join(sorted(no | {k})))
        return [(st, ONE), (s2, ZERO)]

    def new(self, e, fr, st, ins, n, args):
        k = NEW[n]
        R = lambda j: e.res(st, args[j])
        t = self.fresh(e, fr, st, ins, k)
        what = {'Object_FromInt': 1, 'Object_FromFloat': 1, 'Object_FromBool': 1, 'Object_FromString': 2, 'Object_NewNone': 0,
                'Object_NewList': 1, 'Object_NewMap': 1, 'Object_NewNullable': 1, 'Object_NewSum': 2, 'Object_NewClosure': 2}.get(n)
        vals = tuple(R(j) for j in range(what)) if what is not None else (R(1), R(2), R(3), R(4), R(5))
        bad = st.clone()
        ct = e.p.param_ctypes(e.p.functions[ins.x[1]])[1:] if ins.x[0] == 'g' else []
        self.effect(st, 'new', k, vals, t)
        self.settyp(st, t, k)
        if 'Error*' in ct:
            self.fail(e, fr, bad, ins, R(ct.index('Error*')))
            return [(st, t), (bad, ZERO)]
        return [(st, t)]


class Out:
    """what happened on one path"""
    __slots__ = ('ret', 'depth', 'pushed', 'index', 'effects', 'types', 'errs', 'st', 'new')

    def __init__(self, st, ret):
        self.st, self.ret = st, ret
        self.depth, self.pushed, self.index, self.effects, ty, self.errs = st.prop
        self.types = dict(ty)
        self.new = {x[3]: x for x in self.effects if x[0] == 'new'}

    def stack(self, n=6):
        """the top n values after the instruction"""
        s = [tok('o%d' % k) for k in range(self.depth, self.depth + n)]
        s = s[::-1] + list(self.pushed)
        return s[::-1][:n]


class VM:
    def __init__(self, w):
        self.w = w
        p = w.p
        self.tab = InstrTable(w)
        self.f = self.find()

    def find(self):
        """the innermost function that fetches an instruction and sets the next one's index"""
        p = self.w.p
        calls = {f.gid: {i.x[1] for i in f.instrs() if i.op == 'call' and i.x[0] == 'g'} for f in p.functions.values()}
        reach = {}

        def names(g):
            seen, todo = set(), [g]
            while todo:
                x = todo.pop()
                for y in calls.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            return seen
        for g in calls:
            reach[g] = names(g)
        want = [{k for k in p.functions if k.split(':')[-1] == n} for n in ('Executable_Fetch', 'Runtime_SetInstructionIndex')]
        c = [g for g in calls if all(reach[g] & x for x in want) and self.w.err_param(p.functions[g]) is not None]
        c = [g for g in c if not any(h in c and h != g and g not in reach[h] for h in reach[g])]
        c = [g for g in c if any(i.op == 'switch' and len(i.x[1]) > 20 for k in reach[g] | {g} if k in p.functions
                                 for i in p.functions[k].instrs())]
        if len(c) != 1:
            raise Broken('the function that runs one instruction was not found')
        return p.functions[c[0]]

    def run(self, row, opvals):
        w = self.w
        h = VMHooks(w, self.tab, row, None, opvals)
        e = Unroll(w.p, w.eff, h)
        e.o.turns = 40
        st = St()
        st.prop = P0
        f = self.f
        fr = Frame(f, e.act(0, f.gid, ()), e.cfg(f), 0, None, None)
        args = e.params(fr)
        for (t, n), a in zip(f.params, args):
            if t[0] == 'ptr':
                e.rng[a] = (4096, 2 ** 63)
        k = w.err_param(f)
        h.entry = args[k]
        h.set_error(e, fr, st, None, args[k], ZERO)
        for v in opvals:
            if v[0] == 's':
                e.rng.setdefault(v, (-2 ** 63, 2 ** 63 - 1))
        outs = [Out(s, v) for s, v in e.run(fr, args, st)]
        return h, e, outs


def operand(n, kind='i'):
    return ('s', 0, 'operand%d' % n, (), '', kind)

"""What the compiler emits for each construct, against what the construct means.

The code generator is followed on one construct at a time; the parts of the
construct (operands, branches, bodies) are abstract nodes of which only the
class (expression or statement) is known.  Emitting such a part is a single
step, whose effect is the induction hypothesis: an expression leaves one value
on the stack, a statement none.  What comes out is a template: instructions,
parts and resolved jump targets.  The template is then walked for every
combination of outcomes of the tests in it, and compared with the meaning of
the construct."""
from instrs import *
from core import Broken, pmap


class Bad(Exception):
    pass


class More(Exception):
    pass


class Unknown(Exception):
    pass


# ---------------------------------------------------------------- where the generator is
class Gen:
    def __init__(self, w):
        self.w = w
        p = w.p
        self.callees = {}
        for f in p.functions.values():
            self.callees[f.gid] = {i.x[1] for i in f.instrs() if i.op == 'call' and i.x[0] == 'g' and i.x[1] in p.functions}
        roots = [f for f in p.functions.values() if f.name == 'codegen']
        if not roots:
            raise Broken('codegen() was not found')
        self.codegen = roots[0]
        reach = self.reach(self.codegen.gid)
        self.nk = [o for n, o, ct, sz in p.di_struct('Node') if n == 'kind'][0]
        self.ek = [o for n, o, ct, sz in p.di_struct('ExprNode') if n == 'kind'][0]
        self.disp = {}
        for g in sorted(reach):
            f = p.functions[g]
            k = self.dispatches(f)
            if k is not None and f.gid in self.reach_from_callees(f.gid):
                self.disp[g] = k
        d = [g for g, (k, o) in self.disp.items() if o == self.nk]
        if not d:
            d = [f.gid for f in p.functions.values() if f.name == 'emitInstrForNode']
            for g in d:
                ct = p.param_ctypes(p.functions[g])[1:]
                self.disp[g] = (ct.index('Node*'), self.nk)
        if not d:
            raise Broken('the function that compiles a node was not found')
        d.sort(key=lambda g: (p.functions[g].name != 'emitInstrForNode', g))
        self.D = p.functions[d[0]]

    def reach(self, g):
        seen, todo = set(), [g]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += self.callees.get(x, ())
        return seen

    def reach_from_callees(self, g):
        out = set()
        for c in self.callees.get(g, ()):
            out |= self.reach(c)
        return out

    def dispatches(self, f):
        """(parameter, offset) whose kind field a big switch of f selects on"""
        defs = self.w.eff.defs(f)
        for i in f.instrs():
            if i.op != 'switch' or len(i.x[1]) < 6 or i.a[0][1][0] != 'l':
                continue
            d = defs.get(i.a[0][1][1])
            if d is None or d.op != 'load':
                continue
            off = 0
            v = d.a[0][1] if d.a else None
            while v is not None and v[0] == 'l':
                k = self.w.eff.param_index(f, v[1])
                if k is not None:
                    return (k, off)
                g = defs.get(v[1])
                if g is None or g.op != 'gep' or any(x[1][0] != 'c' for x in g.a[1:]):
                    break
                t = g.x
                off += self.w.p.size(t) * g.a[1][1][1]
                for x in g.a[2:]:
                    if t[0] != 'struct':
                        break
                    off += self.w.p.offset(t, x[1][1])
                    t = self.w.p.fields(t)[x[1][1]] if hasattr(self.w.p, 'fields') else None
                v = g.a[0][1]
        return None


# ---------------------------------------------------------------- building trees
class Tree:
    """memory of a tree described by nested tuples (see schemas below)"""

    def __init__(self, e, st, w):
        self.e, self.st, self.w = e, st, w
        vals, groups = w.p.enums()
        self.vals = vals
        self.n = 0
        self.leaf = {}          # address -> (class, name)
        self.names = {}         # symbol -> text
        self.kinds = [vals[n] for n in groups['ExprKind']] if not isinstance(groups['ExprKind'], dict) else list(groups['ExprKind'].values())
        self.nkinds = [vals[n] for n in groups['NodeKind']] if not isinstance(groups['NodeKind'], dict) else list(groups['NodeKind'].values())

    def k(self, name):
        if name not in self.vals:
            raise Broken('%s does not exist' % name)
        return C(self.vals[name])

    def sym(self, name, kind='i', lo=-2 ** 31, hi=2 ** 31 - 1):
        a = ('s', 0, name, (), '', kind)
        self.e.rng[a] = (lo, hi) if kind != 'p' else (4096, 2 ** 63)
        return a

    def put(self, base, struct, path, val, size):
        off = 0
        s = struct
        for n in path.split('.'):
            m = [x for x in (self.w.p.di_struct(s) or ()) if x[0] == n]
            if not m:
                raise Broken('%s has no member %s' % (s, n))
            off += m[0][1]
            ct, sz = m[0][2], m[0][3]
            s = ct
        if sz != size:
            raise Broken('%s.%s is %d bytes' % (struct, path, sz))
        self.st.mem[add(base, C(off))] = (val, size, ('raw', 0))

    def new(self, struct, kind, next=ZERO):
        self.n += 1
        a = ('alloc', 0, 'node%d' % self.n, ())
        self.st.mem[('any', a)] = (ONE, 0, None)
        del self.st.mem[('any', a)]
        pre = self.base(struct)
        self.put(a, struct, pre + 'kind', kind, 4)
        self.put(a, struct, pre + 'next', next, 8)
        self.put(a, struct, pre + 'offset', self.sym('off%d' % self.n, lo=0), 4)
        self.put(a, struct, pre + 'length', self.sym('len%d' % self.n, lo=0), 4)
        return a

    def base(self, struct):
        pre, s = '', struct
        while s != 'Node':
            m = (self.w.p.di_struct(s) or ())
            if not m or m[0][0] != 'base':
                raise Broken('%s does not begin with its base' % s)
            pre += 'base.'
            s = m[0][2]
        return pre

    def expr(self, struct, ek, next=ZERO):
        a = self.new(struct, self.k('NODE_EXPR'), next)
        pre = self.base(struct)[:-len('base.')] if struct != 'ExprNode' else ''
        self.put(a, struct, pre + 'kind', ek, 4)
        return a

    def chain(self, items, next=ZERO):
        """items linked through next, first address"""
        for t in reversed(items):
            next = self.build(t, next)
        return next

    def text(self, name):
        a = self.sym('text:' + name, 'p')
        self.names[a] = name
        return a

    def build(self, t, next=ZERO):
        k = t[0]
        if k == 'x':
            a = self.new('ExprNode', self.k('NODE_EXPR'), next)
            s = self.sym('kind:' + t[1], lo=min(self.kinds), hi=max(self.kinds))
            self.put(a, 'ExprNode', 'kind', s, 4)
            for x in t[2] if len(t) > 2 else ():
                self.e.assume(self.st, ('ne', sub(s, self.k(x))), True)
            self.leaf[a] = ('x', t[1])
            return a
        if k == 's':
            s = self.sym('kind:' + t[1], lo=min(self.nkinds), hi=max(self.nkinds))
            a = self.new('Node', s, next)
            for x in ('NODE_EXPR', 'NODE_ARG'):
                self.e.assume(self.st, ('ne', sub(s, self.k(x))), True)
            self.leaf[a] = ('s', t[1])
            return a
        if k in ('op', 'and', 'or', 'assign', 'pair'):
            name = {'and': 'EXPR_AND', 'or': 'EXPR_OR', 'assign': 'EXPR_ASS', 'pair': 'EXPR_PAIR'}.get(k) or 'EXPR_' + t[1]
            ops = t[2] if k == 'op' else t[1]
            a = self.expr('OperExprNode', self.k(name), next)
            self.put(a, 'OperExprNode', 'head', self.chain(ops), 8)
            self.put(a, 'OperExprNode', 'count', C(len(ops)), 4)
            return a
        if k == 'call':
            a = self.expr('CallExprNode', self.k('EXPR_CALL'), next)
            self.put(a, 'CallExprNode', 'func', self.build(t[1]), 8)
            self.put(a, 'CallExprNode', 'argv', self.chain(t[2]), 8)
            self.put(a, 'CallExprNode', 'argc', C(len(t[2])), 4)
            return a
        if k in ('select', 'arw'):
            a = self.expr('IndexSelectionExprNode', self.k('EXPR_SELECT' if k == 'select' else 'EXPR_ARW'), next)
            self.put(a, 'IndexSelectionExprNode', 'set', self.build(t[1]), 8)
            self.put(a, 'IndexSelectionExprNode', 'idx', self.build(t[2]), 8)
            return a
        if k == 'list':
            a = self.expr('ListExprNode', self.k('EXPR_LIST'), next)
            self.put(a, 'ListExprNode', 'items', self.chain(t[1]), 8)
            self.put(a, 'ListExprNode', 'itemc', C(len(t[1])), 4)
            return a
        if k == 'map':
            a = self.expr('MapExprNode', self.k('EXPR_MAP'), next)
            self.put(a, 'MapExprNode', 'keys', self.chain([x for x, y in t[1]]), 8)
            self.put(a, 'MapExprNode', 'items', self.chain([y for x, y in t[1]]), 8)
            self.put(a, 'MapExprNode', 'itemc', C(len(t[1])), 4)
            return a
        if k == 'lit':
            if t[1] in ('NONE', 'TRUE', 'FALSE'):
                return self.expr('ExprNode', self.k('EXPR_' + t[1]), next)
            st = {'INT': 'IntExprNode', 'FLOAT': 'FloatExprNode', 'STRING': 'StringExprNode', 'IDENT': 'IdentExprNode'}[t[1]]
            a = self.expr(st, self.k('EXPR_' + t[1]), next)
            v = self.text(t[2]) if t[1] in ('STRING', 'IDENT') else \
                self.sym('val:' + t[2], 'i' if t[1] == 'INT' else 'f', -2 ** 63, 2 ** 63 - 1)
            self.names[v] = t[2]
            self.put(a, st, 'val', v, 8)
            if t[1] in ('STRING', 'IDENT'):
                self.put(a, st, 'len', self.sym('len:' + t[2], lo=0), 4)
            return a
        if k == 'func':
            a = self.expr('FuncExprNode', self.k('EXPR_FUNC'), next)
            args = ZERO
            for name, typ, dfl in reversed(t[1]):
                x = self.new('ArgumentNode', self.k('NODE_ARG'), args)
                self.put(x, 'ArgumentNode', 'name', self.text(name), 8)
                self.put(x, 'ArgumentNode', 'type', self.build(typ) if typ else ZERO, 8)
                self.put(x, 'ArgumentNode', 'value', self.build(dfl) if dfl else ZERO, 8)
                args = x
            self.put(a, 'FuncExprNode', 'argv', args, 8)
            self.put(a, 'FuncExprNode', 'argc', C(len(t[1])), 4)
            self.put(a, 'FuncExprNode', 'body', self.build(t[2]), 8)
            return a
        if k == 'fdecl':
            a = self.new('FuncDeclNode', self.k('NODE_FUNC'), next)
            self.put(a, 'FuncDeclNode', 'name', self.build(('lit', 'STRING', t[1])), 8)
            self.put(a, 'FuncDeclNode', 'expr', self.build(('func', t[2], t[3])), 8)
            return a
        if k == 'if':
            a = self.new('IfElseNode', self.k('NODE_IFELSE'), next)
            self.put(a, 'IfElseNode', 'condition', self.build(t[1]), 8)
            self.put(a, 'IfElseNode', 'true_branch', self.build(t[2]), 8)
            self.put(a, 'IfElseNode', 'false_branch', self.build(t[3]) if t[3] else ZERO, 8)
            return a
        if k == 'while':
            a = self.new('WhileNode', self.k('NODE_WHILE'), next)
            self.put(a, 'WhileNode', 'condition', self.build(t[1]), 8)
            self.put(a, 'WhileNode', 'body', self.build(t[2]), 8)
            return a
        if k == 'dowhile':
            a = self.new('DoWhileNode', self.k('NODE_DOWHILE'), next)
            self.put(a, 'DoWhileNode', 'body', self.build(t[1]), 8)
            self.put(a, 'DoWhileNode', 'condition', self.build(t[2]), 8)
            return a
        if k == 'block':
            a = self.new('CompoundNode', self.k('NODE_COMP'), next)
            self.put(a, 'CompoundNode', 'head', self.chain(t[1]), 8)
            return a
        if k == 'return':
            a = self.new('ReturnNode', self.k('NODE_RETURN'), next)
            self.put(a, 'ReturnNode', 'val', self.build(t[1]), 8)
            return a
        if k == 'break':
            return self.new('Node', self.k('NODE_BREAK'), next)
        raise AssertionError(k)


# ---------------------------------------------------------------- emission
class GenHooks(NojaHooks):
    """prop: the template so far, a tuple of
    ('emit', opcode, operands, instruction) ('part', class, name, label) ('set', promise, position)"""

    def __init__(self, w, gen, tab):
        super().__init__(w)
        self.gen, self.tab = gen, tab
        self.boundary = frozenset()
        self.tree = None
        self.stray = []
        self.count = 0

    def prop_atoms(self, p):
        out = set()
        for x in p or ():
            for y in x[1:]:
                if isinstance(y, tuple) and y and y[0] != 'op:':
                    try:
                        out |= atoms(y)
                    except Exception:
                        pass
        return out

    @staticmethod
    def length(p):
        return sum(1 for x in p if x[0] in ('emit', 'part'))

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name
        if not isinstance(f, str) and f.gid in self.gen.disp and fr is not None:
            k, off = self.gen.disp[f.gid]
            a = e.res(st, args[k])
            lf = self.tree.leaf.get(a)
            if lf is not None:
                ct = e.p.param_ctypes(f)[1:]
                lab = [e.res(st, x) for x, t in zip(args, ct) if t == 'Label*']
                st.prop += (('part', lf[0], lf[1], lab[0] if lab else None, ins),)
                return [(st, None)]
            return None
        if n == 'Promise_New':
            a = ('alloc', fr.act, ins.res or '%s.%d' % (ins.blk, ins.idx), e.it(fr, st, ins.blk))
            return [(st, a)]
        if n == 'Promise_Free':
            return [(st, None)]
        if n == 'Promise_Resolve':
            a = e.res(st, args[0])
            v = e.load(fr, st, ins, args[1], ('int', 64), None)
            st.prop += (('set', a, e.res(st, v)),)
            return [(st, None)]
        if n == 'ExeBuilder_InstrCount':
            return [(st, C(self.length(st.prop)))]
        if n == 'ExeBuilder_Append':
            return self.append(e, fr, st, ins, args)
        if n in ('_setjmp', 'setjmp', '__sigsetjmp', 'sigsetjmp'):
            return [(st, ZERO)]
        if n == 'CodegenContext_MakeExecutableAndFree':
            return [(st, ONE)]
        return None

    def append(self, e, fr, st, ins, args):
        op = e.res(st, args[2])
        c = e.res(st, args[4])
        if not isc(op) or not isc(c):
            self.stray.append((ins, 'the opcode or operand count is not determined'))
            return []
        ops = []
        base = args[3]
        for k in range(c[1]):
            t = e.load(fr, st, ins, add(base, C(k * self.tab.op_size + self.tab.op_type)), ('int', 32), None)
            t = e.res(st, t)
            tn = self.tab.optypes.get(t[1]) if isc(t) else None
            a = add(base, C(k * self.tab.op_size + self.tab.op_val))
            x = st.mem.get(e.res(st, a))
            v = e.res(st, x[0]) if x is not None else e.load(fr, st, ins, a, ('int', 64), None)
            ops.append(('op:', tn, v))
        off = (e.res(st, args[5]), e.res(st, args[6]))
        at = ins
        g = fr
        while g.parent is not None and g.fn.name in ('CodegenContext_EmitInstr',) or (g.site is not None and g.fn.name.startswith('emitInstr_')):
            at = g.site
            g = g.parent
        st.prop += (('emit', self.tab.opcodes.get(op[1], op[1]), tuple(ops), at, off),)
        return [(st, ONE)]


def templates(w, gen, tab, desc, label=False, entry=None):
    """[(log, state)] for the paths that complete, and hooks"""
    h = GenHooks(w, gen, tab)
    e = Unroll(w.p, w.eff, h)
    st = St()
    st.prop = ()
    tr = Tree(e, st, w)
    h.tree = tr
    root = tr.build(desc)
    f = entry or gen.D
    fr = Frame(f, e.act(0, f.gid, ()), e.cfg(f), 0, None, None)
    args = e.params(fr)
    ct = w.p.param_ctypes(f)[1:]
    lab = ('alloc', 0, 'enclosing', ()) if label else ZERO
    for k, t in enumerate(ct):
        if t == 'Label*':
            args[k] = lab
        elif t in ('Node*', 'ExprNode*'):
            args[k] = root
        elif t == 'AST*':
            a = ('alloc', 0, 'ast', ())
            tr.put(a, 'AST', 'root', root, 8)
            tr.put(a, 'AST', 'src', tr.sym('source', 'p'), 8)
            args[k] = a
    for (t, n), a in zip(f.params, args):
        if t[0] == 'ptr':
            e.rng[a] = (4096, 2 ** 63)
    out = e.run(fr, args, st)
    return h, e, tr, [(s, v) for s, v in out]


# ---------------------------------------------------------------- meaning
class Oracle:
    def __init__(self, dec):
        self.dec, self.n = dec, 0

    def pick(self, opts):
        if self.n >= len(self.dec):
            raise More(opts)
        v = self.dec[self.n]
        self.n += 1
        return v


class Stop(Exception):
    def __init__(self, how):
        self.how = how


class Trace:
    def __init__(self, oracle):
        self.o = oracle
        self.ev = []
        self.funcs = []

    def event(self, *a):
        self.ev.append(a)
        return ('v', len(self.ev))

    def cond(self, t):
        """the truth of a value"""
        if t[0] == 'bool':
            return t[1]
        neg_ = False
        while t[0] == 'no':
            t, neg_ = t[1], not neg_
        v = self.o.pick((True, False))
        self.event('test', t, v)
        return v != neg_


class Ref:
    """what a construct does"""

    def __init__(self, tr):
        self.t = tr

    def expr(self, d):
        t = self.t
        k = d[0]
        if k == 'x':
            return t.event('value of', d[1])
        if k == 'op':
            v = [self.expr(x) for x in d[2]]
            return t.event(d[1], *v)
        if k in ('and', 'or'):
            for x in d[1]:
                if t.cond(self.expr(x)) != (k == 'and'):
                    return ('bool', k == 'or')
            return ('bool', k == 'and')
        if k == 'lit':
            return {'NONE': ('none',), 'TRUE': ('bool', True), 'FALSE': ('bool', False)}.get(d[1]) or \
                (t.event('variable', d[2]) if d[1] == 'IDENT' else ('const', d[1], d[2]))
        if k == 'select':
            s = self.expr(d[1])
            return t.event('select', s, self.expr(d[2]))
        if k == 'list':
            v = t.event('new list', len(d[1]))
            for i, x in enumerate(d[1]):
                t.event('insert', v, ('const', 'INT', i), self.expr(x))
            return v
        if k == 'map':
            v = t.event('new map', len(d[1]))
            for a, b in d[1]:
                x = self.expr(a)
                t.event('insert', v, x, self.expr(b))
            return v
        if k == 'call':
            return self.call(d, 1)[0]
        if k == 'func':
            t.funcs.append(d)
            return t.event('function', len(d[1]), None)
        if k == 'assign':
            lhs, rhs = d[1]
            names = flat(lhs)
            vs = [self.expr(rhs)] if len(names) == 1 else self.call(rhs, len(names))
            for x, v in reversed(list(zip(names, vs))):
                if x[0] == 'lit':
                    t.event('assign', x[2], v)
                else:
                    s = self.expr(x[1])
                    t.event('insert', s, self.expr(x[2]), v)
            return vs[0]
        raise AssertionError(d)

    def call(self, d, n):
        t = self.t
        args = [self.expr(x) for x in d[2]]
        if d[1][0] == 'arw':
            s = self.expr(d[1][1])
            f = t.event('select', s, self.expr(d[1][2]))
            args.append(s)
        else:
            f = self.expr(d[1])
        c = t.event('call', f, tuple(reversed(args)), n)
        return [('result', c, i) for i in range(n)]

    def stmt(self, d, loop):
        t = self.t
        k = d[0]
        if k == 's':
            how = t.o.pick(('normal', 'return') + (('break',) if loop else ()))
            t.event('statement', d[1], bool(loop), how)
            if how != 'normal':
                raise Stop(how)
            return
        if k == 'if':
            if t.cond(self.expr(d[1])):
                self.stmt(d[2], loop)
            elif d[3]:
                self.stmt(d[3], loop)
            return
        if k in ('while', 'dowhile'):
            c, b = (d[1], d[2]) if k == 'while' else (d[2], d[1])
            try:
                if k == 'dowhile':
                    self.stmt(b, True)
                while t.cond(self.expr(c)):
                    self.stmt(b, True)
            except Stop as s:
                if s.how != 'break':
                    raise
            return
        if k == 'block':
            for x in d[1]:
                self.stmt(x, loop)
            return
        if k == 'return':
            t.event('return', tuple(self.expr(x) for x in flat(d[1])))
            raise Stop('return')
        if k == 'break':
            raise Stop('break')
        if k == 'fdecl':
            t.funcs.append(('func', d[2], d[3]))
            v = t.event('function', len(d[2]), d[1])
            t.event('assign', d[1], v)
            return
        self.expr(d)

    def body(self, d, args):
        t = self.t
        n = len(d[1])
        for j, (name, typ, dfl) in enumerate(d[1]):
            v = args[n - 1 - j]
            if dfl:
                if t.cond(('isnone', v)):
                    v = self.expr(dfl)
            if typ:
                t.event('check type', self.expr(typ), v, n - 1 - j, name)
            t.event('assign', name, v)
        self.stmt(d[2], False)
        t.event('return', ())
        raise Stop('return')


def flat(d):
    return flat(d[1][0]) + flat(d[1][1]) if d[0] == 'pair' else [d]


EXPRS = ('x', 'op', 'and', 'or', 'lit', 'select', 'list', 'map', 'call', 'func', 'assign')


# ---------------------------------------------------------------- the machine
class Machine:
    """walks a template"""

    def __init__(self, tree, code, labels, tr):
        self.tree, self.code, self.labels, self.t = tree, code, labels, tr
        self.entries = []

    def tok(self, v):
        if isc(v):
            return v[1]
        return self.tree.names.get(v, v)

    def run(self, pc, stack):
        t = self.t
        steps = 0
        while True:
            steps += 1
            if steps > 400:
                raise Bad('the code does not end')
            if pc == len(self.code):
                return ('end', stack)
            if not 0 <= pc < len(self.code):
                raise Bad('a jump leaves the code (to %s)' % pc)
            x = self.code[pc]
            pc += 1
            if x[0] == 'part':
                if x[1] == 'x':
                    stack.append(t.event('value of', x[2]))
                    continue
                lab = x[3]
                inl = lab is not None and lab != ZERO
                how = t.o.pick(('normal', 'return') + (('break',) if inl else ()))
                t.event('statement', x[2], inl, how)
                if how == 'return':
                    raise Stop('return')
                if how == 'break':
                    pc = self.target(lab)
                    if pc is None:
                        if stack:
                            raise Bad('values are left on the stack by a break: %d' % len(stack))
                        raise Stop('break')
                continue
            op, ops = x[1][7:], x[2]
            v = [self.tok(o[2]) for o in ops]

            def pop():
                if not stack:
                    raise Bad('%s takes a value that is not there' % op)
                return stack.pop()
            if op in ('NEG', 'NOT', 'NLB'):
                stack.append(t.event({'NLB': 'NULLABLETYPE'}.get(op, op), pop()))
            elif op == 'POS':
                if not stack:
                    raise Bad('POS needs a value')
                stack.append(t.event(op, pop()))
            elif op in ('ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'EQL', 'NQL', 'LSS', 'GRT', 'LEQ', 'GEQ', 'STP'):
                b = pop()
                a = pop()
                if op in ('EQL', 'NQL') and {a[0], b[0]} == {'typ', 'nonetype'}:
                    r = ('isnone', a[1] if a[0] == 'typ' else b[1])
                    stack.append(r if op == 'EQL' else ('no', r))
                else:
                    stack.append(t.event({'STP': 'SUMTYPE'}.get(op, op), a, b))
            elif op == 'ASS':
                a = pop()
                t.event('assign', v[0], a)
                stack.append(a)
            elif op == 'POP':
                if not isinstance(v[0], int) or v[0] < 0:
                    raise Bad('POP of %s values' % (v[0],))
                for _ in range(v[0]):
                    pop()
            elif op == 'CALL':
                f = pop()
                if not all(isinstance(y, int) for y in v):
                    raise Unknown('CALL with unknown counts')
                args = tuple(pop() for _ in range(v[0]))
                c = t.event('call', f, args, v[1])
                stack.extend(('result', c, i) for i in range(v[1]))
            elif op == 'SELECT':
                b = pop()
                stack.append(t.event('select', pop(), b))
            elif op == 'SELECT2':
                b = pop()
                a = pop()
                stack.append(a)
                stack.append(t.event('select', a, b))
            elif op == 'INSERT':
                c = pop()
                b = pop()
                a = pop()
                t.event('insert', a, b, c)
                stack.append(a)
            elif op == 'INSERT2':
                key = pop()
                col = pop()
                val = pop()
                t.event('insert', col, key, val)
                stack.append(val)
            elif op in ('PUSHINT', 'PUSHFLT', 'PUSHSTR'):
                stack.append(('const', {'PUSHINT': 'INT', 'PUSHFLT': 'FLOAT', 'PUSHSTR': 'STRING'}[op], v[0]))
            elif op == 'PUSHVAR':
                stack.append(t.event('variable', v[0]))
            elif op in ('PUSHTRU', 'PUSHFLS'):
                stack.append(('bool', op == 'PUSHTRU'))
            elif op == 'PUSHNNE':
                stack.append(('none',))
            elif op == 'PUSHTYP':
                if not stack:
                    raise Bad('PUSHTYP needs a value')
                stack.append(('typ', stack[-1]))
            elif op == 'PUSHNNETYP':
                stack.append(('nonetype',))
            elif op == 'PUSHLST':
                stack.append(t.event('new list', v[0]))
            elif op == 'PUSHMAP':
                stack.append(t.event('new map', v[0]))
            elif op == 'PUSHFUN':
                self.entries.append((self.where(ops[0]), v[1]))
                stack.append(t.event('function', v[1], v[2]))
            elif op == 'CHECKTYPE':
                a = pop()
                if not stack:
                    raise Bad('CHECKTYPE needs a value')
                t.event('check type', a, stack[-1], v[0], v[1])
            elif op == 'RETURN':
                if v[0] != len(stack):
                    raise Bad('RETURN of %s values with %d on the stack of the frame' % (v[0], len(stack)))
                t.event('return', tuple(stack))
                raise Stop('return')
            elif op == 'EXIT':
                if stack:
                    raise Bad('EXIT with %d values on the stack' % len(stack))
                raise Stop('exit')
            elif op == 'JUMP':
                pc = self.where(ops[0])
                if pc is None:
                    if stack:
                        raise Bad('values are left on the stack by a break: %d' % len(stack))
                    raise Stop('break')
            elif op in ('JUMPIFANDPOP', 'JUMPIFNOTANDPOP'):
                if t.cond(pop()) == (op == 'JUMPIFANDPOP'):
                    pc = self.where(ops[0])
                    if pc is None:
                        raise Stop('break')
            elif op == 'NOPE':
                pass
            else:
                raise Unknown('the instruction %s is not known' % op)

    def where(self, o):
        if o[1] == 'OPTP_PROMISE':
            return self.target(o[2])
        if not isc(o[2]):
            raise Unknown('a jump to an unknown place')
        return o[2][1]

    def target(self, lab):
        """None: the enclosing loop's end"""
        if lab == ('alloc', 0, 'enclosing', ()):
            return None
        if lab not in self.labels:
            raise Bad('a jump to a label that is never placed')
        return self.labels[lab]


# ---------------------------------------------------------------- constructs
X = lambda n, *no: ('x', n, no)
S = lambda n: ('s', n)
ID = lambda n: ('lit', 'IDENT', n)
BIN = ('ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'EQL', 'NQL', 'LSS', 'LEQ', 'GRT', 'GEQ', 'SUMTYPE')
UN = ('NOT', 'POS', 'NEG', 'NULLABLETYPE')
NOARW = ('EXPR_ARW',)
NOPAIR = ('EXPR_PAIR',)


def schemas(deep):
    out = []
    for o in BIN:
        out.append(('op', o, [X('left'), X('right')]))
    for o in UN:
        out.append(('op', o, [X('operand')]))
    for o in ('and', 'or'):
        out.append((o, [X('left'), X('right')]))
    for n in ('INT', 'FLOAT', 'STRING', 'IDENT'):
        out.append(('lit', n, 'v'))
    for n in ('NONE', 'TRUE', 'FALSE'):
        out.append(('lit', n))
    out.append(('select', X('set'), X('index')))
    N = 4 if not deep else 7
    for n in range(N):
        out.append(('list', [X('item%d' % i) for i in range(n)]))
        out.append(('map', [(X('key%d' % i), X('item%d' % i)) for i in range(n)]))
        out.append(('call', X('function', *NOARW), [X('arg%d' % i) for i in range(n)]))
        out.append(('call', ('arw', X('set'), X('index')), [X('arg%d' % i) for i in range(n)]))
    L = lambda i: ID('var%d' % i)
    Q = lambda i: ('select', X('set%d' % i), X('index%d' % i))
    R = X('right', 'EXPR_PAIR')
    out.append(('assign', [L(0), R]))
    out.append(('assign', [Q(0), R]))
    callr = ('call', X('function', *NOARW), [X('arg0')])
    callm = ('call', ('arw', X('set'), X('index')), [X('arg0')])
    for a in (L, Q):
        for b in (L, Q):
            for r in (callr, callm):
                out.append(('assign', [('pair', [a(0), b(1)]), r]))
            out.append(('assign', [('pair', [('pair', [a(0), b(1)]), a(2)]), callr]))
            out.append(('assign', [('pair', [a(0), ('pair', [b(1), b(2)])]), callr]))
    branches = [S('then'), X('then')]
    other = [S('else'), X('else')]
    for b in branches:
        out.append(('if', X('condition'), b, None))
        for c in other:
            out.append(('if', X('condition'), b, c))
    for b in (S('body'), X('body')):
        out.append(('while', X('condition'), b))
        out.append(('dowhile', b, X('condition')))
    brk = [('break',), ('block', [S('before'), ('break',)]), ('if', X('test'), ('break',), None),
           ('if', X('test'), ('break',), S('rest')), ('while', X('inner'), ('break',)), ('dowhile', ('break',), X('inner')),
           ('block', [('while', X('inner'), S('nested')), ('break',)]),
           ('block', [('fdecl', 'f', [], S('inside')), ('break',)])]
    for b in brk:
        out.append(('while', X('condition'), b))
        out.append(('dowhile', b, X('condition')))
    for n in range(N):
        for m in range(2 ** n):
            if n > 3 and m not in (0, 2 ** n - 1, 5):
                continue
            out.append(('block', [X('part%d' % i) if m >> i & 1 else S('part%d' % i) for i in range(n)]))
    r = [X('v%d' % i, *NOPAIR) for i in range(4)]
    out.append(('return', r[0]))
    out.append(('return', ('pair', [r[0], r[1]])))
    out.append(('return', ('pair', [('pair', [r[0], r[1]]), r[2]])))
    out.append(('return', ('pair', [r[0], ('pair', [r[1], r[2]])])))
    P = lambda i, t, d: ('p%d' % i, X('type%d' % i) if t else None, X('default%d' % i) if d else None)
    opts = [(t, d) for t in (0, 1) for d in (0, 1)]
    ps = [[]] + [[P(0, *o)] for o in opts] + [[P(0, *o), P(1, *q)] for o in opts for q in opts] + \
        [[P(0, *o), P(1, *q), P(2, *o)] for o, q in (((1, 1), (0, 0)), ((0, 0), (1, 1)))]
    for pl in ps:
        out.append(('func', pl, S('body')))
        out.append(('fdecl', 'name', pl, S('body')))
    for pl in (ps[0], ps[1]):
        out.append(('func', pl, X('body')))
        out.append(('fdecl', 'name', pl, X('body')))
    out.append(('func', [], ('return', r[0])))
    out.append(('func', [], ('block', [S('first'), ('if', X('test'), ('return', ('pair', [r[0], r[1]])), None), S('last')])))
    # a loop whose parts hold functions and loops: breaks keep to their own loop
    out.append(('while', X('condition'), ('block', [('fdecl', 'f', [], S('inside')), S('after')])))
    out.append(('while', X('condition'), ('block', [('while', X('inner'), S('nested')), S('after')])))
    out.append(('dowhile', ('block', [('dowhile', S('nested'), X('inner')), S('after')]), X('condition')))
    out.append(('func', [], ('while', X('condition'), ('if', X('test'), ('break',), S('rest')))))
    if deep:
        E = [('op', 'ADD', [X('a'), X('b')]), ('and', [X('a'), X('b')]), ('or', [X('a'), X('b')]), ('op', 'NOT', [X('a')]),
             ('list', [X('a'), X('b')]), ('map', [(X('a'), X('b'))]), ('select', X('a'), X('b')), ('call', X('a', *NOARW), [X('b')]),
             ('call', ('arw', X('a'), X('b')), [X('c')]), ('assign', [L(0), X('a', *NOPAIR)]), ('func', [], S('a')), ('lit', 'INT', 'a')]
        T = [('if', X('a'), S('b'), S('c')), ('while', X('a'), S('b')), ('dowhile', S('a'), X('b')), ('block', [S('a'), X('b')]),
             ('return', X('a', *NOPAIR)), ('fdecl', 'a', [], S('b')), ('block', [])]
        for x in E:
            for y in E:
                out.append(('op', 'SUB', [x, ren(y)]))
                out.append(('and', [x, ren(y)]))
                out.append(('call', x, [ren(y)]))
                out.append(('select', x, ren(y)))
                out.append(('list', [x, ren(y)]))
                out.append(('map', [(x, ren(y))]))
                out.append(('assign', [('select', x, ren(y)), X('r', *NOPAIR)]))
            for y in T:
                out.append(('while', x, ren(y)))
                out.append(('dowhile', ren(y), x))
                out.append(('if', x, ren(y), S('e')))
                out.append(('func', [('p', x, None)], ren(y)))
                out.append(('func', [('p', None, x)], ren(y)))
                out.append(('return', ('pair', [x, X('r', *NOPAIR)])))
        for x in T + E:
            for y in T + E:
                out.append(('block', [x, ren(y)]))
                out.append(('if', X('t'), x, ren(y)))
    return out


def ren(d):
    """the same construct with parts of other names"""
    if isinstance(d, tuple):
        if d and d[0] in ('x', 's'):
            return (d[0], d[1] + "'") + d[2:]
        return tuple(ren(x) for x in d)
    if isinstance(d, list):
        return [ren(x) for x in d]
    return d


def show(d):
    k = d[0]
    if k == 'x':
        return d[1]
    if k == 's':
        return '{%s}' % d[1]
    if k == 'op':
        return '%s(%s)' % (d[1], ', '.join(map(show, d[2])))
    if k in ('and', 'or', 'pair', 'assign'):
        return '(%s)' % ((' %s ' % {'pair': ',', 'assign': '='}.get(k, k)).join(map(show, d[1])))
    if k == 'lit':
        return d[1].lower() + (' ' + d[2] if len(d) > 2 else '')
    if k == 'select':
        return '%s[%s]' % (show(d[1]), show(d[2]))
    if k == 'arw':
        return '%s->%s' % (show(d[1]), show(d[2]))
    if k == 'call':
        return '%s(%s)' % (show(d[1]), ', '.join(map(show, d[2])))
    if k == 'list':
        return '[%s]' % ', '.join(map(show, d[1]))
    if k == 'map':
        return '{%s}' % ', '.join('%s: %s' % (show(a), show(b)) for a, b in d[1])
    if k in ('func', 'fdecl'):
        ps, b = (d[1], d[2]) if k == 'func' else (d[2], d[3])
        return 'fun %s(%s) %s' % (d[1] if k == 'fdecl' else '', ', '.join(
            n + (': ' + show(t) if t else '') + (' = ' + show(x) if x else '') for n, t, x in ps), show(b))
    if k == 'if':
        return 'if %s: %s' % (show(d[1]), show(d[2])) + (' else ' + show(d[3]) if d[3] else '')
    if k == 'while':
        return 'while %s: %s' % (show(d[1]), show(d[2]))
    if k == 'dowhile':
        return 'do %s while %s' % (show(d[1]), show(d[2]))
    if k == 'block':
        return '{ %s }' % '; '.join(map(show, d[1]))
    if k == 'return':
        return 'return ' + show(d[1])
    return k


def shape(d):
    k = d[0]
    return {'op': 'operator ' + str(d[1]), 'lit': 'literal ' + str(d[1]), 'assign': 'assignment' if k == 'assign' and d[1][0][0] != 'pair' else 'multiple assignment'}.get(k, {
        'x': 'expression', 's': 'statement', 'and': 'and', 'or': 'or', 'func': 'function expression', 'fdecl': 'function declaration',
        'if': 'if', 'while': 'while loop', 'dowhile': 'do-while loop', 'block': 'compound statement'}.get(k, k))


# ---------------------------------------------------------------- comparison
def listing(tree, code, labels):
    out = []
    at = {}
    for l, n in labels.items():
        at.setdefault(n, []).append('L%d' % (sorted(labels.values()).index(n)))
    for k, x in enumerate(code):
        if x[0] == 'part':
            out.append('%d: <%s>' % (k, x[2]))
        else:
            o = []
            for _, tn, v in x[2]:
                if tn == 'OPTP_PROMISE':
                    o.append('@%s' % labels.get(v, '?'))
                else:
                    o.append(str(v[1] if isc(v) else tree.names.get(v, '?')))
            out.append('%d: %s %s' % (k, str(x[1])[7:], ' '.join(o)))
    return out


def compare(desc, tree, code, labels, loop, limit):
    """None, or (decisions, text)"""
    isx = desc[0] in EXPRS
    return explore(limit, lambda d: one(desc, tree, code, labels, loop, isx, d, 0, (), None), lambda fs, dec: bodies(fs, tree, code, labels, limit))


def bodies(fs, tree, code, labels, limit):
    for d, pc, argc in fs:
        if argc != len(d[1]):
            return ((), 'the function takes %d parameters, %s were written' % (len(d[1]), argc))
        if pc is None:
            return ((), 'the code of the function is nowhere')
        args = tuple(('argument', i) for i in range(argc))
        r = explore(limit, lambda dec: one(d, tree, code, labels, False, False, dec, pc, args, 'body'),
                    lambda fs2, dec: bodies(fs2, tree, code, labels, limit))
        if r:
            return r
    return None


def explore(limit, run, nested):
    todo = [()]
    n = 0
    while todo:
        dec = todo.pop()
        r, fs, opts = run(dec)
        n += 1
        if r:
            return (dec, r)
        if opts is not None:
            if len(dec) < limit:
                todo += [dec + (o,) for o in opts]
            continue
        r = nested(fs, dec)
        if r:
            return r
    return None


def one(desc, tree, code, labels, loop, isx, dec, pc, args, body):
    t = Trace(Oracle(dec))
    m = Trace(Oracle(dec))
    ro = mo = None
    try:
        r = Ref(t)
        if body:
            r.body(desc, args)
        elif isx:
            ro = ('end', [r.expr(desc)])
        else:
            r.stmt(desc, loop)
            ro = ('end', [])
    except More as x:
        ro = ('more', x.args[0])
    except Stop as s:
        ro = (s.how, None)
    mc = Machine(tree, code, labels, m)
    try:
        mo = mc.run(pc, list(args))
    except More as x:
        mo = ('more', x.args[0])
    except Stop as s:
        mo = (s.how, None)
    except Bad as b:
        return (str(b), None, None)
    for k, (x, y) in enumerate(zip(t.ev, m.ev)):
        if not same(x, y):
            return ('step %d is %s, the code does %s' % (k + 1, word(x), word(y)), None, None)
    if len(t.ev) != len(m.ev):
        k = min(len(t.ev), len(m.ev))
        if len(t.ev) > k:
            return ('the code leaves out step %d: %s' % (k + 1, word(t.ev[k])), None, None)
        return ('the code goes on with %s' % word(m.ev[k]), None, None)
    if ro != mo:
        if ro[0] == mo[0] == 'end':
            return ('%d values are left on the stack instead of %d' % (len(mo[1]), len(ro[1])) if len(mo[1]) != len(ro[1])
                    else 'the value left is not the one of the expression', None, None)
        return ('the construct would %s, the code %s' % (how(ro), how(mo)), None, None)
    if ro[0] == 'more':
        return (None, None, ro[1])
    fs = [(d, e, c) for d, (e, c) in zip(t.funcs, mc.entries)]
    return (None, fs, None)


def same(x, y):
    if x[0] == 'function' and y[0] == 'function':
        return x[1] == y[1] and (x[2] is None or x[2] == y[2])
    return x == y


def how(r):
    return {'end': 'be complete', 'more': 'go on', 'return': 'return', 'break': 'leave the loop', 'exit': 'exit'}[r[0]]


def word(ev):
    def w(x):
        if isinstance(x, tuple) and x and x[0] == 'v':
            return '#%d' % x[1]
        if isinstance(x, tuple):
            return ' '.join(w(y) for y in x)
        return str(x)
    return ' '.join(w(x) for x in ev)


WORLD = [None]


def split(st):
    """instructions and parts, places of the labels"""
    return [x for x in st.prop if x[0] in ('emit', 'part')], {x[1]: x[2][1] if isc(x[2]) else None for x in st.prop if x[0] == 'set'}


def case(job):
    k, desc, loop, limit = job
    w, gen, tab = WORLD[0]
    try:
        h, e, tree, outs = templates(w, gen, tab, desc, loop)
    except Budget as b:
        return (k, 'undecided', str(b), None, 0, ())
    emits = []
    bad = []
    n = 0
    for st, v in outs:
        n += 1
        code, labels = split(st)
        for x in st.prop:
            if x[0] == 'set' and sum(1 for y in st.prop if y[:2] == x[:2]) > 1:
                bad.append(('a label is placed twice', code, labels))
        if None in labels.values():
            return (k, 'undecided', 'a label whose place is not known', None, n, tuple(emits))
        for x in code:
            if x[0] == 'emit':
                emits.append((x[1], tuple(o[1] for o in x[2]), w.p.where(x[3]), x[3].fn.name))
        try:
            r = compare(desc, tree, code, labels, loop, limit)
        except Unknown as u:
            return (k, 'undecided', str(u), None, n, tuple(emits))
        if r:
            bad.append((r[1] + (' (outcomes: %s)' % ', '.join(map(str, r[0])) if r[0] else ''), code, labels))
    if h.stray:
        return (k, 'undecided', h.stray[0][1], None, n, tuple(emits))
    if e.cuts:
        return (k, 'undecided', 'a loop of the generator is not bounded by the construct', None, n, tuple(emits))
    if bad:
        t, code, labels = bad[0]
        at = [x[3] for x in code if x[0] == 'emit']
        return (k, 'bad', t, (listing(tree, code, labels), w.p.where(at[0]) if at else gen.D.name), n, tuple(emits))
    if not n:
        return (k, 'none', 'no path through the generator completes', None, 0, ())
    return (k, 'ok', None, None, n, tuple(emits))

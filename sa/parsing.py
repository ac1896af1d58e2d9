"""P02-P05: what the parser makes of the tokens of a source."""
import re
from frames import *

FUNCS = ('parse_statement', 'parse_expression', 'parse_expression_2', 'parse_expression_statement', 'parse_ifelse_statement',
         'parse_compound_statement', 'parse_function_definition', 'parse_function_arguments', 'parse_postfix_expression', 'parse_prefix_expression',
         'parse_while_statement', 'parse_dowhile_statement', 'parse_string_primary_expression', 'parse_list_primary_expression',
         'parse_map_primary_expression', 'parse_primary_expresion')
CHAIN = 14
DEBUG = 0
BINOPS = {'+': 'EXPR_ADD', '-': 'EXPR_SUB', '*': 'EXPR_MUL', '/': 'EXPR_DIV', '%': 'EXPR_MOD', '<': 'EXPR_LSS', '>': 'EXPR_GRT', 'TLEQ': 'EXPR_LEQ',
          'TGEQ': 'EXPR_GEQ', 'TEQL': 'EXPR_EQL', 'TNQL': 'EXPR_NQL', 'TKWAND': 'EXPR_AND', 'TKWOR': 'EXPR_OR', '=': 'EXPR_ASS', '|': 'EXPR_SUMTYPE',
          ',': 'EXPR_PAIR'}
LEVEL = {'=': 0, '|': 1, 'TKWOR': 2, 'TKWAND': 3, '<': 4, '>': 4, 'TLEQ': 4, 'TGEQ': 4, 'TEQL': 4, 'TNQL': 4, '+': 5, '-': 5, '*': 6, '/': 6, '%': 6, ',': 7}
PREFIX = {'+': 'EXPR_POS', '-': 'EXPR_NEG', '?': 'EXPR_NULLABLETYPE', 'TKWNOT': 'EXPR_NOT'}
STARTS = ('(', '[', '+', '-', '?', 'TINT', 'TFLOAT', 'TSTRING', 'TIDENT', 'TKWNOT', 'TKWNONE', 'TKWTRUE', 'TKWFALSE')
RIGHT = ('=',)
NEVER = ('TDONE', '}', ')', ']', ':', ';', ',', '=')      # what nothing starts with
FEW = ('=', ',', '+', 'TEQL')


class Apart(Unroll):
    """tokens and nodes are objects of their own"""
    def may_alias(self, st, a, asize, atag, b, bsize, btag):
        ra, rb = root(a), root(b)
        if ra is not None and rb is not None and ra != rb:
            x, y = own(ra), own(rb)
            if x and (y or rb[0] in ('loc', 'alloc', 'g')) or y and ra[0] in ('loc', 'alloc', 'g'):
                return False
        return super().may_alias(st, a, asize, atag, b, bsize, btag)


def own(r):
    return r[0] == 's' and (r[2] in ('ctx', 'left') or r[2].startswith('@'))


def tok(e, name):
    a = ('s', 0, '@' + name, (), '', 'p')
    e.rng[a] = (4096, 2 ** 63)
    return a


def split(t):
    m = re.match(r'@tok (\d+)\.(\d+)$', t[2]) if t[0] == 's' else None
    return (int(m.group(1)), int(m.group(2))) if m else None


class Lay:
    """where things are in tokens, nodes and the parser's context"""
    def __init__(self, w):
        p = w.p
        self.w = w
        f = p.fn('parse_statement') or p.fn('parse')
        if f is None:
            raise Broken('the parser is gone')
        self.mod = f.mod
        self.T = {n: (o, k, z) for k, (n, o, ct, z) in enumerate(self.need(p, 'Token'))}
        self.X = {n: (o, k, z) for k, (n, o, ct, z) in enumerate(self.need(p, 'Context'))}

    def need(self, p, s):
        x = p.di_struct(s, self.mod)
        if not x:
            raise Broken('the structure %s is gone' % s)
        return x

    def kind(self, name):
        return ord(name) if len(name) == 1 else enum(self.w, name)

    def at(self, struct, path):
        """offset and size of a.b.c"""
        off, size = 0, None
        for n in path.split('.'):
            for x, o, ct, z in self.need(self.w.p, struct):
                if x == n:
                    off, size, struct = off + o, z, ct
                    break
            else:
                raise Broken('%s has no member %s' % (struct, n))
        return off, size


class ParseHooks(ObjHooks):
    engine = Apart

    def __init__(self, w, inline=(), record=()):
        super().__init__(w, inline, record)
        self.lay = Lay(w)
        self.immutable = frozenset(('struct.Token', k) for n, (o, k, z) in self.lay.T.items())
        self.g = 0
        self.aborts = []

    def group(self, e, st):
        """tokens nobody has looked at yet; the first of them"""
        g = len([x for x in st.prop if x[0] == 'group'])
        self.note(st, 'group')
        T = self.lay.T
        ts = [tok(e, 'tok %d.%d' % (g, k)) for k in range(CHAIN)]
        for k, t in enumerate(ts):
            if k + 1 < CHAIN:
                st.mem[add(t, C(T['next'][0]))] = (ts[k + 1], 8, ('struct.Token', T['next'][1]))
            if k:
                st.mem[add(t, C(T['prev'][0]))] = (ts[k - 1], 8, ('struct.Token', T['prev'][1]))
            for n in ('offset', 'length'):
                e.rng[('m', add(t, C(T[n][0])), 0, 4, 'i')] = (0, 2 ** 28)
        if g == 1 and self.second:
            e.assume(st, ('eq', sub(self.kind_of(ts[0]), C(self.lay.kind(self.second)))), True)
        if g > 1 and self.second:
            e.assume(st, ('eq', sub(self.kind_of(ts[0]), C(self.lay.kind(';')))), True)
        elif g > self.every:
            for n in BINOPS:
                if n not in FEW:
                    e.assume(st, ('ne', sub(self.kind_of(ts[0]), C(self.lay.kind(n)))), True)
        return ts[0]

    second = None       # the operator after the first operand; nothing after the next
    short = False       # is it only of interest whether it goes on?
    every = 1000        # after so many parts, only some operators are considered

    def kind_of(self, t):
        return ('m', add(t, C(self.lay.T['kind'][0])), 0, 4, 'i')

    def on_store(self, e, fr, st, ins, addr, val, size):
        a = e.res(st, addr)
        if own(root(a) or ('c',)) or a == self.cur:
            v = e.res(st, val)
            if a == self.cur:
                old = st.mem.get(a)
                o, n = split(old[0]) if old else None, split(v)
                if o and n and o[0] == n[0] and n[1] == o[1] + 1:
                    k = self.kind_of(old[0])
                    if e.truth(st, ('eq', sub(k, C(self.done)))) is not False:
                        self.note(st, 'overrun', old[0])
                    self.note(st, 'step', old[0])
        super().on_store(e, fr, st, ins, addr, val, size)

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        if n in FUNCS:
            at = e.res(st, st.mem[self.cur][0])
            bad = st.clone()
            kind = self.w.retkind(f)
            self.note(bad, 'sub', n, R, at, ZERO, None)
            self.note(bad, 'failed')
            if self.short:
                return [(bad, ZERO if ins.res else None)]
            if n not in ('parse_compound_statement', 'parse_expression_2', 'parse_function_arguments'):
                for x in NEVER:
                    e.assume(st, ('ne', sub(self.kind_of(at), C(self.lay.kind(x)))), True)
            bad.mem[self.cur] = (self.group(e, bad), 8, ('struct.Context', self.lay.X['token'][1]))
            k = len([x for x in st.prop if x[0] == 'sub'])
            v = ONE if kind == 'bool' else tok(e, 'node %d' % k)
            new = self.group(e, st)
            st.mem[self.cur] = (new, 8, ('struct.Context', self.lay.X['token'][1]))
            if kind != 'bool':
                no, nz = self.lay.at('Node', 'next')
                st.mem[add(v, C(no))] = (ZERO, 8, ('struct.Node', 1))
                oo, oz = self.lay.at('Node', 'offset')
                for x in ('offset', 'length'):
                    o, z = self.lay.at('Node', x)
                    e.rng[('m', add(v, C(o)), 0, 4, 'i')] = (0, 2 ** 28)
            extra = ()
            if n == 'parse_function_arguments':
                extra = (tok(e, 'argv %d' % k), ('s', 0, 'argc %d' % k, (), '', 'i'))
                e.rng[extra[1]] = (0, 2 ** 20)
                e.rng[extra[0]] = (0, 2 ** 63)
                if len(R) > 2:
                    if R[1] != ZERO:
                        e.put(fr, st, ins, R[1], extra[1], 4, ('elem', 'int'))
                    if R[2] != ZERO:
                        e.put(fr, st, ins, R[2], extra[0], 8, ('elem', 'ptr'))
            if n == 'parse_function_definition':
                for q, x in enumerate(('name', 'expr')):
                    o, z = self.lay.at('FuncDeclNode', x)
                    y = tok(e, '%s %d' % (x, k))
                    st.mem[add(v, C(o))] = (y, 8, ('struct.FuncDeclNode', 1 + q))
                    st.mem[add(y, C(no))] = (ZERO, 8, ('struct.Node', 1))
            if n == 'parse_list_primary_expression':
                o, z = self.lay.at('ListExprNode', 'itemc')
                e.rng[('m', add(v, C(o)), 0, 4, 'i')] = (0, 2 ** 20)
            if n == 'parse_compound_statement' and len(R) > 1 and isc(R[1]):
                e.assume(st, ('eq', sub(self.kind_of(new), R[1])), True)
            self.note(st, 'sub', n, R, at, v, new, extra)
            return [(st, v if ins.res else None), (bad, ZERO if ins.res else None)]
        if n == 'BPAlloc_Malloc':
            r = alloc_result(e, fr, st, ins)
            for x, v in r:
                self.note(x, 'alloc', n, R[1], v)
                if v == ZERO:
                    self.note(x, 'failed')
            return r
        if n == '__errno_location':
            return [(st, tok(e, 'errno'))]
        if n in ('__assert_fail', 'abort'):
            t = st.trail[1] if st.trail else None
            free = t is not None and t.op == 'br' and any(ins in fr.fn.blocks[b].ins for b in t.x if b in fr.fn.blocks)
            self.aborts.append((st, R, not free))
            return []
        if n in ('strtoll', 'strtol', 'strtod', '__isoc23_strtoll', '__isoc23_strtol', 'atoi', 'atoll', 'atof'):
            a = tok(e, 'errno')
            was = st.mem.get(a)
            bad = st.clone()
            v = e.sym(fr, st, ins, ins.ty)
            for s, x in ((st, None), (bad, 34)):
                if x is not None:
                    s.mem[a] = (C(x), 4, ('elem', 'int'))
                self.note(s, 'call', n.replace('__isoc23_', ''), R, v)
                self.note(s, 'range', was[0] if was else None, x is not None)
            return [(st, v), (bad, v)]
        if n == 'strlen':
            v = self.length(e, st, R[0])
            return [(st, v)] if v is not None else None
        return super().on_call(e, fr, st, ins, f, args)

    def length(self, e, st, a):
        """the length of a text copied with its end"""
        for x in reversed(st.prop):
            if x[0] == 'copy' and e.res(st, x[1]) == a:
                n = e.res(st, x[3])
                z = st.mem.get(e.res(st, add(a, n)))
                if z is not None and z[0] == ZERO:
                    return n
        return None


def prepare(m, st):
    h = m.h
    lay = h.lay
    e = m.e
    ctx = m.a['ctx']
    e.assume(st, ('ne', ctx), True)
    h.cur = add(ctx, C(lay.X['token'][0]))
    for x, (o, k, z) in lay.X.items():
        if z == 8:
            e.rng[('m', add(ctx, C(o)), 0, 8, 'p')] = (4096, 2 ** 47)
    h.done = enum(m.w, 'TDONE')
    m.t0 = h.group(e, st)
    st.mem[h.cur] = (m.t0, 8, ('struct.Context', lay.X['token'][1]))
    m.lay = lay
    if m.f.name == 'parse_expression_2':
        h.every = 1


class Unk(Exception):
    """the path does not say which token there is"""


class Wrong(Exception):
    """the path does something else"""


class Refused(Exception):
    """what is written is not of the language"""


class Skip(Exception):
    """nothing to compare"""


class Ref:
    """the language, read along a path"""
    def __init__(self, m, p):
        self.m, self.p, self.lay = m, p, m.lay
        self.subs = [x for x in p.ev if x[0] == 'sub']
        self.k = 0
        self.tok = m.t0

    def kterm(self, t=None):
        return self.m.h.kind_of(t or self.tok)

    def is_(self, *names):
        """is the token one of these kinds?"""
        unk = None
        for n in names:
            b = ('eq', sub(self.kterm(), C(self.lay.kind(n))))
            t = self.p.true(b)
            if t:
                return True
            if t is None:
                unk = unk or b
        if unk is not None:
            raise Unk(unk, ' or '.join(names))
        return False

    def which(self, names):
        unk = None
        for n in names:
            b = ('eq', sub(self.kterm(), C(self.lay.kind(n))))
            t = self.p.true(b)
            if t:
                return n
            if t is None:
                unk = unk or b
        if unk is not None:
            raise Unk(unk, ' or '.join(names))
        return None

    def next(self):
        g, k = split(self.tok)
        if k + 1 >= CHAIN:
            raise Skip()
        self.tok = ('s', 0, '@tok %d.%d' % (g, k + 1), (), '', 'p')

    def want(self, *names):
        if not self.is_(*names):
            raise Refused('/'.join(names))
        self.next()

    def of(self, t, n):
        T = self.lay.T[n]
        return ('m', add(t, C(T[0])), 0, T[2], 'i')

    def place(self, node):
        """offset of a node (or of a token)"""
        if isinstance(node, dict):
            return node['offset']
        o, z = self.lay.at('Node', 'offset')
        return ('m', add(node, C(o)), 0, z, 'i')

    def sub(self, name, *args):
        x = self.subs[self.k] if self.k < len(self.subs) else None
        if x is None or x[1] != name:
            f = REFS.get(name)
            if f is None or self.depth > 6:
                raise Wrong('%s is not parsed' % NAMES.get(name, name))
            self.depth += 1
            r = f(self, *args)
            self.depth -= 1
            return r
        self.k += 1
        if x[3] != self.tok:
            raise Wrong('%s starts at another token' % NAMES.get(name, name))
        for k, a in enumerate(args):
            if a is None:
                continue
            if k + 1 >= len(x[2]):
                break
            g = self.p.res(x[2][k + 1])
            if isbool(g) or isinstance(a, tuple) and isbool(a):
                b = a if isinstance(a, tuple) else C(a)
                x1, y1 = (self.p.true(z if isbool(z) else ('ne', z)) for z in (g, b))
                if x1 != y1 or x1 is None and not bool_eq(g, b):
                    raise Wrong('%s is parsed as it is parsed elsewhere' % NAMES.get(name, name))
                continue
            if isinstance(a, tuple) and a and a[0] == 'any':
                if not a[1](g):
                    raise Wrong('%s is parsed with another %s' % (NAMES.get(name, name), a[2]))
                continue
            if isinstance(a, dict):
                a['at'] = g
                bad = self.m.compare(self.p, g, a)
                if bad:
                    raise Wrong('%s: %s' % (NAMES.get(name, name), bad))
            elif self.p.differ(g, a if isinstance(a, tuple) else C(a)):
                raise Wrong('%s is parsed as it is parsed elsewhere' % NAMES.get(name, name))
        if x[4] == ZERO:
            raise Skip()
        self.tok = x[5]
        self.extra = x[6] if len(x) > 6 else ()
        return x[4]

    depth = 0
    extra = ()

    def node(self, struct, kind, offset, ekind=None, **fields):
        b = 'base.base' if ekind else 'base'
        if struct == 'Node':
            b = ''
        elif struct == 'ExprNode':
            b = 'base'
        d = {'struct': struct, 'offset': offset, 'f': {}}
        pre = b + '.' if b else ''
        d['f'][pre + 'kind'] = C(enum(self.m.w, kind))
        d['f'][pre + 'offset'] = offset
        d['f'][pre + 'next'] = ZERO
        if ekind:
            d['f'][pre[:-5] + 'kind' if struct != 'ExprNode' else 'kind'] = C(enum(self.m.w, ekind))
        d['f'].update(fields)
        return d


NAMES = {'parse_statement': 'a statement', 'parse_expression': 'an expression', 'parse_expression_2': 'the rest of an expression',
         'parse_expression_statement': 'an expression statement', 'parse_ifelse_statement': 'an if statement', 'parse_compound_statement': 'a block',
         'parse_function_definition': 'a function', 'parse_function_arguments': 'a list of parameters', 'parse_postfix_expression': 'a postfix expression',
         'parse_prefix_expression': 'an operand', 'parse_while_statement': 'a while statement', 'parse_dowhile_statement': 'a do-while statement',
         'parse_string_primary_expression': 'a string', 'parse_list_primary_expression': 'a list', 'parse_map_primary_expression': 'a map',
         'parse_primary_expresion': 'a primary expression'}


# the language ---------------------------------------------------------------

def statement(r):
    k = r.which(STARTS + ('TKWIF', '{', 'TKWBREAK', 'TKWRETURN', 'TKWFUN', 'TKWWHILE', 'TKWDO'))
    if k is None:
        raise Refused('a statement')
    if k in STARTS:
        return r.sub('parse_expression_statement')
    if k == 'TKWIF':
        return r.sub('parse_ifelse_statement')
    if k == 'TKWFUN':
        return r.sub('parse_function_definition')
    if k == 'TKWWHILE':
        return r.sub('parse_while_statement')
    if k == 'TKWDO':
        return r.sub('parse_dowhile_statement')
    t = r.tok
    r.next()
    if k == '{':
        n = r.sub('parse_compound_statement', ord('}'))
        r.next()
        return n
    if k == 'TKWBREAK':
        r.want(';')
        return r.node('Node', 'NODE_BREAK', r.of(t, 'offset'))
    v = r.sub('parse_expression', 1, 1)
    r.want(';')
    return r.node('ReturnNode', 'NODE_RETURN', r.of(t, 'offset'), val=v)


def expression_statement(r):
    n = r.sub('parse_expression', 1, 1)
    r.want(';')
    return n


def ifelse(r):
    t = r.tok
    r.want('TKWIF')
    c = r.sub('parse_expression', 1, 1)
    r.want(':')
    a = r.sub('parse_statement')
    b = ZERO
    if r.is_('TKWELSE'):
        r.next()
        b = r.sub('parse_statement')
    return r.node('IfElseNode', 'NODE_IFELSE', r.of(t, 'offset'), condition=c, true_branch=a, false_branch=b)


def while_(r):
    t = r.tok
    r.want('TKWWHILE')
    c = r.sub('parse_expression', 1, 1)
    r.want(':')
    b = r.sub('parse_statement')
    return r.node('WhileNode', 'NODE_WHILE', r.of(t, 'offset'), condition=c, body=b)


def dowhile(r):
    t = r.tok
    r.want('TKWDO')
    b = r.sub('parse_statement')
    r.want('TKWWHILE')
    c = r.sub('parse_expression', 1, 1)
    r.want(';')
    return r.node('DoWhileNode', 'NODE_DOWHILE', r.of(t, 'offset'), condition=c, body=b)


def compound(r, end=None):
    if end is None:
        end = r.m.end
    if isinstance(end, int):
        end = chr(end) if end < 256 else 'TDONE'
    out = []
    while not r.is_(*dict.fromkeys((end, 'TDONE'))):
        out.append(r.sub('parse_statement'))
    if not r.is_(end):
        raise Refused(end)
    return r.node('CompoundNode', 'NODE_COMP', r.place(out[0]) if out else None, head=['chain'] + out)


def definition(r):
    t = r.tok
    r.want('TKWFUN')
    n = r.tok
    if not r.is_('TIDENT'):
        raise Refused('a name')
    r.sub('parse_function_arguments')
    if r.extra:
        argv, argc = r.extra
    else:
        argv, argc = r.args
    b = r.sub('parse_statement')
    o = r.of(t, 'offset')
    name = r.node('StringExprNode', 'NODE_EXPR', r.of(n, 'offset'), 'EXPR_STRING', val=('text', n), len=r.of(n, 'length'))
    expr = r.node('FuncExprNode', 'NODE_EXPR', o, 'EXPR_FUNC', argv=argv, argc=argc, body=b)
    return r.node('FuncDeclNode', 'NODE_FUNC', o, name=name, expr=expr)


def arguments(r):
    r.next()
    r.want('(')
    out = []
    if not r.is_(')'):
        while True:
            n = r.tok
            r.want('TIDENT')
            ty = de = ZERO
            if r.is_(':'):
                r.next()
                ty = r.sub('parse_expression', 0, 0)
            if r.is_('='):
                r.next()
                de = r.sub('parse_expression', 0, 1)
            d = r.node('ArgumentNode', 'NODE_ARG', None, name=('text', n), type=ty, value=de)
            out.append(d)
            if r.is_(')'):
                break
            r.want(',')
    r.next()
    for x in out:
        del x['f']['base.next']
    r.args = ['chain'] + out[::-1], C(len(out))
    return ('pair', r.args[0], r.args[1])


def postfix(r):
    first = r.tok
    n = r.sub('parse_primary_expresion')
    while True:
        k = r.which(('.', 'TARW', '[', '('))
        if k is None:
            return n
        o = r.place(n)
        if k in ('.', 'TARW'):
            r.next()
            t = r.tok
            r.want('TIDENT')
            idx = r.node('StringExprNode', 'NODE_EXPR', r.of(t, 'offset'), 'EXPR_STRING', val=('text', t), len=r.of(t, 'length'))
            n = r.node('IndexSelectionExprNode', 'NODE_EXPR', o, 'EXPR_ARW' if k == 'TARW' else 'EXPR_SELECT', set=n, idx=idx)
        elif k == '[':
            ls = r.sub('parse_list_primary_expression')
            if isinstance(ls, dict):
                raise Skip()
            off, z = r.lay.at('ListExprNode', 'itemc')
            cnt = ('m', add(ls, C(off)), 0, z, 'i')
            t = r.p.true(('eq', cnt))
            if t is None:
                raise Unk(('eq', cnt), 'the number of indices')
            if t:
                raise Refused('an index')
            t = r.p.true(('eq', sub(cnt, ONE)))
            if t is None:
                raise Unk(('eq', sub(cnt, ONE)), 'the number of indices')
            off, z = r.lay.at('ListExprNode', 'items')
            idx = ('m', add(ls, C(off)), 0, 8, 'p') if t else ls
            n = r.node('IndexSelectionExprNode', 'NODE_EXPR', o, 'EXPR_SELECT', set=n, idx=idx)
        else:
            t = r.tok
            r.next()
            av = []
            if not r.is_(')'):
                while True:
                    av.append(r.sub('parse_expression', 0, 1))
                    if r.is_(')'):
                        break
                    r.want(',')
            r.next()
            n = r.node('CallExprNode', 'NODE_EXPR', r.of(t, 'offset'), 'EXPR_CALL', func=n, argv=['chain'] + av[::-1], argc=C(len(av)))


def primary(r):
    k = r.which(('[', '{', '(', 'TINT', 'TFLOAT', 'TSTRING', 'TKWNONE', 'TKWTRUE', 'TKWFALSE', 'TIDENT'))
    if k is None:
        raise Refused('a value')
    t = r.tok
    o = r.of(t, 'offset')
    if k == '[':
        return r.sub('parse_list_primary_expression')
    if k == '{':
        return r.sub('parse_map_primary_expression')
    if k == 'TSTRING':
        return r.sub('parse_string_primary_expression')
    r.next()
    if k == '(':
        n = r.sub('parse_expression', 1, 1)
        r.want(')')
        return n
    if k in ('TINT', 'TFLOAT'):
        v = number(r, t, k)
        return r.node('IntExprNode' if k == 'TINT' else 'FloatExprNode', 'NODE_EXPR', o, 'EXPR_INT' if k == 'TINT' else 'EXPR_FLOAT', val=v)
    if k == 'TIDENT':
        return r.node('IdentExprNode', 'NODE_EXPR', o, 'EXPR_IDENT', val=('text', t), len=r.of(t, 'length'))
    return r.node('ExprNode', 'NODE_EXPR', o, {'TKWNONE': 'EXPR_NONE', 'TKWTRUE': 'EXPR_TRUE', 'TKWFALSE': 'EXPR_FALSE'}[k])


def number(r, t, k):
    """the value of the number written"""
    p = r.p
    size = r.of(t, 'length')
    cs = p.calls('strtoll' if k == 'TINT' else 'strtod')
    if not cs:
        if p.may(('le', sub(size, C(63)))) is False:
            raise Refused('a number of at most 63 characters')
        if p.calls():
            raise Wrong('a number is converted by %s' % p.calls()[0][1])
        raise Wrong('a number is not converted')
    c = cs[-1]
    text_check(r, c[2][0], t)
    if k == 'TINT' and p.differ(c[2][2], C(10)):
        raise Wrong('a number is not read as a decimal one')
    for x in p.ev:
        if x[0] == 'range':
            if x[1] is None or p.differ(x[1], ZERO):
                raise Wrong('the range error of an earlier conversion is taken for one of a number')
            if x[2]:
                raise Refused('a number that can be represented')
    return c[3]


def text_check(r, a, t):
    """the memory holds the text of the token and its end"""
    bad = r.m.text(r.p, a, t)
    if bad:
        raise Wrong(bad)


def list_(r):
    t = r.tok
    r.want('[')
    out = []
    if not r.is_(']'):
        while True:
            out.append(r.sub('parse_expression', 0, 1))
            if r.is_(']'):
                break
            r.want(',')
    r.next()
    return r.node('ListExprNode', 'NODE_EXPR', r.of(t, 'offset'), 'EXPR_LIST', items=['chain'] + out, itemc=C(len(out)))


def map_(r):
    t = r.tok
    r.want('{')
    ks, vs = [], []
    if not r.is_('}'):
        while True:
            fun = r.is_('TKWFUN')
            if fun:
                f = r.sub('parse_function_definition')
                if isinstance(f, dict):
                    raise Skip()
                for l, x in ((ks, 'name'), (vs, 'expr')):
                    l.append(('s', 0, f[2].replace('node', x), (), '', 'p'))
            else:
                if r.is_('TDONE'):
                    raise Refused('a key')
                k = r.tok
                single = False
                if r.is_('TIDENT'):
                    r.next()
                    single = r.is_(':', 'TDONE')
                    if not single:
                        r.tok = k
                if single:
                    ks.append(r.node('StringExprNode', 'NODE_EXPR', r.of(k, 'offset'), 'EXPR_STRING', val=('text', k), len=r.of(k, 'length')))
                else:
                    ks.append(r.sub('parse_expression', 0, 1))
                r.want(':')
                vs.append(r.sub('parse_expression', 0, 1))
            if r.is_('}'):
                break
            if not fun:
                r.want(',')
    r.next()
    for x in ks:
        if isinstance(x, dict):
            x['f'].pop('base.base.next')
    return r.node('MapExprNode', 'NODE_EXPR', r.of(t, 'offset'), 'EXPR_MAP', keys=['chain'] + ks, items=['chain'] + vs, itemc=C(len(ks)))


def prefix(r):
    k = r.which(tuple(PREFIX) + ('TDONE',))
    if k == 'TDONE':
        raise Refused('an operand')
    if k is None:
        return r.sub('parse_postfix_expression')
    t = r.tok
    r.next()
    n = r.sub('parse_prefix_expression')
    return r.node('OperExprNode', 'NODE_EXPR', r.of(t, 'offset'), PREFIX[k], head=['chain', n], count=ONE)


def expression(r, tuples=None, assigns=None):
    a = r.m.a
    tuples = a['tuples'] if tuples is None else tuples
    assigns = a['assigns'] if assigns is None else assigns
    n = r.sub('parse_prefix_expression')
    t = r.p.true(('eq', sub(r.kterm(), C(r.lay.kind('TDONE')))))
    if t:
        if r.k < len(r.subs):
            r.sub('parse_expression_2', n, ('any', lowest, 'lowest level'), flag(tuples), flag(assigns))
        return n
    if t is None:
        # whatever follows is read by the other function
        pass
    return r.sub('parse_expression_2', n, ('any', lowest, 'lowest level'), flag(tuples), flag(assigns))


def lowest(q):
    return not isc(q) or q[1] <= min(LEVEL.values())


def flag(x):
    return C(x) if isinstance(x, int) else ('ne', x)


def rest(r, left=None, least=None, tuples=None, assigns=None):
    """the operators that follow, as long as they bind as tightly as asked for"""
    a = r.m.a
    p = r.p
    left = a['left'] if left is None else left
    least = a['least'] if least is None else least
    tuples = a['tuples'] if tuples is None else tuples
    assigns = a['assigns'] if assigns is None else assigns

    def yes(f, name):
        if isinstance(f, int):
            return bool(f)
        t = p.true(('ne', f))
        if t is None:
            raise Unk(('ne', f), name)
        return t
    n = left
    while True:
        op = r.which(BINOPS)
        if op is None:
            return n
        lv = LEVEL[op]
        b = ('le', sub(least, C(lv)))
        t = p.true(b)
        if t is None:
            raise Unk(b, 'the level asked for')
        if not t:
            return n
        if op == ',' and not yes(tuples, 'whether tuples are allowed') or op == '=' and not yes(assigns, 'whether assignments are allowed'):
            return n
        r.next()
        x = r.sub('parse_prefix_expression')
        while True:
            o2 = r.which(BINOPS)
            if o2 is None:
                break
            l2 = LEVEL[o2]
            if not (l2 > lv or l2 == lv and o2 in RIGHT):
                break
            ok = ('any', lambda q: not isc(q) or (lv < q[1] <= l2 if l2 > lv else q[1] == lv), 'level')
            x = r.sub('parse_expression_2', x, ok, flag(tuples), flag(assigns))
            c = p.true(('eq', sub(r.kterm(), C(ord(',')))))
            if c is not False and p.true(('ne', tuples)) is False if not isinstance(tuples, int) else c and not tuples:
                if c is None:
                    raise Unk(('eq', sub(r.kterm(), C(ord(',')))), ',')
                break
        n = r.node('OperExprNode', 'NODE_EXPR', r.place(n), BINOPS[op], head=['chain', n, x], count=C(2))


REFS = {'parse_statement': statement, 'parse_expression': expression, 'parse_expression_2': rest, 'parse_expression_statement': expression_statement,
        'parse_ifelse_statement': ifelse, 'parse_compound_statement': compound, 'parse_function_definition': definition,
        'parse_function_arguments': arguments, 'parse_postfix_expression': postfix, 'parse_prefix_expression': prefix, 'parse_while_statement': while_,
        'parse_dowhile_statement': dowhile, 'parse_list_primary_expression': list_, 'parse_map_primary_expression': map_, 'parse_primary_expresion': primary}


class Parsed(Method):
    """a function of the parser, followed"""
    def text(self, p, a, t):
        """is this the text of the token?  what is wrong with it"""
        T = self.lay.T
        so, sz = self.lay.X['src'][0], 8
        src = add(('m', add(self.a['ctx'], C(so)), 0, 8, 'p'), ('m', add(t, C(T['offset'][0])), 0, 4, 'i'))
        n = ('m', add(t, C(T['length'][0])), 0, 4, 'i')
        a = p.res(a)
        cs = [x for x in p.kind('copy') if p.same(x[1], a)]
        if not cs:
            return None if lost(a) else 'the text of a token is not copied'
        c = cs[-1]
        if p.differ(c[2], src):
            return 'another text than that of the token is copied'
        if p.differ(c[3], n):
            return 'another number of characters than those of the token is copied'
        end = p.cell(add(a, n))
        if end is None:
            return 'the copy of the text of a token has no end'
        if end and p.differ(end, ZERO):
            return 'the copy of the text of a token has no end'
        for x in p.kind('alloc'):
            if p.same(x[3], a) and p.may(('le', sub(x[2], n))):
                return 'the copy of the text of a token does not fit'
        return None

    def compare(self, p, a, d):
        """is the node at an address the one described?"""
        a = p.res(a)
        if isinstance(d, tuple):
            if d and d[0] == 'text':
                return self.text(p, a, d[1])
            return 'another value than what was read' if p.differ(a, d) else None
        if isinstance(d, list):
            for x in d[1:]:
                if a == ZERO:
                    return 'a part is missing'
                if isinstance(x, dict):
                    x['linked'] = True
                bad = self.compare(p, a, x)
                if bad:
                    return bad
                o, z = self.lay.at('Node', 'next')
                v = p.cell(add(a, C(o)))
                if v is False:
                    return None
                if v is None:
                    v = p.res(('m', add(a, C(o)), 0, 8, 'p'))
                    if x is not d[-1] or root(a) and root(a)[0] == 'alloc':
                        return 'the parts are not linked'
                    return None
                a = p.res(v)
            if p.differ(a, ZERO):
                return 'there are more parts than were read'
            return None
        if a == ZERO:
            return 'nothing is made of it'
        if d.get('at') is None:
            d['at'] = a
        for n, want in d['f'].items():
            if want is None:
                continue
            o, z = self.lay.at(d['struct'], n)
            v = p.cell(add(a, C(o)))
            if v is False:
                continue
            if v is None:
                if root(a) and root(a)[0] == 'alloc' or own(root(a) or ('c',)):
                    return 'the %s of a node is not set' % n.split('.')[-1]
                continue
            if n.endswith('next') and d.get('linked'):
                continue
            bad = self.compare(p, v, want)
            if bad:
                return 'the %s of a node: %s' % (n.split('.')[-1], bad)
        return None


def check(s, m, ref):
    got = set()
    for st, R, sure in m.h.aborts:
        if sure:
            s.bad(m, Path(m, st, None), 'aborts', 'the parser aborts')
    for p in m.paths:
        s.res.count('outcomes')
        ok = p.ret != ZERO and p.ret is not None
        if p.failed:
            continue
        r = Ref(m, p)
        m.args_out = None
        try:
            want = ref(r)
        except Skip:
            continue
        except Refused as x:
            if ok:
                s.bad(m, p, 'accepted:' + str(x), 'something is accepted that has no %s where it needs one' % x)
            got.add('refuses')
            continue
        except Wrong as x:
            if ok:
                s.bad(m, p, 'wrong:' + str(x), str(x))
            elif p.reports:
                # it is refused before everything was read: is it certain that it has to be?
                s.bad(m, p, 'refused:' + str(x), 'something that may be right is refused: %s' % x)
            continue
        except Unk as x:
            if ok:
                c = p.may(neg(x.args[0]))
                d = p.may(x.args[0])
                if c and d:
                    s.bad(m, p, 'blind:' + x.args[1], 'it goes on without looking for %s' % x.args[1])
                elif c is None:
                    s.res.note('%s: %s is not decided' % (m.f.name, x.args[1]))
            elif p.may(x.args[0]):
                s.bad(m, p, 'refused:' + x.args[1], 'it is refused though there may be %s' % x.args[1])
            continue
        if not ok:
            s.bad(m, p, 'refused', 'something that is right is refused')
            continue
        got.add('makes')
        if r.k < len(r.subs):
            s.bad(m, p, 'more', 'more is read than there is to it: %s' % NAMES.get(r.subs[r.k][1]))
            continue
        end = p.cell(m.h.cur)
        if end and p.differ(end, r.tok) is not False and end != r.tok:
            s.bad(m, p, 'end', 'it ends at another token')
        bad = None
        if isinstance(want, tuple) and want and want[0] == 'pair':
            for x, n in ((want[1], 'argv'), (want[2], 'argc')):
                v = p.cell(m.a[n])
                bad = bad or ('the %s is not given back' % n if v is None else m.compare(p, v, x) if v else None)
        else:
            if isinstance(want, dict) and not isinstance(p.ret, dict):
                pass
            bad = m.compare(p, p.ret, want)
        if bad:
            if DEBUG:
                print(bad, want, [x for x in p.ev if x[0] != 'store'])
                raise SystemExit
            s.bad(m, p, 'node:' + bad, 'the result of the parser is not what is written: %s' % bad)
    return got


def one(w, ob, res, fname, turns, fix=None, args=None, end=None):
    s = F(w, ob, res, 'parser')
    f = w.p.fn(fname)
    if f is None:
        res.note('%s is gone: not decided' % fname)
        return None, s
    ct = w.ctypes(f)[1:]

    def pre(m, st):
        prepare(m, st)
        m.end = end
        if fix:
            fix(m, st)
    a = args or ['ctx']
    if len(a) != len(f.params):
        res.note('%s has other parameters: not decided' % fname)
        return None, s
    Parsed_ = Parsed(w, ob, f, None, a, pre=pre, hooks=ParseHooks, turns=turns)
    res.count('functions')
    res.count('paths', len(Parsed_.paths))
    if Parsed_.undecided:
        res.note('%s: %s: not decided' % (fname, Parsed_.undecided))
    return Parsed_, s


SIMPLE = ('parse_statement', 'parse_expression_statement', 'parse_ifelse_statement', 'parse_while_statement', 'parse_dowhile_statement',
          'parse_function_definition', 'parse_primary_expresion', 'parse_postfix_expression', 'parse_list_primary_expression', 'parse_map_primary_expression')


def first(k):
    return lambda m, st: m.e.assume(st, ('eq', sub(m.h.kind_of(m.t0), C(m.lay.kind(k)))), True)


REST = ['ctx', 'left', 'least:i', 'tuples:b', 'assigns:b']


def level(x):
    """the level of an operator: up to what level asked for it goes on"""
    w, ob, k = x
    res = Result()

    def fix(m, st):
        first(k)(m, st)
        m.h.short = True
        for n in ('tuples', 'assigns'):
            m.e.assume(st, ('ne', m.a[n]), True)
    m, s = one(w, ob, res, 'parse_expression_2', 1, fix=fix, args=REST)
    on, off = set(), set()
    for p in m.paths if m is not None else ():
        (on if any(x[0] == 'sub' for x in p.ev) else off).add(p.e.b1(p.st, p.e.res(p.st, m.a['least'])))
    hi = max([h for l, h in on], default=None)
    lo = min([l for l, h in off], default=None)
    return hi if hi is not None and lo == hi + 1 else None


def levels(w, ob, res):
    """do the operators bind in the order they should?"""
    L = dict(zip(BINOPS, pmap(level, [(w, ob, k) for k in BINOPS])))
    f = w.p.fn('parse_expression_2')
    for k in L:
        if L[k] is None:
            res.note('how tight %s binds is not known: not decided' % k)
            return None
        for o in L:
            if L[o] is None:
                continue
            a, b = L[k] - L[o], LEVEL[k] - LEVEL[o]
            res.count('pairs')
            if a > 0 >= b or a < 0 <= b or a == 0 != b:
                if k < o:
                    res.add('parser.%s:order:%s:%s' % (f.name, k, o), '%s:%d' % (f.file, f.line), 'parser', '%s and %s do not bind as they should' % (k, o))
    return L


def job(x):
    w, ob, tier, what, arg = x
    res = Result()
    if what in ('rest', 'pair', 'expression'):
        if isinstance(tier, dict):
            LEVEL.update(tier)
            tier = 'quick'
    t = 3 if tier == 'thorough' else 2
    if what == 'compound':
        m, s = one(w, ob, res, 'parse_compound_statement', t + 1, args=['ctx', C(arg)], end=arg)
        ref = compound
    elif what == 'rest':
        m, s = one(w, ob, res, 'parse_expression_2', 1, fix=first(arg), args=REST)
        ref = rest
    elif what == 'pair':
        def fix(m, st):
            first(arg[0])(m, st)
            m.h.second = arg[1]
        m, s = one(w, ob, res, 'parse_expression_2', 2, fix=fix, args=REST)
        ref = rest
    elif what == 'expression':
        m, s = one(w, ob, res, 'parse_expression', t, args=['ctx', 'tuples:b', 'assigns:b'])
        ref = expression
    elif what == 'arguments':
        m, s = one(w, ob, res, 'parse_function_arguments', t, args=['ctx', 'argc', 'argv'])
        ref = arguments
    else:
        m, s = one(w, ob, res, what, 1 if what == 'parse_postfix_expression' else t)
        ref = REFS[what]
    if m is not None:
        got = check(s, m, ref)
        res.count('constructs', len(got))
    return res


def whole(w, ob, res):
    """a source is parsed from its first token to its end"""
    s = F(w, ob, res, 'parser')
    f = s.fn('parse')

    class H(ObjHooks):
        engine = Apart

        def on_call(self, e, fr, st, ins, f, args):
            n = f if isinstance(f, str) else f.name if f is not None else None
            R = tuple(e.res(st, a) for a in args)
            if n == 'tokenize':
                bad = st.clone()
                self.note(bad, 'failed')
                v = tok(e, 'first token')
                self.note(st, 'call', n, R, v)
                return [(st, v), (bad, ZERO)]
            if n == 'parse_compound_statement':
                bad = st.clone()
                self.note(bad, 'failed')
                v = tok(e, 'node')
                lay = Lay(self.w)
                self.note(st, 'call', n, R, v)
                for x in ('src', 'token', 'alloc', 'error', 'error_offset'):
                    c = st.mem.get(e.res(st, add(R[0], C(lay.X[x][0]))))
                    self.note(st, 'ctx', x, e.res(st, c[0]) if c else None)
                return [(st, v), (bad, ZERO)]
            if n == 'Source_GetBody':
                return [(st, tok(e, 'body'))]
            if n == 'BPAlloc_Malloc':
                r = alloc_result(e, fr, st, ins)
                for x, v in r:
                    if v == ZERO:
                        self.note(x, 'failed')
                return r
            return super().on_call(e, fr, st, ins, f, args)
    m = s.follow(f, ['source', 'alloc', 'error', 'error_offset'], hooks=H, pre=lambda m, st: m.e.assume(st, ('ne', m.a['source']), True))
    got = set()
    for p in m.paths:
        if p.failed:
            continue
        res.count('outcomes')
        if p.ret == ZERO:
            s.bad(m, p, 'refused', 'a source that was parsed is refused')
            continue
        got.add('parses')
        t, c = p.calls('tokenize'), p.calls('parse_compound_statement')
        if len(t) != 1 or len(c) != 1:
            s.bad(m, p, 'once', 'a source is not parsed once')
            continue
        if p.differ(t[0][2][0], m['source']):
            s.bad(m, p, 'source', 'another source is split into tokens')
        if p.differ(c[0][2][1], C(enum(w, 'TDONE'))):
            s.bad(m, p, 'end', 'a source is not parsed to its end')
        want = {'token': t[0][3], 'alloc': m['alloc'], 'error': m['error'], 'error_offset': m['error_offset']}
        for x in p.ev:
            if x[0] == 'ctx' and x[1] in want and (x[2] is None or p.differ(x[2], want[x[1]])):
                s.bad(m, p, x[1], 'the parser does not start with the %s it was given' % x[1])
        for n, v in (('src', m['source']), ('root', c[0][3])):
            o, z = [(o, z) for x, o, ct, z in w.p.di_struct('xAST', f.mod) if x == n][0]
            g = p.cell(add(p.ret, C(o)))
            if g is None or g and p.differ(g, v):
                s.bad(m, p, n, 'the result of parsing does not have the %s' % n)
    s.needs(m, ('parses',), got)


def jobs(tier):
    return {'operators': [('rest', k) for k in BINOPS] + [('pair', (k, o)) for k in BINOPS for o in BINOPS] + [('expression', None), ('parse_prefix_expression', None)],
            'grammar': [(n, None) for n in SIMPLE] + [('compound', 125), ('compound', 256), ('arguments', None)]}


def run_jobs(tier, kind):
    w = World()
    ob = Objs(w)
    res = Result()
    L = None
    if kind == 'operators':
        L = levels(w, ob, res)
        if L is None:
            return w, ob, res
    for r in pmap(job, [(w, ob, L or tier, a, b) for a, b in jobs(tier)[kind]]):
        res.merge(r)
    return w, ob, res


def operators(tier):
    w, ob, res = run_jobs(tier, 'operators')
    res.need('outcomes', 2000)
    res.need('constructs', 15)
    return res


def grammar(tier):
    w, ob, res = run_jobs(tier, 'grammar')
    whole(w, ob, res)
    res.need('outcomes', 800)
    res.need('constructs', 20)
    return res


def ejob(x):
    w, ob, tier, what, arg = x
    res = Result()
    s = F(w, ob, res, 'parser')
    if what == 'compound':
        m, s = one(w, ob, res, 'parse_compound_statement', 3, args=['ctx', C(arg)], end=arg)
    elif what == 'rest':
        m, s = one(w, ob, res, 'parse_expression_2', 1, args=REST, fix=first(arg))
    elif what == 'expression':
        m, s = one(w, ob, res, 'parse_expression', 2, args=['ctx', 'tuples:b', 'assigns:b'])
    elif what == 'arguments':
        m, s = one(w, ob, res, 'parse_function_arguments', 2, args=['ctx', 'argc', 'argv'], fix=first('TIDENT'))
    else:
        m, s = one(w, ob, res, what, 1 if 'postfix' in what or tier != 'thorough' else 2)
    edges = set()
    if m is None:
        return res, edges
    for st, R, sure in m.h.aborts:
        p = Path(m, st, None)
        t = p.cell(m.h.cur)
        if t and p.true(('eq', sub(m.h.kind_of(t), C(m.h.done)))):
            s.bad(m, p, 'overrun', 'the parser goes on at the end of the source and aborts')
    for p in m.paths:
        res.count('outcomes')
        for x in p.ev:
            if x[0] == 'step':
                res.count('steps')
            elif x[0] == 'overrun':
                s.bad(m, p, 'overrun', 'the parser may go on past the end of the source')
            elif x[0] == 'sub':
                if x[1] == 'parse_function_arguments' and p.m.lay and x[3] is not None:
                    k = ('eq', sub(m.h.kind_of(x[3]), C(m.lay.kind('TIDENT'))))
                    if p.true(k) is not True:
                        s.bad(m, p, 'name', 'the parameters of a function are parsed without a name before them')
                if x[3] == m.t0:
                    edges.add((m.f.name, x[1]))
        ok = p.ret != ZERO and p.ret is not None
        end = p.cell(m.h.cur)
        if ok and not p.failed and m.f.name not in ('parse_compound_statement', 'parse_expression_2'):
            if end and end == m.t0:
                s.bad(m, p, 'nothing', 'something is parsed out of nothing')
        if ok and m.f.name == 'parse_compound_statement' and end:
            k = ('eq', sub(m.h.kind_of(end), C(arg)))
            if p.true(k) is not True and p.may(neg(k)):
                s.bad(m, p, 'end', 'a block may end without its end')
    return res, edges


def ends(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    J = jobs(tier)
    g = {}
    for r, ed in pmap(ejob, [(w, ob, tier, a, b) for a, b in J['grammar'] + J['operators'] if a != 'pair']):
        res.merge(r)
        for a, b in ed:
            g.setdefault(a, set()).add(b)
    # parsing something must not come back to itself without a token in between

    def reach(a):
        seen, todo = set(), list(g.get(a, ()))
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += g.get(x, ())
        return seen
    s = F(w, ob, res, 'parser')
    for a in sorted(g):
        res.count('starts', len(g[a]))
        if a in reach(a):
            f = w.p.fn(a)
            res.add('parser.%s:recursion' % a, '%s:%d' % (f.file, f.line), 'parser', '%s comes back to itself without having consumed a token' % a)
    res.need('steps', 300)
    res.need('starts', 10)
    return res

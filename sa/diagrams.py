"""C01: diagrams of syntax trees."""
import itertools
import re
import codegen
from heap import *
from cli import CliHooks

FMT = re.compile(r'%(%|[-+ #0]*(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|z|j|t)?([diouxXcsgGeEfFp]))')
TEXTS = ['', 'a'] + [''.join(x) for n in (1, 2) for x in itertools.product('a"\\\n\t', repeat=n)] + ['a"b', '"a"', '\\n"', 'a\\', 'ab\ncd', '\\\\"\n\t', "it's", 'a%sb', '}', '->']
LABELS = {'EXPR_POS': '+', 'EXPR_NEG': '-', 'EXPR_NOT': '!', 'EXPR_ADD': '+', 'EXPR_SUB': '-', 'EXPR_MUL': '*', 'EXPR_DIV': '/', 'EXPR_MOD': '%', 'EXPR_EQL': '==', 'EXPR_NQL': '!=', 'EXPR_LSS': '<', 'EXPR_LEQ': '<=',
          'EXPR_GRT': '>', 'EXPR_GEQ': '>=', 'EXPR_AND': 'and', 'EXPR_OR': 'or', 'EXPR_ASS': '=', 'EXPR_ARW': '->', 'EXPR_NONE': 'none', 'EXPR_TRUE': 'true', 'EXPR_FALSE': 'false'}
SAME = {'&times;': '*', '&#215;': '*', '\u00d7': '*', '&lt;': '<', '&gt;': '>', '&le;': '<=', '&ge;': '>=', '&lt;=': '<=', '&gt;=': '>=', '-&gt;': '->', '&ne;': '!=', '&&': 'and', '||': 'or', 'not': '!'}


class Diag(CliHooks):
    """texts are formatted into pieces: characters, names and values"""
    entry = ()
    appends = frozenset()
    lists = {}
    rooms = {}

    def apart(self, e, a, b):
        return a != b and a[0] == 'alloc' and b[0] == 'alloc' or super().apart(e, a, b)

    def pieces(self, e, st, fmt, args):
        """the formatted text; None if it is not understood"""
        f = self.text(e, st, fmt)
        if f is None:
            return None
        out, pos, k = [], 0, 0
        args = list(args)
        for m in FMT.finditer(f):
            if m.start() > pos:
                out.append(f[pos:m.start()])
            pos = m.end()
            if m.group(1) == '%':
                out.append('%')
                continue
            prec = None
            for g in (2, 3):
                if m.group(g) == '*':
                    if not args:
                        return None
                    prec = args.pop(0) if g == 3 else args.pop(0) and prec
            if m.group(3) and m.group(3).isdigit():
                prec = C(int(m.group(3)))
            if not args:
                return None
            a = e.res(st, args.pop(0))
            c = m.group(5)
            if c == 's':
                t = self.text(e, st, a)
                if t is None:
                    x = [y for y in st.prop or () if y[0] == 'name' and e.res(st, y[1]) == a]
                    if x:
                        out += x[-1][2]
                        continue
                    out.append(('s', a, prec))
                    continue
                if prec is not None:
                    if not isc(prec):
                        return None
                    if prec[1] >= 0:
                        t = t[:prec[1]]
                out.append(t)
            elif isc(a) and c in 'diu':
                out.append(str(a[1]))
            else:
                out.append((c, a, m.group(4)))
        if pos < len(f):
            out.append(f[pos:])
        return out

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        if n in ('snprintf', 'sprintf'):
            k = 2 if n == 'snprintf' else 1
            p = self.pieces(e, st, R[k], R[k + 1:])
            self.note(st, 'name', R[0], tuple(p) if p is not None else (('?', R[0], None),), R[1] if k == 2 else None)
            return [(st, C(0) if ins.res else None)]
        g = getattr(f, 'gid', None)
        if g in self.appends:
            k = self.fmt_at(f)
            p = self.pieces(e, st, R[k], R[k + 1:])
            self.note(st, 'append', g, tuple(p) if p is not None else None, R[0])
            return [(st, e.sym(fr, st, ins, ins.ty) if ins.res else None)]
        if g in self.lists:
            k = self.lists[g]
            r = root(R[k['array']])
            if r is not None and r[0] == 'loc' and isc(R[k['max']]):
                z = self.rooms.get(str(r[2]).lstrip('%'))
                if z and R[k['max']][1] * 8 > z - (sub(R[k['array']], r)[1] if isc(sub(R[k['array']], r)) else 0):
                    self.note(st, 'room', r[2])
        if g in self.entry and not (fr.depth == 0 and fr.fn.gid == g and not self.seen(st, 'in')):
            d = self.roles[g]
            if R[d['node']] in self.tree:
                c = R[d['count']]
                x = st.mem.get(c)
                old = e.res(st, x[0]) if x else ('m', c, 0, 4, 'i')
                nm = [y for y in st.prop or () if y[0] == 'name' and e.res(st, y[1]) == R[d['name']]]
                self.note(st, 'node', g, R[d['node']], tuple(nm[-1][2]) if nm else None, old)
                k = len([y for y in st.prop or () if y[0] == 'node'])
                new = self.tok(e, st, 'count %d' % k, 'i', 0, 2 ** 20 * (1 + k))
                e.assume(st, ('le', sub(old, new)), True)
                e.put(fr, st, ins, c, new, 4, ('at', 0))
                return [(st, e.sym(fr, st, ins, ins.ty) if ins.res else None)]
        return super().on_call(e, fr, st, ins, f, args)

    def seen(self, st, k):
        return any(x[0] in ('node', k) for x in st.prop or ())

    def fmt_at(self, f):
        return len(f.params) - 1


def variadics(w, g0):
    """the functions graphviz() reaches that take a format"""
    r = w.eff.reach([g0]) if not isinstance(g0, str) else w.eff.reach([g0])
    return [g for g in r if g in w.p.functions and w.p.functions[g].vararg and w.p.functions[g].blocks and w.p.functions[g].file == w.p.functions[g0].file]


def walkers(w, g0):
    """what graphviz() calls and calls itself: the walk over the tree, with the roles of its parameters"""
    out = {}
    for g in w.eff.reach([g0]):
        f = w.p.functions.get(g)
        if f is None or not f.blocks or f.file != w.p.functions[g0].file:
            continue
        if g not in w.eff.reach(list(w.eff.callees.get(g, ()))):
            continue
        ct = [t.replace('const ', '') for t in w.p.param_ctypes(f)[1:]]
        d = {}
        for k, t in enumerate(ct):
            if t == 'Node*':
                d['node'] = k
            elif t == 'int*':
                d['count'] = k
            elif t == 'char*':
                d['name'] = k
            else:
                d.setdefault('ctx', k)
        if len(ct) == 4 and len(d) == 4:
            out[g] = d
    return out


def cases():
    """(description of a tree, what it is)"""
    E = lambda n: ('x', n, ('EXPR_PAIR',))
    S = lambda n: ('s', n)
    out = []
    for op in ('POS', 'NEG', 'NOT', 'NULLABLETYPE'):
        out.append((('op', op, (E('a'),)), 'EXPR_' + op))
    for op in ('ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'EQL', 'NQL', 'LSS', 'LEQ', 'GRT', 'GEQ', 'SUMTYPE'):
        out.append((('op', op, (E('a'), E('b'))), 'EXPR_' + op))
    for k, n in (('and', 'EXPR_AND'), ('or', 'EXPR_OR'), ('assign', 'EXPR_ASS'), ('pair', 'EXPR_PAIR')):
        out.append(((k, (E('a'), E('b'))), n))
    out.append((('assign', (('pair', (E('a'), E('b'))), E('c'))), 'EXPR_ASS'))
    out.append((('select', E('a'), E('b')), 'EXPR_SELECT'))
    out.append((('arw', E('a'), E('b')), 'EXPR_ARW'))
    for n in range(4):
        out.append((('list', tuple(E('a%d' % k) for k in range(n))), 'EXPR_LIST'))
        out.append((('map', tuple((E('k%d' % k), E('v%d' % k)) for k in range(n))), 'EXPR_MAP'))
        out.append((('call', E('f'), tuple(E('a%d' % k) for k in range(n))), 'EXPR_CALL'))
        out.append((('block', tuple(S('s%d' % k) if k % 2 else E('s%d' % k) for k in range(n))), 'NODE_COMP'))
    for x in ('NONE', 'TRUE', 'FALSE'):
        out.append((('lit', x), 'EXPR_' + x))
    for x in ('INT', 'FLOAT', 'IDENT'):
        out.append((('lit', x, 'v'), 'EXPR_' + x))
    for x in TEXTS:
        out.append((('lit', 'STRING', x), 'EXPR_STRING'))
    T, D = ('x', 'type', ('EXPR_PAIR',)), ('x', 'default', ('EXPR_PAIR',))
    for args in ((), (('p', None, None),), (('p', T, None),), (('p', None, D),), (('p', T, D),), (('p', None, None), ('q', T, D)), (('p', T, None), ('q', None, D), ('r', None, None))):
        args = tuple((n, t and ('x', 'type ' + n, ('EXPR_PAIR',)), d and ('x', 'default ' + n, ('EXPR_PAIR',))) for n, t, d in args)
        out.append((('func', args, S('body')), 'EXPR_FUNC'))
        out.append((('fdecl', 'name', args, S('body')), 'NODE_FUNC'))
    for b in (S('b'), E('b')):
        out.append((('if', E('c'), b, None), 'NODE_IFELSE'))
        out.append((('if', E('c'), b, S('e')), 'NODE_IFELSE'))
        out.append((('while', E('c'), b), 'NODE_WHILE'))
        out.append((('dowhile', b, E('c')), 'NODE_DOWHILE'))
    out.append((('break',), 'NODE_BREAK'))
    for n in (1, 2, 3, 4):
        for deep in ('left', 'right'):
            xs = [E('r%d' % k) for k in range(n)]
            while len(xs) > 1:
                xs = [('pair', (xs[0], xs[1]))] + xs[2:] if deep == 'left' else xs[:-2] + [('pair', (xs[-2], xs[-1]))]
            out.append((('return', xs[0]), 'NODE_RETURN'))
    return out


class Grow(codegen.Tree):
    """trees with statements, and a list of what is below the root"""
    def build(self, t, next=ZERO):
        k = t[0]
        if k == 'lit' and t[1] == 'STRING':
            a = super().build(t, next)
            v = self.st.mem[self.place(a, 'StringExprNode', 'val')][0]
            region(self.e, v, 900)
            self.h.texts[v] = t[2]
            for j, ch in enumerate(t[2] + '\0'):
                self.st.mem[add(v, C(j))] = (C(ord(ch)), 1, ('at', 0))
            self.st.mem[self.place(a, 'StringExprNode', 'len')] = (C(len(t[2])), 4, ('at', 0))
            return a
        if k == 'fdecl':
            a = self.new('FuncDeclNode', self.k('NODE_FUNC'), next)
            nm = self.expr('StringExprNode', self.k('EXPR_STRING'))
            v = self.text(t[1])
            self.put(nm, 'StringExprNode', 'val', v, 8)
            self.put(a, 'FuncDeclNode', 'name', nm, 8)
            self.put(a, 'FuncDeclNode', 'expr', self.build(('func', t[2], t[3])), 8)
            return a
        if k == 'if':
            a = self.new('IfElseNode', self.k('NODE_IFELSE'), next)
            for n, x in zip(('condition', 'true_branch', 'false_branch'), t[1:]):
                self.put(a, 'IfElseNode', n, self.build(x) if x else ZERO, 8)
            return a
        if k in ('while', 'dowhile'):
            s = 'WhileNode' if k == 'while' else 'DoWhileNode'
            a = self.new(s, self.k('NODE_' + k.upper()), next)
            for n, x in zip(('condition', 'body') if k == 'while' else ('body', 'condition'), t[1:]):
                self.put(a, s, n, self.build(x), 8)
            return a
        if k == 'break':
            return self.new('Node', self.k('NODE_BREAK'), next)
        if k == 'block':
            a = self.new('CompoundNode', self.k('NODE_COMP'), next)
            self.put(a, 'CompoundNode', 'head', self.chain(t[1]), 8)
            return a
        if k == 'return':
            a = self.new('ReturnNode', self.k('NODE_RETURN'), next)
            self.put(a, 'ReturnNode', 'val', self.build(t[1]), 8)
            return a
        return super().build(t, next)

    def place(self, a, struct, n):
        m = [x for x in self.w.p.di_struct(struct) if x[0] == n]
        if not m:
            raise Broken('%s has no member %s' % (struct, n))
        return add(a, C(m[0][1]))


NODE = re.compile(r'\s*\x01(\d+)\x02\s*\[((?:[^\]"]|"(?:[^"\\]|\\.)*")*)\]\s*;?', re.S)
EDGE = re.compile(r'\s*\x01(\d+)\x02\s*->\s*\x01(\d+)\x02\s*(?:\[(?:[^\]"]|"(?:[^"\\]|\\.)*")*\])?\s*;?', re.S)
LABEL = re.compile(r'label\s*=\s*"((?:[^"\\]|\\.)*)"', re.S)


class Draw:
    """the statements of a path: labels and edges of names"""
    def __init__(self, p, name, start):
        self.p, self.ok, self.why = p, True, None
        self.vals, self.names = [], []
        self.labels, self.edges, self.nodes = {}, [], []
        texts = {}
        last, self.order = start, []
        for x in p.ev:
            if x[0] == 'name':
                v = self.number(x[2])
                if v is None:
                    self.odd('how a name is made')
                    return
                self.order.append((v, last, x))
                last = v[1]
            elif x[0] == 'node':
                self.nodes.append((x[2], self.ident(x[3], name), x[1]))
                if self.ok and self.nodes[-1][1] is None:
                    self.odd('the name a node is given')
                    return
                self.order.append((None, last, x))
                last = None
            elif x[0] == 'append':
                if x[2] is None:
                    self.odd('what is written')
                    return
                texts[x[1]] = texts.get(x[1], '') + self.render(x[2], name)
        self.texts = texts
        for g in texts:
            t, pos = texts[g], 0
            while pos < len(t):
                m = EDGE.match(t, pos)
                if m:
                    self.edges.append((int(m.group(1)), int(m.group(2))))
                else:
                    m = NODE.match(t, pos)
                    if m:
                        l = LABEL.search(m.group(2))
                        self.labels.setdefault(int(m.group(1)), []).append(l.group(1) if l else None)
                    elif not t[pos:].strip():
                        break
                    else:
                        self.ok, self.why = False, t[pos:pos + 40]
                        return
                pos = m.end()

    def odd(self, text):
        self.ok, self.why = None, text

    def number(self, ps):
        """the number in a name"""
        v = [x for x in ps if not isinstance(x, str)]
        if len(v) == 1 and v[0][0] in 'diu':
            return ''.join(x for x in ps if isinstance(x, str)), v[0][1]
        if not v:
            m = re.fullmatch(r'(\D*)(\d+)', ''.join(ps))
            if m:
                return m.group(1), C(int(m.group(2)))
        return None

    def ident(self, ps, name):
        if ps is None:
            return None
        r = self.render(ps, name)
        m = re.fullmatch(r'\x01(\d+)\x02', r)
        return int(m.group(1)) if m else None

    def render(self, ps, name):
        """characters; names as \\x01k\\x02 and values as \\x03k\\x04"""
        out, k = '', 0
        ps = list(ps)
        while k < len(ps):
            x = ps[k]
            nx = ps[k + 1] if k + 1 < len(ps) else None
            if isinstance(x, str) and nx is not None and not isinstance(nx, str) and nx[0] in 'diu':
                i = len(x)
                for pre in self.prefixes():
                    if x.endswith(pre):
                        out += x[:-len(pre)] + self.name((pre, nx[1]))
                        break
                else:
                    self.vals.append(nx)
                    out += x + '\x03%d\x04' % (len(self.vals) - 1)
                k += 2
                continue
            if isinstance(x, str):
                def sub_(m):
                    return self.name((m.group(1), C(int(m.group(2)))))
                for pre in self.prefixes():
                    x = re.sub(r'\b(%s)(\d+)\b' % re.escape(pre), sub_, x)
                out += x
            elif x[0] == 's' and self.p.same(x[1], name):
                out += self.name(('', name))
            else:
                self.vals.append(x)
                out += '\x03%d\x04' % (len(self.vals) - 1)
            k += 1
        return out

    def prefixes(self):
        return {x[0][0] for x in self.order if x[0]} - {''}

    def name(self, n):
        for k, x in enumerate(self.names):
            if x[0] == n[0] and self.p.same(x[1], n[1]):
                return '\x01%d\x02' % k
        self.names.append(n)
        return '\x01%d\x02' % (len(self.names) - 1)


def unescaped(t):
    return re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r'}.get(m.group(1), m.group(1)), t, flags=re.S)


def drawn(w, ob, res, tier):
    s = U(w, ob, res, 'diagram')
    f0 = s.fn('graphviz')
    roles = walkers(w, f0.gid)
    apps = variadics(w, f0.gid)
    direct = [g for g in w.eff.callees.get(f0.gid, ()) if g in roles]
    if len(direct) != 1 or not apps:
        raise Broken('graphviz() does not walk the tree as it used to')
    top = w.p.functions[direct[0]]
    Diag.appends = frozenset(apps)
    Diag.roles = roles
    Diag.entry = frozenset([top.gid])
    d = roles[top.gid]
    got, forms, seen = set(), set(), {}
    rooms = {}
    for g in w.eff.reach([f0.gid]):
        g = w.p.functions.get(g)
        for i in g.instrs() if g is not None and g.blocks else ():
            if i.op == 'alloca':
                z = w.p.size(i.x if isinstance(i.x, tuple) and i.x and isinstance(i.x[0], str) else i.ty)
                rooms[i.res.lstrip('%')] = max(z or 0, rooms.get(i.res.lstrip('%'), 0))
    Diag.rooms, Diag.lists = rooms, {}
    for g in w.eff.reach([f0.gid]):
        g = w.p.functions.get(g)
        if g is None or not g.blocks or g.file != f0.file:
            continue
        ct = w.p.param_ctypes(g)[1:]
        k = {{'ExprNode*': 'tree', 'Node*': 'tree', 'ExprNode**': 'array', 'Node**': 'array', 'int': 'max', 'int*': 'count'}.get(t): i for i, t in enumerate(ct)}
        if len(ct) == 4 and set(k) == {'tree', 'array', 'max', 'count'}:
            Diag.lists[g.gid] = k
            listed(s, w, g, k, res)
    for desc, kind in cases():
        res.count('trees')
        args = [None] * 4
        args[d['node']], args[d['count']], args[d['name']], args[d['ctx']] = 'node', 'count', 'name', 'ctx'

        def pre(m, st):
            m.h.texts = {}
            B = Grow(m.e, st, w)
            B.h = m.h
            m.B = B
            m.top = B.build(desc)
            m.h.tree = set()
            for k, t in enumerate(('count', 'name', 'ctx')):
                region(m.e, m[t], 1 + k)
            m.start = ('m', m['count'], 0, 4, 'i')
            m.e.rng[m.start] = (0, 2 ** 20)
            # what is below the root is drawn by another call
            m.h.tree = set(B.leaf)
            if kind == 'EXPR_ASS':
                h = st.mem[B.place(m.top, 'OperExprNode', 'head')][0]
                m.h.tree.add(h)
            m.given[m['node']] = m.top
        m = s.follow(top, args, pre=pre, hooks=Diag, turns=12, loads=12)
        for p in m.paths:
            over = beyond(p, rooms) or [x[1] for x in p.kind('room')]
            if over:
                s.bad(m, p, 'over ' + kind, 'more is written than %s has room for' % over)
            res.count('drawings')
            tree(s, m, p, desc, kind, res, got, forms, seen)
    for (a, ka), (b, kb) in itertools.combinations(sorted(seen.items()), 2):
        if ka & kb and {a, b} not in ({'EXPR_POS', 'EXPR_ADD'}, {'EXPR_NEG', 'EXPR_SUB'}):
            s.bad(m, m.paths[0], 'label same %s %s' % (a, b), '%s and %s are drawn as the same' % (a, b))
    if len(forms) > 1:
        s.bad(m, m.paths[0], 'names forms', 'names are made in more than one way, and can be the same')
    s.needs(m, [k for _, k in cases()], got)
    return forms


def beyond(p, rooms):
    """a local array that is left"""
    for x in p.kind('store'):
        r = root(p.res(x[1]))
        if r is not None and r[0] == 'loc':
            d = sub(p.res(x[1]), r)
            z = rooms.get(str(r[2]).lstrip('%'))
            if z and isc(d) and not 0 <= d[1] <= z - x[3]:
                return r[2]
    return None


def listed(s, w, f, k, res):
    """what is put in an array is put in its room"""
    args = [None] * 4
    for n, i in k.items():
        args[i] = n + (':i' if n == 'max' else '')
    for t in (('x', 'a', ('EXPR_PAIR',)), ('pair', (('x', 'a', ('EXPR_PAIR',)), ('x', 'b', ('EXPR_PAIR',))))):
        def pre(m, st):
            m.h.texts, m.h.tree = {}, set()
            B = Grow(m.e, st, w)
            B.h = m.h
            m.given[m['tree']] = B.build(t)
            region(m.e, m['array'], 1)
            region(m.e, m['count'], 2)
            m.e.rng[m['max']] = (1, 2 ** 16)
            c = ('m', m['count'], 0, 4, 'i')
            m.e.rng[c] = (0, 2 ** 16)
            m.e.assume(st, ('le', sub(c, m['max'])), True)
        m = s.follow(f, args, pre=pre, hooks=Diag, turns=12, loads=12)
        for p in m.paths:
            res.count('lists')
            for x in p.kind('store'):
                if root(p.res(x[1])) != m['array']:
                    continue
                c, ps = parts(sub(p.res(x[1]), m['array']))
                if c % 8 or any(k % 8 for _, k in ps):
                    continue
                i = C(c // 8)
                for a, k in ps:
                    i = add(i, scale(a, k // 8))
                if p.may(('le', sub(m['max'], i))):
                    s.bad(m, p, 'room', 'more is put in an array than there is room for')


def tree(s, m, p, desc, kind, res, got, forms, seen):
    said = codegen.show(desc) if desc[0] != 'break' else 'break'
    bad = lambda key, text: s.bad(m, p, '%s %s' % (key, kind), '%s, for %s' % (text, said))
    d = Draw(p, m['name'], m.start)
    if d.ok is None:
        res.note('%s: %s is not understood' % (said, d.why))
        return
    if d.ok is False:
        bad('syntax', 'what is written is neither a node nor an edge: %r' % re.sub(r'[\x01-\x04]', '', d.why))
        return
    for v, last, x in d.order:
        if v is None:
            if last is not None and p.may(('le', add(sub(x[4], last), ONE))):
                bad('count', 'a name given to a node can be made again below it')
            continue
        forms.add(v[0])
        prev = last
        if prev is None:
            prev = [y for y in d.order if y[0] is None and p.ev.index(y[2]) < p.ev.index(x)][-1][2][4]
        lo = p.e.bounds(p.st, sub(v[1], prev))[0] if hasattr(p.e, 'bounds') else None
        if p.may(('le', sub(v[1], prev))):
            bad('names', 'a name is used twice')
        if x[3] is not None and isc(x[3]) and x[3][1] < len(v[0]) + 11:
            bad('cut', 'a long name is cut')
    c = p.at(m['count'], 4)
    lasts = [v[1] for v, _, x in d.order if v is not None]
    if lasts and p.may(('le', add(sub(c, lasts[-1]), ONE))):
        bad('counted', 'names are made again by others')
    me = [k for k, n in enumerate(d.names) if n[0] == '' and p.same(n[1], m['name'])]
    if not me or me[0] not in d.labels:
        bad('unlabelled', 'a node is not drawn')
        return
    me = me[0]
    got.add(kind)
    want = {a: n for a, n in m.h_leafs(desc)} if hasattr(m, 'h_leafs') else {a: m.B.leaf.get(a, ('x', 'the left side'))[1] for a in m.h.tree}
    if kind == 'EXPR_ASS' and desc[1][0][0] == 'pair':
        inner = {a for a, n in m.B.leaf.items() if n[1] in 'ab'}
        want = {a: n for a, n in want.items() if a not in inner}
    elif kind == 'EXPR_ASS':
        pass
    drawn = [n for n, _, _ in d.nodes]
    for a in want:
        if drawn.count(a) != 1:
            bad('child', 'the part %s is drawn %s' % (want[a], 'twice' if drawn.count(a) else 'nowhere'))
            return
    kids = {k for _, k, _ in d.nodes}
    up = {}
    for a, b in d.edges:
        up.setdefault(b, []).append(a)
    allnames = set(range(len(d.names)))
    for k in allnames:
        if k == me:
            if k in up:
                bad('loop', 'a node is drawn below itself')
        elif len(up.get(k, ())) != 1:
            bad('edge', 'a part has %s' % ('no parent' if k not in up else 'two parents'))
            return
        if k not in kids and k not in d.labels:
            bad('label none', 'a part has no label')
    for k in allnames - {me}:
        x, n = k, 0
        while x != me and n < 20:
            x, n = up.get(x, [me])[0], n + 1
        if x != me:
            bad('apart', 'a part is not connected')
            return
    if len(kids) != len(d.nodes):
        bad('shared', 'two parts have the same name')
        return
    # what the labels say
    label = d.labels[me][-1]
    if label is None:
        bad('label', 'a node has no label')
        return
    tok = re.fullmatch(r'\x03(\d+)\x04', label)
    val = d.vals[int(tok.group(1))] if tok else None
    if kind == 'EXPR_STRING':
        if '\x03' in label:
            res.note('%s: the label is not understood' % said)
        elif unescaped(label) != desc[2]:
            bad('text', 'the label of a string is another text')
    elif kind in ('EXPR_INT', 'EXPR_FLOAT', 'EXPR_IDENT'):
        st = {'EXPR_INT': 'IntExprNode', 'EXPR_FLOAT': 'FloatExprNode', 'EXPR_IDENT': 'IdentExprNode'}[kind]
        v = p.res(m.B.st.mem[m.B.place(m.top, st, 'val')][0])
        x = d.vals[int(re.search(r'\x03(\d+)\x04', label).group(1))] if '\x03' in label else None
        if x is None or p.differ(x[1], v) or kind == 'EXPR_INT' and (x[0] not in 'di' or x[2] not in ('ll', 'l', 'j')):
            bad('value', 'the label of a value is something else')
    elif kind == 'NODE_FUNC':
        nm = m.B.st.mem[m.B.place(m.B.st.mem[m.B.place(m.top, 'FuncDeclNode', 'name')][0], 'StringExprNode', 'val')][0]
        if not any(l and '\x03' in l and p.same(d.vals[int(re.search(r'\x03(\d+)\x04', l).group(1))][1], nm) for ls in d.labels.values() for l in ls[-1:]):
            bad('function', 'the name of a function is not there')
    elif '\x03' not in label:
        seen.setdefault(kind, set()).add(label)
        w_ = LABELS.get(kind)
        if w_ is not None and SAME.get(label, label) != w_:
            bad('operator', 'the label is not that of the operator')
        if not label:
            bad('label empty', 'the label is empty')
    if kind in ('EXPR_FUNC', 'NODE_FUNC'):
        at = {n: k for n, k, _ in d.nodes}
        names = {}
        for nm, typ, dfl in (desc[1] if kind == 'EXPR_FUNC' else desc[2]):
            sym = [x for x, t in m.B.names.items() if t == nm][0]
            own = [k for k in d.labels if k != me and d.labels[k][-1] and '\x03' in d.labels[k][-1] and p.same(d.vals[int(re.search(r'\x03(\d+)\x04', d.labels[k][-1]).group(1))][1], sym)]
            if len(own) != 1:
                bad('argument', 'an argument is drawn %s' % ('twice' if own else 'nowhere'))
                continue
            for x in (typ, dfl):
                if x:
                    a = [y for y, n in m.B.leaf.items() if n[1] == x[1]][0]
                    if up.get(at[a]) != own:
                        bad('argument of', 'a type or default is drawn at another argument')
    if kind == 'EXPR_MAP':
        at = {m.B.leaf[n][1]: k for n, k, _ in d.nodes if n in m.B.leaf}
        parents = [up[at['k%d' % k]] for k in range(len(desc[1]))]
        for k in range(len(desc[1])):
            if up[at['k%d' % k]] != up[at['v%d' % k]]:
                bad('entry', 'a key is drawn with another value')
    at = [k for n, k, _ in d.nodes]
    if kind == 'EXPR_CALL' or kind in ('EXPR_LIST', 'NODE_COMP', 'NODE_RETURN') or kind.startswith('EXPR_') and kind in LABELS:
        order = [m.B.leaf[n][1] for n, _, _ in d.nodes if n in m.B.leaf]
        if kind in ('EXPR_LIST', 'EXPR_CALL', 'NODE_COMP', 'NODE_RETURN') and [x for x in order if x[1:].isdigit()] != sorted(x for x in order if x[1:].isdigit()):
            bad('order', 'the parts are drawn in another order')


class Text(HeapHooks):
    """vsnprintf needs what it needs, each time the same"""
    quiet = True

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        if n == 'vsnprintf':
            v = ('s', 0, 'needed', (), '', 'i')
            e.rng[v] = (-1, 2 ** 28)
            self.note(st, 'format', R, v)
            return [(st, v)]
        if n and n.startswith('llvm.va_'):
            return [(st, None)]
        return super().on_call(e, fr, st, ins, f, args)


def buffers(m, st, s, ctx):
    """the buffers of a diagram: [(data, size, used)]"""
    out = []
    for n, o, ct, z in m.w.p.di_struct('GraphViz') or ():
        x = {y[0]: y for y in m.w.p.di_struct(ct) or ()}
        if {'data', 'size', 'used'} <= set(x):
            t = tuple(('m', add(ctx, C(o + x[k][1])), 0, 8, 'p' if k == 'data' else 'i') for k in ('data', 'size', 'used'))
            region(m.e, t[0], 20 + len(out))
            m.e.rng[t[1]] = m.e.rng[t[2]] = (0, 2 ** 32)
            out.append(t)
    if not out:
        raise Broken('a diagram has no buffers')
    return out


def growing(w, ob, res):
    s = U(w, ob, res, 'text')
    f0 = s.fn('graphviz')
    found = variadics(w, f0.gid)
    where = {}
    for g in found:
        f = w.p.functions[g]
        got = set()

        def pre(m, st):
            region(m.e, m['ctx'], 1)
            region(m.e, m['fmt'], 2)
            m.bufs = buffers(m, st, s, m['ctx'])
            for d, z, u in m.bufs:
                m.e.assume(st, ('le', sub(u, z)), True)
            er = [x for x in w.p.di_struct('GraphViz') if x[2] == 'Error*']
            m.err = ('m', add(m['ctx'], C(er[0][1])), 0, 8, 'p')
            region(m.e, m.err, 30)
        m = s.follow(f, ['ctx', 'fmt'], pre=pre, hooks=Text, loads=8)
        for p in m.paths:
            res.count('appends')
            bad = lambda key, text: s.bad(m, p, '%s' % key, text)
            fm = p.kind('format')
            now = [tuple(p.at(t[1], 8, t[4]) for t in b) for b in m.bufs]
            kept = all(p.same(n[2], b[2]) for n, b in zip(now, m.bufs))
            al = [x for x in p.kind('alloc')]
            for x in al:
                mine = [k for k, b in enumerate(m.bufs) if p.same(x[4], b[0])] if x[1] == 'realloc' else []
                if x[1] == 'realloc' and not mine:
                    bad('other', 'memory is taken from something else')
                if x[3] != ZERO and mine and not (p.same(now[mine[0]][0], x[3]) and p.same(now[mine[0]][1], x[2])):
                    bad('lost', 'new memory is not kept, or its size is not')
                if x[3] == ZERO and mine and not (p.same(now[mine[0]][0], m.bufs[mine[0]][0]) and p.same(now[mine[0]][1], m.bufs[mine[0]][1])):
                    bad('gone', 'memory is forgotten when there is no more')
            if p.reports:
                got.add('fails')
                if not kept:
                    bad('half', 'an append that fails counts as made')
                continue
            real = [x for x in fm if x[1][0] != ZERO]
            if not fm:
                got.add('skipped')
                if not kept:
                    bad('counted', 'something is counted that was not written')
                continue
            need = fm[0][2]
            if len(real) != 1:
                bad('written', 'a text is not written once')
                continue
            R = real[0][1]
            k = [k for k, n in enumerate(now) if p.same(R[0], add(n[0], m.bufs[k][2]))]
            if not k:
                bad('place', 'a text is not written after the others')
                continue
            k = k[0]
            got.add('written')
            where.setdefault(g, set()).add(k)
            if not p.same(R[2], m['fmt']):
                bad('format', 'another text is written')
            bigger(s, m, p, 'space', now[k][1], add(add(m.bufs[k][2], need), ONE), 'a text does not fit in its memory')
            bigger(s, m, p, 'overrun', now[k][1], add(m.bufs[k][2], R[1]), 'more can be written than there is memory')
            bigger(s, m, p, 'cut', R[1], add(need, ONE), 'a text is cut')
            if p.differ(now[k][2], add(m.bufs[k][2], need)):
                bad('used', 'what is written is not counted')
            if any(not p.same(n[2], b[2]) for j, (n, b) in enumerate(zip(now, m.bufs)) if j != k):
                bad('others', 'another text is changed')
        s.needs(m, ('skipped', 'fails', 'written'), got)
    return {g: list(k)[0] for g, k in where.items() if len(k) == 1}


class Whole(Diag):
    """the tree is drawn by another call"""
    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        g = getattr(f, 'gid', None)
        if n in ('vsnprintf',):
            return None
        if g in self.entry:
            d = self.roles[g]
            nm = [y for y in st.prop or () if y[0] == 'name' and e.res(st, y[1]) == R[d['name']]]
            x = st.mem.get(R[d['count']])
            self.note(st, 'node', g, R[d['node']], tuple(nm[-1][2]) if nm else None, e.res(st, x[0]) if x else None)
            self.grow(e, fr, st, ins, R[d['ctx']])
            no = st.clone()
            self.note(no, 'failed')
            self.set_error(e, fr, no, ins, self.err, ONE)
            return [(st, None), (no, None)]
        if g in self.appends:
            out = super().on_call(e, fr, st, ins, f, args)
            self.grow(e, fr, st, ins, R[0])
            return out
        return super().on_call(e, fr, st, ins, f, args)

    def grow(self, e, fr, st, ins, ctx):
        j = len([x for x in st.prop or () if x[0] in ('append', 'node')])
        n = 0
        for m_, o, ct, z in self.w.p.di_struct('GraphViz'):
            x = {y[0]: y for y in self.w.p.di_struct(ct) or ()}
            if {'data', 'size', 'used'} <= set(x):
                for k in ('data', 'size', 'used'):
                    v = ('s', 0, '%s of %s after %d' % (k, m_, j), (), '', 'p' if k == 'data' else 'i')
                    if k == 'data':
                        region(e, v, 100 + 10 * j + n)
                    else:
                        e.rng[v] = (0, 2 ** 40)
                    e.put(fr, st, ins, add(ctx, C(o + x[k][1])), v, 8, ('at', 0))
                    self.note(st, 'buffer', (m_, k), v)
                n += 1


def whole(w, ob, res, where):
    s = U(w, ob, res, 'graph')
    f = s.fn('graphviz')
    Diag.appends = frozenset(variadics(w, f.gid))
    Diag.roles = walkers(w, f.gid)
    Diag.entry = frozenset(g for g in w.eff.callees.get(f.gid, ()) if g in Diag.roles)
    fields = [n for n, o, ct, z in w.p.di_struct('GraphViz') if {'data', 'size', 'used'} <= {y[0] for y in w.p.di_struct(ct) or ()}]
    got, forms = set(), set()

    def pre(m, st):
        m.h.texts, m.h.tree, m.h.err = {}, set(), m['error']
        for k, n in enumerate(('ast', 'error', 'len')):
            region(m.e, m[n], 1 + k)
        m.root = ('m', add(m['ast'], s.off('xAST', 'root')), 0, 8, 'p')
        region(m.e, m.root, 9)
    m = s.follow(f, ['ast', 'error', 'len'], pre=pre, hooks=Whole, loads=8)
    for p in m.paths:
        res.count('graphs')
        bad = lambda key, text: s.bad(m, p, key, text)
        held = {}
        for x in p.kind('buffer'):
            held[x[1]] = x[2]
        freed = [x[2][0] for x in p.kind('ext') if x[1] == 'free']
        for n in fields:
            v = held.get((n, 'data'))
            if v is not None and len([x for x in freed if p.same(x, v)]) != 1:
                bad('leak', 'the memory of a text is not released once')
        nodes = p.kind('node')
        al = [x for x in p.kind('alloc') if not p.same(x[3], ZERO)]
        if p.same(p.ret, ZERO):
            got.add('none')
            if not p.failed:
                bad('none', 'there is no diagram though nothing failed')
            for x in al:
                if not any(p.same(x[3], y) for y in freed):
                    bad('leak result', 'the memory of a diagram is lost')
            continue
        if p.failed and not [x for x in al if p.same(x[3], p.ret)]:
            bad('failed', 'there is a diagram though it failed')
            continue
        if any(x[0] == 'failed' for x in p.ev):
            bad('broken', 'there is a diagram though something failed')
            continue
        got.add('made')
        if len(nodes) != 1 or p.differ(nodes[0][2], m.root):
            bad('root', 'the tree is not drawn once from its root')
            continue
        d = Draw(p, ('s', 0, 'no name', (), '', 'p'), ZERO)
        nm = d.number(nodes[0][3]) if nodes[0][3] else None
        if nm is None:
            res.note('graphviz: how the root is named is not understood')
        else:
            forms.add(nm[0])
            if nodes[0][4] is not None and p.may(('le', add(sub(nodes[0][4], nm[1]), ONE))):
                bad('root name', 'the name of the root can be made again')
        mine = [x for x in al if p.same(x[3], p.ret)]
        if len(mine) != 1:
            bad('result', 'the diagram is not in memory of its own')
            continue
        total = ZERO
        for n in fields:
            total = add(total, held[n, 'used'])
        bigger(s, m, p, 'memory', mine[0][2], add(total, ONE), 'a diagram does not fit in its memory')
        cp = [x for x in p.kind('copy') if root(p.res(x[1])) == p.ret]
        off, order = ZERO, []
        for x in cp:
            k = [n for n in fields if p.same(x[2], held[n, 'data'])]
            if not k:
                bad('copied', 'something else is copied into the diagram')
                break
            order.append(k[0])
            if p.differ(x[1], add(p.ret, off)):
                bad('gap', 'the parts of a diagram do not follow each other')
            if p.differ(x[3], held[k[0], 'used']):
                bad('part', 'not all of the text is in the diagram')
            off = add(off, held[k[0], 'used'])
        else:
            if sorted(order) != sorted(fields):
                bad('parts', 'a part is missing in the diagram')
                continue
            z = p.cell(add(p.ret, total))
            ends = [x for x in p.kind('store', 'fill') if p.same(x[1], add(p.ret, total))]
            if z is None or z is not False and z != ZERO or not ends and not [x for x in p.kind('store', 'fill') if root(p.res(x[1])) == p.ret]:
                bad('end', 'the diagram does not end')
            l = p.cell(m['len'])
            if p.may(('ne', m['len'])) and l is not None and l is not False and p.differ(l, total):
                bad('len', 'the length is not that of the diagram')
            text = {}
            for i, x in enumerate(p.ev):
                if x[0] == 'append' and x[1] in where and x[2] is not None:
                    n = fields[where[x[1]]]
                    text[n] = text.get(n, '') + ''.join(y for y in x[2] if isinstance(y, str))
                elif x[0] == 'node':
                    for n in fields:
                        text[n] = text.get(n, '') + '\x05'
            t = ''.join(text.get(n, '') for n in order)
            if not re.match(r'\s*(strict\s+)?(di)?graph\b[^{}\x05]*\{[^{}]*\}\s*$', t) or not re.match(r'[^\x05]*\{', t) or not t.rstrip().endswith('}'):
                bad('frame', 'the parts are not between the braces of a graph')
            elif not re.match(r'\s*(strict\s+)?digraph', t):
                bad('directed', 'the graph is not directed, its edges are')
    s.needs(m, ('none', 'made'), got)
    return forms


SRC = ('Source_FromFile', 'Source_FromString')
MAKERS = SRC + ('Source_Free', 'BPAlloc_Init', 'BPAlloc_Free', 'parse', 'graphviz')


def asked(w, ob, res):
    s = U(w, ob, res, 'asked')
    for n, src in (('diagramFileAST', SRC[0]), ('diagramStringAST', SRC[1])):
        f = s.fn(n)

        def pre(m, st):
            m.h.texts = {}
            for k, x in enumerate(('what', 'error', 'offset')):
                region(m.e, m[x], 1 + k)
        m = s.follow(f, ['what', 'error', 'offset'], pre=pre, hooks=AskHooks, record=MAKERS)
        got = set()
        for p in m.paths:
            res.count('requests')
            bad = lambda key, text: s.bad(m, p, '%s %s' % (n, key), '%s: %s' % (n, text))
            c = p.calls()
            name = [x[1] for x in c]
            made = [x for x in c if x[1] in SRC]
            if len(made) != 1 or made[0][1] != src:
                bad('source', 'something else is read than what was given')
                continue
            k = 0 if src == SRC[0] else 1
            if p.differ(made[0][2][k], m['what']) or k and isc(made[0][2][2]) and made[0][2][2][1] % 2 ** 64 != 2 ** 64 - 1 and made[0][2][2][1] % 2 ** 32 != 2 ** 32 - 1:
                bad('input', 'something else is read than what was given')
            for make, rel, what in ((src, 'Source_Free', 'the source'), ('BPAlloc_Init', 'BPAlloc_Free', 'the tree')):
                for x in [x for x in c if x[1] == make and x[3] != ZERO]:
                    y = [y for y in p.kind('call', 'ext') if y[1] == rel and p.same(y[2][0], x[3])]
                    if len(y) != 1:
                        bad('kept ' + rel, '%s is %s' % (what, 'not released' if not y else 'released twice'))
                    elif any(z[0] == 'call' and z[1] in ('parse', 'graphviz') for z in p.ev[p.ev.index(y[0]):]):
                        bad('early ' + rel, '%s is released while it is used' % what)
            pa, gr = [x for x in c if x[1] == 'parse'], [x for x in c if x[1] == 'graphviz']
            if pa and p.differ(pa[0][2][0], made[0][3]):
                bad('parsed', 'another source is parsed')
            if gr and (not pa or p.differ(gr[0][2][0], pa[0][3])):
                bad('drawn', 'another tree is drawn')
            if p.same(p.ret, ZERO):
                got.add('none')
                if not p.failed:
                    bad('none', 'there is no diagram though nothing failed')
                off = p.cell(m['offset'])
                if pa and pa[0][3] == ZERO:
                    if off is not None and off is not False and p.differ(off, ('s', 0, 'the place', (), '', 'i')):
                        bad('place', 'the place of an error is another than that of the parser')
                elif off is None or off is not False and off not in (C(-1), C(2 ** 32 - 1)):
                    bad('place none', 'an error without a place has one')
            else:
                got.add('made')
                if not gr or p.differ(p.ret, gr[0][3]):
                    bad('result', 'something else is given than the diagram')
        s.needs(m, ('none', 'made'), got)


class AskHooks(CliHooks):
    maybe = frozenset()

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        out = super().on_call(e, fr, st, ins, f, args)
        if n == 'parse' and out:
            R = tuple(e.res(st, a) for a in args)
            for st2, v in out:
                if v == ZERO:
                    t = ('s', 0, 'the place', (), '', 'i')
                    e.rng[t] = (0, 2 ** 30)
                    e.put(fr, st2, ins, R[-1], t, 4, ('at', 0))
        return out


def diagram_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    forms = drawn(w, ob, res, tier)
    where = growing(w, ob, res)
    forms |= whole(w, ob, res, where)
    if len(forms) > 1:
        s = U(w, ob, res, 'graph')
        res.add('forms', 'graphviz', 'graph', 'names are made in more than one way, and can be the same')
    asked(w, ob, res)
    res.need('trees', 60)
    res.need('drawings', 60)
    return res

"""Parser for the textual LLVM IR produced by build.py (the subset clang -O0 +
mem2reg emits for C), linking the units by name while keeping every unit's own
types and internal symbols apart."""
import re

TOK = re.compile(r'''
   c"(?:[^"])*" | %"[^"]*" | @"[^"]*" | "[^"]*"
 | %[-\w.$]+ | @[-\w.$]+ | ![\w.]* | \#\d+
 | 0x[0-9A-Fa-f]+ | 0xK[0-9A-Fa-f]+
 | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+
 | [A-Za-z_][\w.]* | \.\.\. | [(){}\[\]<>,=*:|]
''', re.X)


class IRError(Exception):
    pass


I1, I8, I16, I32, I64 = (('int', n) for n in (1, 8, 16, 32, 64))
PTR = ('ptr',)
VOID = ('void',)

ATTRS = {'noundef', 'zeroext', 'signext', 'noalias', 'nonnull', 'nocapture', 'readonly', 'writeonly',
         'dead_on_unwind', 'writable', 'dead_on_return', 'nneg', 'returned', 'immarg', 'readnone', 'inreg', 'nofree', 'allocptr', 'swiftself', 'allocalign'}


class Toks:
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, line, mod):
        self.t = TOK.findall(line)
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError('expected %r got %r in %r' % (x, y, ' '.join(self.t)))

    # ---- types
    def type(self):
        x = self.next()
        if x == 'ptr':
            return PTR
        if x == 'void':
            return VOID
        if x[0] == 'i' and x[1:].isdigit():
            return ('int', int(x[1:]))
        if x in ('double', 'float', 'x86_fp80', 'half'):
            return ('fp', x)
        if x in ('metadata', 'label', 'token'):
            return (x,)
        if x[0] == '%':
            return ('struct', self.mod.tid(x))
        if x == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        if x == '<':
            if self.peek() == '{':
                t = self.type()
                self.expect('>')
                return ('packed', t[1])
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        if x == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            return ('lit', tuple(fs))
        raise IRError('type? %r in %r' % (x, ' '.join(self.t)))

    def attrs(self):
        out = {}
        while True:
            x = self.peek()
            if x in ATTRS:
                self.next()
                out[x] = True
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'allocsize', 'memory'):
                self.next()
                if self.accept('('):
                    d = 1
                    v = []
                    while d:
                        y = self.next()
                        if y == '(':
                            d += 1
                        elif y == ')':
                            d -= 1
                        else:
                            v.append(y)
                    out[x] = v
                else:
                    out[x] = self.next()
            elif x in ('byval', 'sret', 'elementtype'):
                self.next()
                self.expect('(')
                out[x] = self.type()
                self.expect(')')
            else:
                return out

    # ---- values (the type is known)
    def value(self, ty):
        x = self.next()
        c = x[0]
        if c == '%':
            return ('l', x[1:].strip('"'))
        if c == '@':
            return ('g', self.mod.gid(x[1:].strip('"')))
        if x in ('null', 'none'):
            return ('c', 0)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if c == 'c' and x[1:2] == '"':
            s = re.sub(r'\\(\\|[0-9A-Fa-f]{2})', lambda m: '\\' if m.group(1) == '\\' else chr(int(m.group(1), 16)), x[2:-1])
            return ('str', s)
        if x == '[' or x == '{' or x == '<':
            packed = False
            if x == '<':
                self.expect('{')
                packed = True
                x = '{'
            end = ']' if x == '[' else '}'
            vs = []
            if not self.accept(end):
                while True:
                    t = self.type()
                    vs.append((t, self.value(t)))
                    if self.accept(end):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', vs)
        if x == 'getelementptr':
            inb = self.accept('inbounds')
            self.expect('(')
            st = self.type()
            self.expect(',')
            idx = []
            while True:
                t = self.type()
                idx.append((t, self.value(t)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('cegep', st, idx)
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cecast', x, t, v, t2)
        if ty[0] == 'fp':
            if x.startswith('0x'):
                import struct
                return ('fp', struct.unpack('>d', bytes.fromhex(x[2:].zfill(16)))[0]) if not x.startswith('0xK') else ('fp', None)
            return ('fp', float(x))
        return ('c', int(x))

    def tv(self):
        t = self.type()
        a = self.attrs()
        return t, self.value(t)

    def rest_dbg(self):
        for k in range(self.i, len(self.t) - 1):
            if self.t[k] == '!dbg':
                return self.t[k + 1]
        return None


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'dbg', 'fn', 'blk', 'idx')

    def __init__(self, op, res=None, ty=None, a=(), x=None):
        self.op, self.res, self.ty, self.a, self.x = op, res, ty, a, x
        self.dbg = None

    def __repr__(self):
        return '<%s %s %s %s>' % (self.op, self.res, self.a, self.x)


class Block:
    __slots__ = ('name', 'ins', 'preds', 'succs', 'idx')

    def __init__(self, name):
        self.name, self.ins, self.preds, self.succs = name, [], [], []


class Function:
    def __init__(self, gid, mod):
        self.gid, self.mod = gid, mod
        self.params = []       # (type, name)
        self.vararg = False
        self.blocks = {}
        self.order = []
        self.ret = VOID
        self.dbg = None
        self.internal = False
        self.name = gid
        self.file = None
        self.line = 0

    def instrs(self):
        for b in self.order:
            for i in self.blocks[b].ins:
                yield i

    def calls(self):
        for i in self.instrs():
            if i.op == 'call':
                yield i

    def __repr__(self):
        return '<fn %s>' % self.gid


class Global:
    def __init__(self, gid, mod, ty, init, const, internal):
        self.gid, self.mod, self.ty, self.init, self.const, self.internal = gid, mod, ty, init, const, internal
        self.name = gid


class Module:
    """One translation unit."""

    def __init__(self, prog, unit, text):
        self.prog, self.unit = prog, unit
        self.types = {}
        self.md = {}
        self.local_globals = set()
        self.local_structs = {}
        self.scopecache = {}
        lines = text.split('\n')
        # first pass: structs and internal symbols
        for ln in lines:
            if ln.startswith('%') and ' = type ' in ln:
                n, b = ln.split(' = type ', 1)
                self.types[n[1:].strip('"')] = b
            elif ln.startswith('@'):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', ln)
                if re.match(r'(private|internal)\b', m.group(2)):
                    self.local_globals.add(m.group(1).strip('"'))
            elif ln.startswith('define '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                if ' internal ' in ln[:60] or ' private ' in ln[:60]:
                    self.local_globals.add(m.group(1).strip('"'))
            elif ln.startswith('!') and ' = ' in ln:
                k, v = ln.split(' = ', 1)
                self.md[k] = v
        for n, b in self.types.items():
            self.local_structs[n] = prog.struct_id(self, n, b)
        for n, b in self.types.items():
            prog.define_struct(self, n, b)
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('@'):
                self.global_(ln)
            elif ln.startswith('declare '):
                self.declare(ln)
            elif ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.define(ln, lines[i + 1:j])
                i = j
            i += 1

    def tid(self, x):
        n = x[1:].strip('"')
        return self.local_structs.get(n, n)

    def gid(self, n):
        if n in self.local_globals:
            return self.unit + ':' + n
        return n

    def global_(self, ln):
        m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', ln)
        name = m.group(1).strip('"')
        rest = m.group(2)
        m2 = re.match(r'((?:private|internal|external|common|dso_local|unnamed_addr|local_unnamed_addr|hidden|weak|linkonce_odr|thread_local)\s+)*(global|constant)\s+(.*)', rest)
        if not m2:
            return
        quals = rest[:m2.start(2)]
        body = m2.group(3)
        tk = Toks(body, self)
        ty = tk.type()
        init = None
        if 'external' not in quals and tk.peek() not in (None, ','):
            init = tk.value(ty)
        gid = self.gid(name)
        g = Global(gid, self, ty, init, m2.group(2) == 'constant', name in self.local_globals)
        g.name = name
        if gid not in self.prog.globals or init is not None:
            self.prog.globals[gid] = g

    def declare(self, ln):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
        self.prog.declared.add(m.group(1).strip('"'))

    def define(self, ln, body):
        k = ln.index('@')
        m = re.match(r'@("[^"]*"|[-\w.$]+)', ln[k:])
        name = m.group(1).strip('"')
        f = Function(self.gid(name), self)
        f.name = name
        f.internal = name in self.local_globals
        head = ln[len('define '):k]
        toks = [t for t in TOK.findall(head)]
        # the return type is the tail of the header: drop the linkage words
        while toks and (toks[0] in ('internal', 'dso_local', 'private', 'hidden', 'linkonce_odr', 'weak') or toks[0] in ATTRS):
            toks.pop(0)
        tk = Toks('', self)
        tk.t = toks
        tk.attrs()
        f.ret = tk.type()
        tk = Toks(ln[k + len(m.group(1)) + 1:], self)
        tk.expect('(')
        if not tk.accept(')'):
            while True:
                if tk.accept('...'):
                    f.vararg = True
                    tk.expect(')')
                    break
                t = tk.type()
                a = tk.attrs()
                n = tk.next()
                f.params.append((t, n[1:].strip('"')))
                if tk.accept(')'):
                    break
                tk.expect(',')
        f.dbg = tk.rest_dbg()
        if f.dbg:
            t = self.md.get(f.dbg, '')
            mm = re.search(r'name: "([^"]*)"', t)
            if mm:
                f.name = mm.group(1)
            mm = re.search(r'\bline: (\d+)', t)
            f.line = int(mm.group(1)) if mm else 0
            f.file = self.file_of_scope(f.dbg)
        cur = None
        i = 0
        while i < len(body):
            s = body[i]
            i += 1
            if not s:
                continue
            if s[0] != ' ':
                m = re.match(r'("[^"]*"|[-\w.$]+):', s)
                if m:
                    cur = Block(m.group(1).strip('"'))
                    cur.idx = len(f.order)
                    f.blocks[cur.name] = cur
                    f.order.append(cur.name)
                continue
            s = s.strip()
            if s.startswith('switch '):
                while not s.rstrip().split(', !dbg')[0].rstrip().endswith(']'):
                    s += ' ' + body[i].strip()
                    i += 1
            ins = self.instr(s)
            if ins is None:
                continue
            ins.fn = f
            ins.blk = cur.name
            ins.idx = len(cur.ins)
            cur.ins.append(ins)
        for b in f.order:
            t = f.blocks[b].ins[-1]
            if t.op == 'br':
                ss = [t.x[0]] if len(t.x) == 1 else [t.x[0], t.x[1]]
            elif t.op == 'switch':
                ss = [t.x[0]] + [l for _, l in t.x[1]]
            else:
                ss = []
            seen = []
            for x in ss:
                if x not in seen:
                    seen.append(x)
            f.blocks[b].succs = seen
            for x in seen:
                f.blocks[x].preds.append(b)
        self.prog.functions[f.gid] = f

    BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
           'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
    CAST = {'sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fptrunc', 'fpext', 'ptrtoint', 'inttoptr', 'bitcast'}

    def instr(self, s):
        if 'llvm.dbg.' in s and '@llvm.dbg.' in s:
            return None
        tk = Toks(s, self)
        res = None
        if tk.peek(1) == '=' and tk.peek()[0] == '%':
            res = tk.next()[1:].strip('"')
            tk.next()
        op = tk.next()
        if op in ('tail', 'musttail', 'notail'):
            op = tk.next()
        I = None
        if op == 'call':
            tk.attrs()
            rt = tk.type()
            va = False
            if tk.peek() == '(':
                # function type
                d = 0
                while True:
                    y = tk.next()
                    if y == '(':
                        d += 1
                    elif y == ')':
                        d -= 1
                        if d == 0:
                            break
                    elif y == '...':
                        va = True
            callee = tk.value(PTR)
            tk.expect('(')
            args = []
            if not tk.accept(')'):
                while True:
                    t = tk.type()
                    tk.attrs()
                    if t == ('metadata',):
                        return None
                    args.append((t, tk.value(t)))
                    if tk.accept(')'):
                        break
                    tk.expect(',')
            I = Instr('call', res, rt, args, callee)
        elif op == 'load':
            tk.accept('volatile')
            t = tk.type()
            tk.expect(',')
            I = Instr('load', res, t, [tk.tv()])
        elif op == 'store':
            tk.accept('volatile')
            v = tk.tv()
            tk.expect(',')
            I = Instr('store', None, v[0], [v, tk.tv()])
        elif op == 'getelementptr':
            tk.accept('inbounds')
            st = tk.type()
            tk.expect(',')
            a = [tk.tv()]
            while tk.accept(','):
                if tk.peek()[0] == '!':
                    break
                a.append(tk.tv())
            I = Instr('gep', res, PTR, a, st)
        elif op == 'br':
            if tk.peek() == 'label':
                tk.next()
                I = Instr('br', None, None, [], (tk.next()[1:].strip('"'),))
            else:
                c = tk.tv()
                tk.expect(',')
                tk.expect('label')
                x = tk.next()[1:].strip('"')
                tk.expect(',')
                tk.expect('label')
                y = tk.next()[1:].strip('"')
                I = Instr('br', None, None, [c], (x, y))
        elif op == 'switch':
            c = tk.tv()
            tk.expect(',')
            tk.expect('label')
            d = tk.next()[1:].strip('"')
            tk.expect('[')
            cs = []
            while not tk.accept(']'):
                t, v = tk.tv()
                tk.expect(',')
                tk.expect('label')
                cs.append((v[1], tk.next()[1:].strip('"')))
            I = Instr('switch', None, c[0], [c], (d, cs))
        elif op in ('icmp', 'fcmp'):
            pred = tk.next()
            t = tk.type()
            a = tk.value(t)
            tk.expect(',')
            b = tk.value(t)
            I = Instr(op, res, I1, [(t, a), (t, b)], pred)
        elif op in self.BIN:
            fl = set()
            while tk.peek() in ('nsw', 'nuw', 'exact', 'fast', 'nnan', 'disjoint'):
                fl.add(tk.next())
            t = tk.type()
            a = tk.value(t)
            tk.expect(',')
            b = tk.value(t)
            I = Instr(op, res, t, [(t, a), (t, b)], fl)
        elif op in self.CAST:
            tk.accept('nneg')
            v = tk.tv()
            tk.expect('to')
            I = Instr(op, res, tk.type(), [v])
        elif op == 'phi':
            t = tk.type()
            inc = []
            while True:
                tk.expect('[')
                v = tk.value(t)
                tk.expect(',')
                inc.append((v, tk.next()[1:].strip('"')))
                tk.expect(']')
                if not (tk.peek() == ',' and tk.peek(1) == '['):
                    break
                tk.next()
            I = Instr('phi', res, t, [], inc)
        elif op == 'ret':
            if tk.peek() == 'void':
                I = Instr('ret', None, VOID, [])
            else:
                v = tk.tv()
                I = Instr('ret', None, v[0], [v])
        elif op == 'alloca':
            t = tk.type()
            cnt = None
            if tk.peek() == ',' and tk.peek(1) != 'align':
                tk.next()
                cnt = tk.tv()
            I = Instr('alloca', res, PTR, [cnt] if cnt else [], t)
        elif op == 'select':
            c = tk.tv()
            tk.expect(',')
            a = tk.tv()
            tk.expect(',')
            b = tk.tv()
            I = Instr('select', res, a[0], [c, a, b])
        elif op == 'unreachable':
            I = Instr('unreachable', None, None, [])
        elif op in ('extractvalue',):
            v = tk.tv()
            tk.expect(',')
            I = Instr(op, res, None, [v], int(tk.next()))
        elif op in ('insertvalue',):
            v = tk.tv()
            tk.expect(',')
            w = tk.tv()
            tk.expect(',')
            I = Instr(op, res, v[0], [v, w], int(tk.next()))
        elif op == 'fneg':
            while tk.peek() in ('fast', 'nnan'):
                tk.next()
            I = Instr(op, res, None, [tk.tv()])
            I.ty = I.a[0][0]
        elif op == 'freeze':
            v = tk.tv()
            I = Instr(op, res, v[0], [v])
        else:
            raise IRError('unknown instruction: ' + s)
        I.dbg = tk.rest_dbg()
        return I

    # ---- debug information
    def file_of_scope(self, mid):
        seen = 0
        while mid and seen < 60:
            t = self.md.get(mid, '')
            m = re.search(r'\bfile: (!\d+)', t)
            if m:
                ft = self.md.get(m.group(1), '')
                mm = re.search(r'filename: "([^"]*)"', ft)
                if mm:
                    return self.prog.relpath(mm.group(1))
            m = re.search(r'\bscope: (!\d+)', t)
            mid = m.group(1) if m else None
            seen += 1
        return None

    def loc(self, dbg):
        t = self.md.get(dbg or '', '')
        m = re.search(r'line: (\d+)', t)
        line = int(m.group(1)) if m else 0
        m = re.search(r'scope: (!\d+)', t)
        return (self.file_of_scope(m.group(1)) if m else None), line


class Program:
    def __init__(self, units, repo='/repo'):
        self.repo = repo
        self.functions = {}
        self.globals = {}
        self.declared = set()
        self.structs = {}       # id -> tuple of field types
        self.struct_bodies = {}
        self.di = {}
        self.modules = []
        for unit, text in units:
            self.modules.append(Module(self, unit, text))
        self._fields = {}
        self._enums = None
        self.byname = {}
        for f in self.functions.values():
            self.byname.setdefault(f.name, []).append(f)

    def relpath(self, p):
        r = self.repo.rstrip('/') + '/'
        return p[len(r):] if p.startswith(r) else p

    # ---- struct naming: the same name with the same body is one type
    def struct_id(self, mod, n, body):
        base = re.sub(r'\.\d+$', '', n)
        key = n
        k = (n, body)
        if n in self.struct_bodies and self.struct_bodies[n] != body:
            key = n + '@' + mod.unit
        self.struct_bodies[key] = body
        return key

    def define_struct(self, mod, n, body):
        sid = mod.local_structs[n]
        tk = Toks(body, mod)
        if body.strip() == 'opaque':
            self.structs.setdefault(sid, ())
            return
        t = tk.type()
        self.structs[sid] = t[1]

    def fn(self, name, file=None):
        """the function with that source name (unique, or in that file)"""
        c = self.byname.get(name, [])
        if file:
            c = [f for f in c if f.file == file]
        return c[0] if len(c) == 1 else None

    # ---- layout
    def align(self, t):
        k = t[0]
        if k == 'int':
            return max(1, min(8, (t[1] + 7) // 8)) if t[1] <= 64 else 16
        if k == 'ptr':
            return 8
        if k == 'fp':
            return {'double': 8, 'float': 4, 'x86_fp80': 16, 'half': 2}[t[1]]
        if k in ('arr', 'vec'):
            return self.align(t[2])
        if k == 'packed':
            return 1
        fs = self.fields(t)
        return max([1] + [self.align(f) for f in fs])

    def size(self, t):
        k = t[0]
        if k == 'int':
            return max(1, (t[1] + 7) // 8)
        if k == 'ptr':
            return 8
        if k == 'fp':
            return {'double': 8, 'float': 4, 'x86_fp80': 16, 'half': 2}[t[1]]
        if k in ('arr', 'vec'):
            return t[1] * self.size(t[2])
        if k == 'packed':
            return sum(self.size(f) for f in t[1])
        off = 0
        for f in self.fields(t):
            a = self.align(f)
            off = (off + a - 1) // a * a + self.size(f)
        a = self.align(t)
        return (off + a - 1) // a * a

    def fields(self, t):
        if t[0] == 'struct':
            return self.structs.get(t[1], ())
        if t[0] in ('lit', 'packed'):
            return t[1]
        return ()

    def offset(self, t, i):
        off = 0
        fs = self.fields(t)
        for j, f in enumerate(fs):
            if t[0] != 'packed':
                a = self.align(f)
                off = (off + a - 1) // a * a
            if j == i:
                return off
            off += self.size(f)
        raise IRError('no field %d in %r' % (i, t))

    # ---- debug info: struct members and enums by C name
    def di_struct(self, sname, mod=None):
        """[(member name, byte offset, C type text, size)] for a C struct or
        typedef'd anonymous struct/union"""
        mods = [mod] if mod else self.modules
        for m in mods:
            idx = self._di_index(m)
            for cid in idx.get(sname, ()):
                r = self._members(m, cid)
                if r is not None:
                    return r
        return None

    def _di_index(self, m):
        if m.unit in self.di:
            return self.di[m.unit]
        idx = {}
        for k, t in m.md.items():
            if 'DICompositeType(' in t and ('DW_TAG_structure_type' in t or 'DW_TAG_union_type' in t):
                mm = re.search(r'name: "([^"]*)"', t)
                if mm and 'elements:' in t:
                    idx.setdefault(mm.group(1), []).append(k)
            elif 'DIDerivedType(tag: DW_TAG_typedef' in t:
                mm = re.search(r'name: "([^"]*)"', t)
                b = re.search(r'baseType: (!\d+)', t)
                if mm and b:
                    bt = m.md.get(b.group(1), '')
                    if 'DICompositeType(' in bt and 'elements:' in bt and ('structure_type' in bt or 'union_type' in bt):
                        idx.setdefault(mm.group(1), []).append(b.group(1))
        self.di[m.unit] = idx
        return idx

    def _members(self, m, cid):
        t = m.md[cid]
        e = re.search(r'elements: (!\d+)', t)
        if not e:
            return None
        out = []
        for x in re.findall(r'!\d+', m.md[e.group(1)]):
            mt = m.md[x]
            if 'DW_TAG_member' not in mt:
                continue
            n = re.search(r'name: "([^"]*)"', mt)
            o = re.search(r'offset: (\d+)', mt)
            b = re.search(r'baseType: (!\d+)', mt)
            s = re.search(r'\bsize: (\d+)', mt)
            out.append((n.group(1) if n else '', int(o.group(1)) // 8 if o else 0,
                        self.ctype(m, b.group(1)) if b else 'void', int(s.group(1)) // 8 if s else 0))
        return out

    def ctype(self, m, mid, depth=0):
        if mid is None or depth > 8:
            return 'void'
        t = m.md.get(mid, '')
        n = re.search(r'name: "([^"]*)"', t)
        b = re.search(r'baseType: (!\d+)', t)
        if 'DIBasicType' in t:
            return n.group(1)
        if 'DW_TAG_typedef' in t:
            return n.group(1)
        if 'DW_TAG_pointer_type' in t:
            return self.ctype(m, b.group(1) if b else None, depth + 1) + '*'
        if 'DW_TAG_const_type' in t or 'DW_TAG_volatile' in t:
            return self.ctype(m, b.group(1) if b else None, depth + 1)
        if 'DW_TAG_array_type' in t:
            return self.ctype(m, b.group(1) if b else None, depth + 1) + '[]'
        if 'DISubroutineType' in t:
            return 'fn()'
        if n:
            return n.group(1)
        return 'anon'

    def param_ctypes(self, f):
        """C type text of return value and parameters of a function"""
        m = f.mod
        t = m.md.get(f.dbg or '', '')
        x = re.search(r'\btype: (!\d+)', t)
        if not x:
            return None
        st = m.md.get(x.group(1), '')
        y = re.search(r'types: (!\d+)', st)
        if not y:
            return None
        lst = m.md.get(y.group(1), '')
        items = re.findall(r'null|!\d+', lst[lst.index('{'):])
        return [self.ctype(m, None if i == 'null' else i) for i in items]

    def enums(self):
        """enumerator name -> value (all enums), and enum name -> {name: value}"""
        if self._enums is None:
            vals, groups = {}, {}
            for m in self.modules:
                tds = {}
                for k, t in m.md.items():
                    if 'DW_TAG_typedef' in t:
                        n = re.search(r'name: "([^"]*)"', t)
                        b = re.search(r'baseType: (!\d+)', t)
                        if n and b:
                            tds[b.group(1)] = n.group(1)
                for k, t in m.md.items():
                    if 'DW_TAG_enumeration_type' in t:
                        e = re.search(r'elements: (!\d+)', t)
                        n = re.search(r'name: "([^"]*)"', t)
                        if not e:
                            continue
                        g = {}
                        for x in re.findall(r'!\d+', m.md[e.group(1)]):
                            mt = m.md[x]
                            nn = re.search(r'name: "([^"]*)"', mt)
                            v = re.search(r'value: (-?\d+)', mt)
                            g[nn.group(1)] = int(v.group(1))
                        vals.update(g)
                        nm = tds.get(k) or (n.group(1) if n else None)
                        if nm:
                            groups[nm] = g
            self._enums = (vals, groups)
        return self._enums

    def cstr(self, v):
        """the text of a string constant operand, or None"""
        if v and v[0] == 'g':
            g = self.globals.get(v[1])
            if g and g.init:
                if g.init[0] == 'str':
                    s = g.init[1]
                    return s[:s.index('\0')] if '\0' in s else s
                if g.init[0] == 'zero' and g.ty[0] == 'arr' and g.ty[2] == I8:
                    return ''
        return None

    def where(self, ins):
        f, l = ins.fn.mod.loc(ins.dbg)
        return '%s:%d' % (f or ins.fn.file, l or ins.fn.line)


def load(repo=None, asserts=True):
    import build
    if repo:
        build.REPO = repo
    return Program(build.build_ir(asserts), build.REPO)


if __name__ == '__main__':
    import time
    t = time.time()
    p = load()
    print(len(p.functions), sum(len(list(f.instrs())) for f in p.functions.values()), time.time() - t)
    print(p.di_struct('FunctionObject'))
    print(p.di_struct('xRuntime'))
    print(p.param_ctypes(p.fn('func_call')))
    print(p.where(next(p.fn('func_call').calls())))
    print({k: len(v) for k, v in p.enums()[1].items()})
    g = [x for x in p.globals if x.endswith(':t_list') or x.endswith(':instr_table')]
    for x in g:
        print(x, str(p.globals[x].init)[:700])

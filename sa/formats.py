"""F01: what is formatted is what its format asks for."""
import json, os, re, subprocess, tempfile, shutil
from noja import World
from core import Result, Broken
import build

# external functions: parameter that is the format, first formatted argument (None: a va_list is the next parameter)
LIBC = {'printf': (0, 1), 'fprintf': (1, 2), 'sprintf': (1, 2), 'snprintf': (2, 3), 'dprintf': (1, 2), 'vprintf': (0, None), 'vfprintf': (1, None), 'vsprintf': (1, None), 'vsnprintf': (2, None),
        'scanf': None, 'fscanf': None, 'sscanf': None}
CONV = re.compile(r"%(?:(%)|([-+ #0']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|j|z|t|L|q)?(.)?)", re.S)


def name(x):
    return x[1].split(':')[-1] if x[0] == 'g' else None


def asked(fmt):
    """the classes of arguments a format asks for, or what is wrong with it"""
    out = []
    for m in CONV.finditer(fmt):
        if m.group(1):
            continue
        if '*' == m.group(3):
            out.append(('i32', m.group(0)))
        if m.group(0)[m.end(2) - m.start():].count('*') > (m.group(3) == '*'):
            out.append(('i32', m.group(0)))
        z, c = m.group(5) or '', m.group(6)
        if c is None:
            return None, 'ends in the middle of a conversion'
        if c in 'dioxXuc':
            if c == 'c' and z == '':
                out.append(('i32', m.group(0)))
            else:
                out.append(('i64' if z in ('l', 'll', 'j', 'z', 't', 'q') else 'i32', m.group(0)))
        elif c in 'fFeEgGaA':
            out.append(('double' if z != 'L' else 'long double', m.group(0)))
        elif c in 'sp':
            out.append(('ptr', m.group(0)))
        elif c == 'm':
            pass
        else:
            return None, 'has the conversion %s' % m.group(0)
    return out, None


def cls(t):
    return {('ptr',): 'ptr', ('int', 32): 'i32', ('int', 64): 'i64', ('fp', 64): 'double', ('double',): 'double'}.get(t, 'double' if t and t[0] in ('fp', 'double') else str(t))


def sources(f, v, defs, seen=None):
    """the operands a value may be"""
    seen = seen if seen is not None else set()
    if v[0] != 'l' or v in seen:
        return {v} if v[0] != 'l' else set()
    seen.add(v)
    i = defs.get(v[1])
    if i is None:
        return {v}
    if i.op == 'phi':
        return set().union(*[sources(f, x, defs, seen) for x, b in i.x])
    if i.op == 'select':
        return set().union(*[sources(f, a[1], defs, seen) for a in i.a[1:]])
    if i.op in ('bitcast',):
        return sources(f, i.a[0][1], defs, seen)
    return {v}


def tables(p, f, v, defs):
    """constant texts an operand may be, from tables of texts too; None if it may be something else"""
    out = set()
    for x in sources(f, v, defs):
        s = p.cstr(x)
        if s is None and x[0] == 'l' and x[1] in defs and defs[x[1]].op == 'load':
            g = base(defs[x[1]].a[0][1], defs)
            s = whole(p, g)
            if s is None:
                return None
            out |= s
            continue
        if s is None:
            return None
        out.add(s)
    return out


def base(v, defs):
    for _ in range(8):
        if v[0] == 'l' and v[1] in defs and defs[v[1]].op in ('gep', 'bitcast'):
            v = defs[v[1]].a[0][1]
        else:
            break
    return v


def whole(p, g):
    """the texts in a constant table"""
    if g[0] != 'g' or g[1] not in p.globals:
        return None
    gl = p.globals[g[1]]
    if not getattr(gl, 'const', False) or not gl.init:
        return None
    out = set()
    def walk(x):
        if x is None:
            return False
        if isinstance(x, tuple) and x and x[0] == 'g':
            s = p.cstr(x)
            if s is not None:
                out.add(s)
            return s is not None
        if isinstance(x, (tuple, list)):
            return all(walk(y) for y in x if isinstance(y, (tuple, list)))
        return True
    return out if walk(gl.init) and out else None


class Formats:
    def __init__(self, w, res):
        self.w, self.res, self.p = w, res, w.p
        self.fmt = {}           # gid -> (format parameter, first argument or None)
        self.defs = {f.gid: {i.res: i for i in f.instrs() if i.res} for f in w.p.functions.values() if f.blocks}
        self.wrappers()

    def spec(self, i):
        if i.x[0] != 'g':
            return None
        return self.fmt.get(i.x[1]) or (LIBC.get(name(i.x)) if i.x[1] not in self.p.functions or not self.p.functions[i.x[1]].blocks else None)

    def wrappers(self):
        ch = True
        while ch:
            ch = False
            for f in self.p.functions.values():
                if not f.blocks or f.gid in self.fmt:
                    continue
                par = {n: k for k, (t, n) in enumerate(f.params)}
                for i in f.calls():
                    s = self.spec(i)
                    if not s or s[1] is not None:
                        continue
                    v = i.a[s[0]][1]
                    l = base(i.a[s[0] + 1][1], self.defs[f.gid]) if s[0] + 1 < len(i.a) else None
                    if name(i.x) in ('vsnprintf', 'vsprintf', 'vfprintf', 'vprintf') and l is None:
                        continue
                    if v[0] == 'l' and v[1] in par and l is not None and l[0] == 'l':
                        k = par[v[1]]
                        if f.vararg and l[1] not in par:
                            self.fmt[f.gid] = (k, len(f.params))
                            ch = True
                        elif l[1] in par:
                            self.fmt[f.gid] = (k, None)
                            self.lists.setdefault(f.gid, par[l[1]])
                            ch = True
                        elif not f.vararg:
                            # a copy of its parameter
                            for j in f.calls():
                                if name(j.x) == 'llvm.va_copy' and base(j.a[0][1], self.defs[f.gid]) == l and base(j.a[1][1], self.defs[f.gid])[1] in par:
                                    self.fmt[f.gid] = (k, None)
                                    ch = True

    lists = {}

    def calls(self):
        res, p = self.res, self.p
        for f in sorted((f for f in p.functions.values() if f.blocks), key=lambda f: (f.file or '', f.line or 0)):
            par = {n: k for k, (t, n) in enumerate(f.params)}
            for i in f.calls():
                s = self.spec(i)
                if not s:
                    continue
                if s[0] >= len(i.a):
                    continue
                res.count('formatting calls')
                v = i.a[s[0]][1]
                own = self.fmt.get(f.gid)
                where = p.where(i)
                key = '%s:%s' % (f.name, name(i.x))
                src = sources(f, v, self.defs[f.gid])
                if own and src == {('l', f.params[own[0]][1])}:
                    res.count('formats passed on')
                    continue
                texts = tables(p, f, v, self.defs[f.gid])
                if texts is None:
                    res.add(key + ':format', where, 'format', 'a text that is not a constant is used as a format (%s in %s)' % (name(i.x), f.name))
                    continue
                for t in sorted(texts):
                    res.count('formats')
                    want, wrong = asked(t)
                    if wrong:
                        res.add(key + ':bad', where, 'format', 'the format %r %s (%s)' % (t[:60], wrong, f.name))
                        continue
                    if s[1] is None:
                        continue
                    have = [cls(a[0]) for a in i.a[s[1]:]]
                    res.count('conversions', len(want))
                    for k, (c, how) in enumerate(want):
                        if k >= len(have):
                            res.add(key + ':few', where, 'format', 'the format %r asks for %d arguments and gets %d (%s)' % (t[:60], len(want), len(have), f.name))
                            break
                        if have[k] != c and not (c in ('i32',) and have[k] in ('(\'int\', 8)', "('int', 16)", "('int', 1)")):
                            res.add(key + ':type', where, 'format', 'argument %d of the format %r is %s and %s needs %s (%s)' % (k + 1, t[:60], have[k], how, c, f.name))

    def argument_lists(self):
        """a va_list is started before it is used, and used once"""
        res, p = self.res, self.p
        for f in p.functions.values():
            if not f.blocks or not any(name(i.x) and name(i.x).startswith('llvm.va_') for i in f.calls()):
                continue
            res.count('functions with argument lists')
            defs = self.defs[f.gid]
            par = {n for t, n in f.params}
            state = {}
            first = f.order[0]
            inn = {first: {}}
            todo = [first]
            said = set()
            def say(i, k, text):
                if (k, text) not in said:
                    said.add((k, text))
                    res.add('%s:%s' % (f.name, k), p.where(i), 'arguments', '%s (%s)' % (text, f.name))
            def join(a, b):
                return {k: a.get(k, frozenset({'new'})) | b.get(k, frozenset({'new'})) for k in set(a) | set(b)}
            done = {}
            while todo:
                b = todo.pop()
                st = dict(inn[b])
                for i in f.blocks[b].ins:
                    if i.op == 'call' and i.x[0] == 'g':
                        n = name(i.x)
                        if n == 'llvm.va_start':
                            st[base(i.a[0][1], defs)] = frozenset({'on'})
                        elif n == 'llvm.va_copy':
                            st[base(i.a[0][1], defs)] = frozenset({'on'})
                        elif n == 'llvm.va_end':
                            l = base(i.a[0][1], defs)
                            if 'new' in st.get(l, {'new'}) and len(st.get(l, {'new'})) == 1:
                                say(i, 'end', 'an argument list is ended that was not started')
                            st[l] = frozenset({'off'})
                        else:
                            s = self.spec(i)
                            if s and s[1] is None:
                                for a in i.a[s[0] + 1:]:
                                    l = base(a[1], defs)
                                    if l[0] != 'l' or a[0] != ('ptr',):
                                        continue
                                    isl = l in st or l[1] in par and i.a[-1] is a or l[1] in defs and defs[l[1]].op == 'alloca' and 'va_list' in str(defs[l[1]].x)
                                    if not isl:
                                        continue
                                    c = st.get(l, frozenset({'on' if l[1] in par else 'new'}))
                                    if c & {'new', 'off'} and 'on' not in c:
                                        say(i, 'unset', 'an argument list is used that was not started')
                                    if c == frozenset({'used'}):
                                        say(i, 'again', 'an argument list is used twice')
                                    st[l] = frozenset({'used'})
                for x in f.blocks[b].succs:
                    j = join(inn[x], st) if x in inn else st
                    if x not in inn or j != inn[x]:
                        inn[x] = j
                        todo.append(x)


def streams(w, x, res):
    """a stream on a local array leaves its last byte alone, and that is zero"""
    for f in w.p.functions.values():
        if not f.blocks:
            continue
        for i in f.calls():
            if name(i.x) != 'fmemopen':
                continue
            defs = x.defs[f.gid]
            b = base(i.a[0][1], defs)
            if b[0] != 'l' or b[1] not in defs or defs[b[1]].op != 'alloca':
                continue
            res.count('streams on arrays')
            n, v = w.p.size(defs[b[1]].x), i.a[1][1]
            texts = any(c.op == 'call' and x.spec(c) and any(base(a[1], defs) == b for a in c.a) for c in f.instrs())
            if v[0] != 'c' or not texts:
                continue
            if v[1] >= n:
                res.add('%s:stream:%s' % (f.name, b[1]), w.p.where(i), 'text', 'a stream may fill the whole array %s, whose text is then not terminated (%s)' % (b[1], f.name))
            zero = [c for c in f.instrs() if c.op == 'call' and name(c.x) and name(c.x).startswith(('llvm.memset', 'llvm.memcpy', 'memset', 'memcpy')) and base(c.a[0][1], defs) == b or
                    c.op == 'store' and base(c.a[1][1], defs) == b]
            if not zero:
                res.add('%s:stream:%s:set' % (f.name, b[1]), w.p.where(i), 'text', 'the array %s is read as a text and was not set to zero before it was written through a stream (%s)' % (b[1], f.name))


TEXTS = re.compile(r"(\S+):(\d+):\d+: warning: format specifies type 'char \*' but the argument has type '([^']*)'")
CHARS = re.compile(r"^(const |volatile |unsigned |signed )*(char|uint8_t|int8_t|void|u_char)\b[^*]*(\*|\[\d*\])")


def typed(w, x, res):
    """the compiler's own types: what is printed as a text is one"""
    heads = {}
    for gid, (k, first) in x.fmt.items():
        f = w.p.functions[gid]
        if f.internal or first is None:
            continue
        for d, _, fs in os.walk(os.path.join(build.REPO, 'src/lib')):
            for h in fs:
                if h.endswith('.h') and re.search(r'\b%s\s*\(' % re.escape(f.name), open(os.path.join(d, h), errors='replace').read()):
                    heads.setdefault(os.path.join(d, h), []).append((f.name, k, first))
    tmp = tempfile.mkdtemp(prefix='sa-fmt-')
    try:
        inc = os.path.join(tmp, 'inc.h')
        with open(inc, 'w') as o:
            o.write('#include <stddef.h>\n#include <stdbool.h>\n#include <stdio.h>\n')
            for h in sorted(heads):
                o.write('#include "%s"\n' % h)
                for n, k, first in heads[h]:
                    o.write('#undef %s\nextern __typeof__(%s) %s __attribute__((format(printf, %d, %d)));\n' % (n, n, n, k + 1, first + 1))
                    res.count('functions declared to format')
        from concurrent.futures import ThreadPoolExecutor
        def one(u):
            p = subprocess.run(['clang', *build.LENIENT, '-fsyntax-only', '-Wno-everything', '-Wformat', '-fno-color-diagnostics', '-DNDEBUG', '-include', inc, u], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if p.returncode:
                p = subprocess.run(['clang', *build.LENIENT, '-fsyntax-only', '-Wno-everything', '-Wformat', '-fno-color-diagnostics', '-DNDEBUG', u], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                res.note('%s: the wrappers are not typed' % os.path.relpath(u, build.REPO))
            return u, p.stderr
        with ThreadPoolExecutor(8) as ex:
            for u, text in ex.map(one, build.sources()):
                res.count('files typed')
                for m in TEXTS.finditer(text):
                    t = m.group(3)
                    if '*' in t and not CHARS.match(t) or '[' in t and not CHARS.match(t):
                        f = os.path.relpath(m.group(1), build.REPO)
                        res.add('%s:text:%s' % (f, t), '%s:%s' % (f, m.group(2)), 'format', 'something of type %s is formatted as a text' % t)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def formats_(tier):
    w = World()
    res = Result()
    x = Formats(w, res)
    x.calls()
    x.argument_lists()
    typed(w, x, res)
    streams(w, x, res)
    for gid, s in sorted(x.fmt.items()):
        res.sample('%s: format is parameter %d' % (gid.split(':')[-1], s[0] + 1))
    res.count('wrappers', len(x.fmt))
    res.need('formatting calls', 200)
    res.need('conversions', 150)
    res.need('functions with argument lists', 4)
    return res

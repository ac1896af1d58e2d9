"""B04-B08: what the functions of the library do with the arguments scripts give them."""
from scanning import *
from natives import Tables

TYPES = {'int': 't_int', 'float': 't_float', 'string': 't_string', 'buffer': 't_buffer', 'bool': 't_bool', 'file': 't_file', 'dir': 't_dir', 'none': 't_none'}
OPENS = {'fopen': 'fclose', 'opendir': 'closedir', 'socket': 'close', 'accept': 'close', 'malloc': 'free', 'realloc': 'free', 'calloc': 'free'}
POINTS = {'fopen', 'opendir', 'readdir', 'getcwd', 'strerror', 'Runtime_GetCurrentScriptAbsolutePath'}
FDS = {'socket', 'accept', 'setsockopt', 'bind', 'listen', 'inet_pton', 'close'}
SIZES = {'fread', 'fwrite'}
SSIZES = {'recv', 'send'}
MATH = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'log10', 'sqrt', 'atan2', 'pow', 'floor', 'ceil'}
OPS = {'Object_Print', 'Object_Count', 'Object_IsTypeOf', 'Object_KeysOf', 'runFileRelativeToScript', 'Runtime_GetCurrentScriptAbsolutePath', 'Object_SliceBuffer',
       'Object_NewBuffer', 'Object_NewBufferFromString', 'utf8_strlen'}
EFFECTS = POINTS - {'strerror'} | FDS | SIZES | SSIZES | MATH | OPS | {'fclose', 'closedir', 'srand', 'rand', 'getc'}
MAKERS = {'Object_FromInt': 'int', 'Object_FromFloat': 'float', 'Object_FromString': 'string', 'Object_FromStream': 'stream', 'Object_FromDIR': 'dir', 'Object_NewNone': 'none',
          'Object_FromBool': 'bool'}
ANY = ('any',)


class LibHooks(TokenText):
    """the world outside answers in every way it can"""
    script = None       # what is typed
    lens = None         # known lengths of texts

    def setup(self, e, st, sets):
        super().setup(e, st, sets)
        for k, s in enumerate(sets):
            v = values(s)
            if len(v) == 1:
                st.mem[add(self.body, C(k))] = (C(v[0]), 1, ('raw',))

    text = {}
    init = {}
    body = None
    wild, over = (), ()
    cur = None
    panics = ()

    def reported(self, e, fr, st, ins, args):
        self.note(st, 'report', e.res(st, args[0]), tuple(e.res(st, a) for a in args))

    def made(self, e, fr, st, ins, n, R, err, fallible=True):
        """an object that holds a value: [(state, object)]"""
        v = self.tok(e, st, n)
        out = []
        if fallible:
            bad = st.clone()
            self.note(bad, 'call', n, R, ZERO)
            self.fail(e, fr, bad, ins, err)
            out = [(bad, ZERO)]
        self.note(st, 'call', n, R, v)
        return [(st, v)], out

    def give(self, e, fr, st, ins, R):
        fmt = e.p.cstr(R[3]) if R[3][0] in ('g', 'lin') else None
        if fmt is None:
            return None
        live, out, k = [st], [], 4
        for j, ch in enumerate(fmt):
            nxt = []
            for s in live:
                n, a = {'n': ('Object_NewNone', ()), 'i': ('Object_FromInt', 1), 'I': ('Object_FromInt', 1), 'f': ('Object_FromFloat', 1), 's': ('Object_FromString', 1),
                        'F': ('Object_FromStream', 1), 'o': (None, 1)}.get(ch, (None, None))
                if a is None:
                    return None
                if n is None:
                    e.put(fr, s, ins, add(R[2], C(8 * j)), R[k], 8, ('elem', 'ptr'))
                    nxt.append(s)
                    continue
                v = () if a == () else (R[k],) + ((C(-1),) if ch == 's' else ())
                good, bad = self.made(e, fr, s, ins, n, v, R[0], n != 'Object_NewNone')
                out += [(x, C(-1)) for x, _ in bad]
                for x, o in good:
                    e.put(fr, x, ins, add(R[2], C(8 * j)), o, 8, ('elem', 'ptr'))
                    nxt.append(x)
            if ch != 'n':
                k += 1
            live = nxt
        return [(s, C(len(fmt))) for s in live] + out

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        if n in ('abort', 'exit', '_exit', '__assert_fail') or (n or '').startswith('Error_Panic'):
            if len(self.panics) < 20:
                self.panics.append((n, st.clone()))
            return None
        if n in ('returnValues', 'returnValues2') and len(R) > 3:
            r = self.give(e, fr, st, ins, R)
            if r is not None:
                return r
        if n in ('_IO_getc', 'fgetc'):
            n = 'getc'
        if n == 'getc' and self.script is not None:
            k = len([x for x in st.prop if x[0] == 'typed'])
            if k >= len(self.script):
                self.note(st, 'past')
                return [(st, C(-1))]
            self.note(st, 'typed', R[0])
            return [(st, C(self.script[k]))]
        if n == 'realloc':
            if R[0] == ZERO:
                n, R = 'malloc', R[1:]
                f, args = 'malloc', args[1:]
            else:
                bad = st.clone()
                r = alloc_result(e, fr, st, ins, may_fail=False)
                s, v = r[0]
                size = [x[2] for x in s.prop if x[0] == 'alloc' and x[3] == R[0]]
                self.note(s, 'alloc', 'realloc', R[1], v)
                if size:
                    self.note(s, 'copy', v, R[0], size[-1] if isc(size[-1]) and isc(R[1]) and size[-1][1] <= R[1][1] else R[1])
                self.note(s, 'ext', 'free', (R[0],))
                self.note(bad, 'failed')
                return r + [(bad, ZERO)]
        if n == 'strlen' and self.body is not None and root(R[0]) == self.body and self.lens:
            d = sub(R[0], self.body)
            if isc(d):
                return [(st, C(self.lens - d[1]))]
        if n == '__errno_location':
            a = ('s', 0, '@errno', (), '', 'p')
            e.rng[a] = (4096, 2 ** 63)
            c = ('m', a, 0, 4, 'i')
            return [(st, a)]
        if isinstance(f, str) and n in EFFECTS or n in OPS and n not in self.inline_ and (n not in DISPATCH or True) and f is not None and not (fr.depth == 0 and fr.fn.name == n):
            return self.effect(e, fr, st, ins, f, n, R)
        if n and n.startswith('llvm.') and n.split('.')[1] in MATH:
            return self.effect(e, fr, st, ins, f, n.split('.')[1], R)
        if n in ('strerror', '__xpg_strerror_r'):
            return [(st, self.tok(e, st, 'strerror'))]
        if n == 'htons':
            if isc(R[0]):
                return [(st, C((R[0][1] & 255) << 8 | R[0][1] >> 8 & 255))]
            t = ('op', 'htons', strip(R[0]))
            e.rng.setdefault(t, (0, 65535))
            return [(st, t)]
        return super().on_call(e, fr, st, ins, f, args)

    def effect(self, e, fr, st, ins, f, n, R):
        k = len([x for x in st.prop if x[0] == 'call'])
        if n == 'Runtime_GetCurrentScriptAbsolutePath' and self.body is not None:
            no = st.clone()
            self.note(st, 'call', n, R, self.body)
            self.note(no, 'call', n, R, ZERO)
            return [(st, self.body), (no, ZERO)]
        if n == 'readdir':
            a = ('s', 0, '@errno', (), '', 'p')
            e.rng[a] = (4096, 2 ** 63)
            end, broken = st.clone(), st.clone()
            for x, what in ((end, 'end'), (broken, 'broken')):
                self.note(x, what)
                self.note(x, 'call', n, R, ZERO)
            t = ('s', 0, 'errno #%d' % k, (), '', 'i')
            e.rng[t] = (1, 200)
            e.put(fr, broken, ins, a, t, 4, ('raw',))
            v = self.tok(e, st, n)
            self.note(st, 'call', n, R, v)
            return [(st, v), (end, ZERO), (broken, ZERO)]
        if n in POINTS:
            v = ('s', 0, '%s #%d' % (n, k), (), '', 'p')
            e.rng[v] = (0, 2 ** 63 - 1)
            if n == 'getcwd':
                bad = st.clone()
                self.note(st, 'call', n, R, R[0])
                self.note(bad, 'call', n, R, ZERO)
                return [(st, R[0]), (bad, ZERO)]
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n in FDS or n in SSIZES:
            v = ('s', 0, '%s #%d' % (n, k), (), '', 'i')
            e.rng[v] = (-1, 1 if n == 'inet_pton' else 0 if n in ('setsockopt', 'bind', 'listen', 'close') else 2 ** 31 - 1 if n in FDS else 2 ** 62)
            if n == 'inet_pton':
                self.fill(e, fr, st, ins, R[2], 'parsed address', 4)
            if n == 'accept':
                self.fill(e, fr, st, ins, add(R[1], C(4)), 'peer address', 4)
                self.fill(e, fr, st, ins, add(R[1], C(2)), 'peer port', 2)
            if n in ('bind', 'setsockopt'):
                p = R[1] if n == 'bind' else R[3]
                got = []
                for o, z in ((0, 2), (2, 2), (4, 4)) if n == 'bind' else ((0, 4),):
                    x = st.mem.get(e.res(st, add(p, C(o))))
                    got.append(e.res(st, x[0]) if x is not None and x[1] == z else ANY)
                self.note(st, 'seen', tuple(got))
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n in SIZES:
            v = ('s', 0, '%s #%d' % (n, k), (), '', 'i')
            e.rng[v] = (0, 2 ** 62)
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n in ('rand', 'getc'):
            v = ('s', 0, '%s #%d' % (n, k), (), '', 'i')
            e.rng[v] = (0, 2 ** 31 - 1) if n == 'rand' else (-1, 255)
            if n == 'rand' and self.dice is not None:
                v = C(self.dice)
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n in MATH:
            v = ('s', 0, '%s #%d' % (n, k), (), '', 'f')
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n == 'runFileRelativeToScript':
            v = self.tok(e, st, n, 'i', -1, 8)
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if isinstance(f, str):
            return self.ext(e, fr, st, ins, n, R)
        return self.other(e, fr, st, ins, f, n, R)

    dice = None

    def fill(self, e, fr, st, ins, a, what, size):
        v = ('s', 0, '%s #%d' % (what, len([x for x in st.prop if x[0] == 'call'])), (), '', 'i')
        e.rng[v] = (0, 2 ** (8 * size) - 1)
        e.put(fr, st, ins, a, v, size, ('raw',))
        self.note(st, 'filled', what, v)


class Split(Exception):
    """it depends"""


class Wrong(Exception):
    """(key, text)"""


class Unsure(Exception):
    pass


class Ctx:
    """a reference walks along a path: it asks what holds there, expects calls, and says what is given back"""
    def __init__(self, s, m, p, scene):
        self.s, self.m, self.p, self.scene = s, m, p, scene
        self.ev = [x for x in p.ev if x[0] == 'call' and x[1] in EFFECTS or x[0] == 'ext' and x[1] in ('fclose', 'closedir') or x[0] == 'seen']
        self.k = 0
        self.conds = []

    # -- arguments
    def obj(self, k):
        return self.m.argv[k]

    def raw(self, k, struct, n, size, kind='i'):
        off = self.m.w_off(struct, n)
        return self.p.at(add(self.obj(k), C(off)), size, kind)

    def int(self, k):
        return self.scene.int(self.m, self.obj(k), self.p)

    def float(self, k):
        return self.raw(k, 'FloatObject', 'val', 8, 'f')

    def none(self, k):
        return self.scene.kinds[k] == 'none'

    def string(self, k):
        return self.raw(k, 'StringObject', 'body', 8, 'p'), self.raw(k, 'StringObject', 'bytes', 4)

    def buffer(self, k):
        pay = self.raw(k, 'BufferObject', 'payload', 8, 'p')
        body = add(add(pay, C(self.m.w_off('Payload', 'body'))), self.raw(k, 'BufferObject', 'offset', self.m.w_size('BufferObject', 'offset')))
        return self.p.res(body), self.raw(k, 'BufferObject', 'length', self.m.w_size('BufferObject', 'length'))

    # -- questions
    def ask(self, b):
        t = self.p.true(b)
        if t is not None:
            return t
        raise Split(b)

    def lt(self, a, b):
        return self.ask(lt(a, b))

    def le(self, a, b):
        return self.ask(('le', sub(a, b)))

    def eq(self, a, b):
        return self.ask(('eq', sub(a, b)))

    def test(self, k, m):
        """is this character of the text one of those?"""
        s = self.sets[k]
        if not s & ~m:
            return True
        if not s & m:
            return False
        raise Split(k, m)

    # -- what is to happen
    def call(self, n, *args):
        while self.k < len(self.ev) and self.ev[self.k][0] == 'seen':
            self.k += 1
        if self.k >= len(self.ev):
            raise Wrong('%s-missing' % n, '%s is not called' % n)
        x = self.ev[self.k]
        if x[1] != n:
            raise Wrong('%s-missing' % n, '%s is called where %s has to be' % (x[1], n))
        self.k += 1
        if len(args) != len(x[2]):
            raise Unsure('%s has other arguments' % n)
        for j, (a, b) in enumerate(zip(args, x[2])):
            if a is ANY or a == ANY:
                continue
            if isinstance(a, str):
                t = self.p.e.p.cstr(b) if b[0] in ('g', 'lin') else None
                if t is None:
                    raise Unsure('argument %d of %s is not known' % (j + 1, n))
                if t.rstrip('\0') != a:
                    raise Wrong('%s-%d' % (n, j), '%s is called with "%s" as argument %d, not with "%s"' % (n, t.rstrip('\0'), j + 1, a))
                continue
            self.same(a, b, '%s-%d' % (n, j), 'argument %d of %s is not what it has to be' % (j + 1, n))
        return x[3] if len(x) > 3 else None

    def seen(self, n):
        """what the call before was shown"""
        x = [y for y in self.ev[:self.k] if y[0] == 'seen']
        return x[-1][1] if x else None

    def same(self, a, b, key, text):
        a, b = self.p.res(a), self.p.res(b)
        if self.p.same(a, b) or self.p.same(strip(a), strip(b)):
            return
        if a[0] == 'f' and b[0] == 'f' or isc(a) and isc(b):
            raise Wrong(key, text)
        if self.p.differ(strip(a), strip(b)):
            raise Wrong(key, text)
        raise Unsure(text)

    def refuse(self):
        return ('refuse',)

    def give(self, *v):
        return ('give',) + v


class Scene:
    """arguments of known kinds"""
    def __init__(self, kinds, text=None, ints=None, argc=None, script=None, dice=None, what=''):
        self.kinds, self.text, self.ints, self.script, self.dice = list(kinds), text, ints or {}, script, dice
        self.argc = len(kinds) if argc is None else argc
        self.what = what

    small = ()

    def int(self, m, o, p):
        t = ('m', add(o, C(m.w_off('IntObject', 'val'))), 0, 8, 'i')
        return p.res(p.at(t[1], 8))


class Lib(Method):
    def __init__(self, w, ob, f, scene, turns=6, extra=(), free=False, inline=(), args=None):
        self.lay_ = {}
        self.scene = scene
        self.p_ = w.p

        def pre(m, st):
            e, h = m.e, m.h
            h.script, h.dice, h.panics = scene.script, scene.dice, []
            h.wild, h.over = [], []
            argv, rets = m.a.get('argv'), m.a.get('rets')
            m.argv = []
            if scene.text is not None:
                h.setup(e, st, scene.text)
                h.lens = len(scene.text)
            e.assume(st, ('ne', m.a['runtime']), True)
            for k, kind in enumerate(scene.kinds):
                o = tok(e, 'arg %d' % k)
                m.argv.append(o)
                st.mem[add(argv, C(8 * k))] = (o, 8, ('elem', 'ptr'))
                m.kind(st, k, o, kind)
            for b in extra:
                e.assume(st, b(m), True)
        super().__init__(w, ob, f, None, args or ['runtime', 'argv', C(scene.argc), 'rets', 'error'], pre=pre, hooks=LibHooks, record=(), inline=inline, turns=turns, free=free)

    def w_field(self, struct, n):
        x = self.lay_.get((struct, n))
        if x is None:
            for y, off, ct, z in self.p_.di_struct(struct) or ():
                if y == n:
                    x = (off, z)
            if x is None:
                raise Broken('%s has no member %s' % (struct, n))
            self.lay_[(struct, n)] = x
        return x

    def w_off(self, struct, n):
        return self.w_field(struct, n)[0]

    def w_size(self, struct, n):
        return self.w_field(struct, n)[1]

    def type(self, n):
        g = [x for x in self.ob.types if name(x) == n]
        if len(g) != 1:
            raise Broken('the object type %s is gone' % n)
        return ('g', g[0])

    def kind(self, st, k, o, kind):
        e = self.e
        ty = add(o, C(self.w.type_off))
        t = ('m', ty, 0, 8, 'p')
        if kind == 'any':
            return
        if kind.startswith('not '):
            for x in kind[4:].split('/'):
                e.assume(st, ('ne', sub(t, self.type(TYPES[x]))), True)
            return
        base = kind.split(' ')[0]
        st.mem[ty] = (self.type(TYPES[base]), 8, ('struct.Object', 0))
        if base == 'string':
            b, n = ('m', add(o, C(self.w_off('StringObject', 'body'))), 0, 8, 'p'), ('m', add(o, C(self.w_off('StringObject', 'bytes'))), 0, 4, 'i')
            e.rng[b] = (4096, 2 ** 63 - 1)
            e.rng[n] = (0, 2 ** 31 - 1)
            if kind == 'string text':
                st.mem[b[1]] = (self.h.body, 8, ('raw',))
                st.mem[n[1]] = (C(self.h.n), 4, ('raw',))
            elif ' ' in kind:
                st.mem[n[1]] = (C(int(kind.split(' ')[1])), 4, ('raw',))
        elif base == 'buffer':
            for x in ('offset', 'length'):
                z = self.w_size('BufferObject', x)
                a = ('m', add(o, C(self.w_off('BufferObject', x))), 0, z, 'i')
                e.rng[a] = (0, 2 ** 31 - 1)
            a = ('m', add(o, C(self.w_off('BufferObject', 'payload'))), 0, 8, 'p')
            e.rng[a] = (4096, 2 ** 63 - 1)
        elif base == 'int':
            a = ('m', add(o, C(self.w_off('IntObject', 'val'))), 0, 8, 'i')
            e.rng[a] = (-2 ** 63, 2 ** 63 - 1)
            if kind == 'int small':
                e.rng[a] = (-2 ** 31, 2 ** 31 - 1)
            elif ' ' in kind:
                st.mem[a[1]] = (C(int(kind.split(' ')[1])), 8, ('raw',))
        elif base == 'float' and ' ' in kind:
            a = add(o, C(self.w_off('FloatObject', 'val')))
            st.mem[a] = (('f', float(kind.split(' ')[1])), 8, ('raw',))


def text_at(p, a, n):
    """the n characters at an address"""
    r = root(p.res(a))
    if r is None:
        return None
    if r[0] == 'g':
        t = p.e.p.cstr(p.res(a))
        return [C(ord(c) - 256 if ord(c) > 127 else ord(c)) for c in t[:n]] if t is not None else None
    if r[0] in ('loc', 'alloc'):
        return bytes_at(p, p.res(a), n)
    return [p.res(p.at(add(a, C(k)), 1)) for k in range(n)]


def maker(p, o):
    """how an object was made"""
    for x in reversed(p.ev):
        if x[0] == 'call' and x[3] == o and o != ZERO:
            return x
    return None


def result(c, j, want):
    """is result j what it has to be?"""
    p, m = c.p, c.m
    o = p.cell(add(m['rets'], C(8 * j)))
    if o is None:
        raise Wrong('unset', 'result %d is not set' % (j + 1))
    if o is False:
        raise Unsure('result %d is not known' % (j + 1))
    kind = want[0]
    if kind == 'obj':
        return c.same(want[1], o, 'result', 'result %d is not what it has to be' % (j + 1))
    if kind == 'bool':
        x = maker(p, o)
        if x is not None and x[1] == 'Object_FromBool':
            return c.same(want[1], x[2][0], 'truth', 'the truth value given is not what it has to be')
        gs = [y for y in p.e.p.globals if y.endswith(('the_true_object', 'the_false_object'))]
        if o[0] == 'g' and o[1] in gs and isc(p.res(want[1])):
            if o[1].endswith('the_true_object') != (p.res(want[1]) != ZERO):
                raise Wrong('truth', 'the truth value given is not what it has to be')
            return
        raise Unsure('result %d is not known' % (j + 1))
    x = maker(p, o)
    if kind == 'none' and x is None and o[0] == 'g' and o[1].endswith('the_none_object'):
        return
    if x is None:
        if o[0] == 'g' and kind != 'none':
            raise Wrong('kind', 'result %d is not a new object of the right kind' % (j + 1))
        raise Unsure('result %d is not known' % (j + 1))
    k = MAKERS.get(x[1])
    if k is None:
        raise Unsure('result %d is made by %s' % (j + 1, x[1]))
    if k != {'msg': 'string', 'text': 'string', 'cstr': 'string', 'str': 'string'}.get(kind, kind):
        raise Wrong('kind', 'result %d is of kind %s, not %s' % (j + 1, k, {'msg': 'string', 'text': 'string', 'cstr': 'string', 'str': 'string'}.get(kind, kind)))
    if kind in ('none', 'msg'):
        return
    if kind in ('int', 'float', 'stream', 'dir'):
        return c.same(want[1], x[2][0], 'value', 'the value of result %d is not what it has to be' % (j + 1))
    if kind == 'cstr':
        c.same(want[1], x[2][0], 'text', 'result %d is not the text it has to be' % (j + 1))
        if x[2][1] != C(-1):
            v = [y for y in p.ev if y[0] == 'call' and y[1] == 'strlen' and y[3] == x[2][1]]
            if not v:
                raise Unsure('the length of result %d' % (j + 1))
        return
    if kind == 'str':
        c.same(want[1], x[2][0], 'text', 'result %d does not start where it has to' % (j + 1))
        n = p.res(x[2][1])
        if n == C(-1) and isc(p.res(want[2])):
            n = p.res(want[2]) if root(p.res(x[2][0])) == m.h.body and sub(add(p.res(x[2][0]), p.res(want[2])), m.h.body) == C(m.h.n) else n
        if n == C(-1):
            if p.same(p.res(x[2][0]), want[1]):
                raise Wrong('length', 'result %d ends at the first zero byte' % (j + 1))
            raise Unsure('the length of result %d' % (j + 1))
        return c.same(want[2], n, 'length', 'result %d is not as long as it has to be' % (j + 1))
    if kind == 'text':
        n = p.res(x[2][1])
        w = want[1]
        if n == C(-1):
            a = p.res(x[2][0])
            if a[0] == 'g':
                n = C(len((p.e.p.cstr(a) or '').rstrip('\0')))
            elif root(a) == m.h.body and isc(sub(a, m.h.body)):
                n = C(m.h.n - sub(a, m.h.body)[1])
        if not isc(n):
            raise Unsure('the length of result %d' % (j + 1))
        if n[1] != len(w):
            raise Wrong('length', 'result %d has %d bytes, not %d' % (j + 1, n[1], len(w)))
        t = text_at(p, x[2][0], len(w))
        if t is None:
            raise Unsure('the text of result %d' % (j + 1))
        for k, (a, b) in enumerate(zip(t, w)):
            if a is None:
                raise Wrong('text', 'byte %d of result %d is never set' % (k + 1, j + 1))
            a, b = p.res(a), p.res(b)
            if isc(a) and isc(b):
                if (a[1] - b[1]) % 256:
                    raise Wrong('text', 'byte %d of result %d is not what it has to be' % (k + 1, j + 1))
                continue
            c.same(strip(b), strip(a), 'text', 'byte %d of result %d is not what it has to be' % (k + 1, j + 1))
        return
    raise Broken(kind)


def compare(c, want):
    p, m = c.p, c.m
    rest = [x for x in c.ev[c.k:] if x[0] != 'seen']
    if rest and want[0] == 'refuse' and any(x[1] not in ('Object_Print', 'getc') and x[1] not in MATH for x in rest):
        raise Wrong('does', '%s is called although the arguments are refused' % rest[0][1])
    if rest and want[0] == 'give' and rest[0][1] not in MATH:
        raise Wrong('more', '%s is called too' % rest[0][1])
    r = p.res(p.ret)
    if want[0] == 'refuse':
        if isc(r) and r[1] >= 0:
            raise Wrong('accepts', 'accepts what it has to refuse')
        if isc(r) and not p.reports and not p.failed:
            raise Wrong('silent', 'fails without an error')
        if not isc(r):
            raise Unsure('what is returned is not known')
        return
    if want[1:2] == ('ret',):
        return c.same(want[2], r, 'returned', 'what is returned is not what it has to be')
    if not isc(r):
        raise Unsure('what is returned is not known')
    if r[1] < 0:
        raise Wrong('refuses', 'refuses what it has to accept')
    if r[1] != len(want) - 1:
        raise Wrong('count', 'gives %d results, not %d' % (r[1], len(want) - 1))
    for j, v in enumerate(want[1:]):
        result(c, j, v)


def check(s, m, scene, ref, key):
    """every path does what the reference does"""
    n = 0
    undecided = set()
    for p0 in m.paths:
        if p0.ret is None:
            continue
        leaks(s, m, p0, key)
        todo = [(p0, [], None)]
        k = 0
        while todo and k < 400:
            p, conds, sets = todo.pop()
            k += 1
            c = Ctx(s, m, p, scene)
            c.conds = conds
            if scene.text is not None:
                c.sets = sets if sets is not None else [m.e.chars(p.st, m.h.char(j)) for j in range(m.h.n)]
                if any(not x for x in c.sets):
                    continue
            try:
                want = ref(c)
                if excused(p):
                    n += 1
                    continue        # something it needs failed: E01, E02
                compare(c, want)
                n += 1
            except Split as x:
                if len(x.args) == 2:
                    i, mask_ = x.args
                    for y in (mask_, ~mask_):
                        q = list(c.sets)
                        q[i] &= y
                        todo.append((p, conds, q))
                    continue
                b = x.args[0]
                for t in (b, neg(b)):
                    q = p.case(t)
                    if q is not None:
                        todo.append((q, conds + [t], sets))
            except Wrong as x:
                if excused(p):
                    n += 1
                    continue
                if conds and p0.may(*conds) is not True:
                    undecided.add(x.args[1])
                    continue
                s.bad(m, p, '%s-%s' % (key, x.args[0]), '%s: %s' % (key + (' ' + scene.what if scene.what else ''), x.args[1]))
            except Unsure as x:
                undecided.add(x.args[0])
    for x in sorted(undecided):
        s.res.note('%s%s: %s: not decided' % (key, ' ' + scene.what if scene.what else '', x))
    s.res.count('cases', n)
    return n


def excused(p):
    """fails, and something it needs failed"""
    r = p.res(p.ret)
    return isc(r) and r[1] < 0 and (p.failed or any(x[0] == 'alloc' and x[3] == ZERO for x in p.ev))


def neg(b):
    if b[0] == 'le':
        return ('le', sub(ONE, b[1]))
    return ('ne' if b[0] == 'eq' else 'eq', b[1])


def leaks(s, m, p, key):
    """what is opened is closed, unless it is given away"""
    for k, x in enumerate(p.ev):
        if x[0] == 'call' and x[1] in ('fopen', 'opendir', 'socket', 'accept'):
            n, v = x[1], x[3]
            ok = p.true(('ne', v)) if n in ('fopen', 'opendir') else p.true(('le', scale(v, -1)))
        elif x[0] == 'alloc' and x[1] in ('malloc', 'calloc', 'realloc'):
            n, v, ok = x[1], x[3], x[3] != ZERO
        else:
            continue
        if not ok:
            continue
        shut = [y for y in p.ev[k + 1:] if y[0] in ('ext', 'call') and y[1] == OPENS[n] and p.same(strip(y[2][0]), v)]
        given = [y for y in p.ev[k + 1:] if y[0] == 'call' and y[1] in MAKERS and y[2] and p.same(strip(y[2][0]), v) and y[1] != 'Object_FromString' and y[3] != ZERO]
        r = p.res(p.ret)
        kept = given and isc(r) and r[1] > 0
        other = [y for y in p.ev[k + 1:] if y[0] == 'call' and y[1] not in MAKERS and y[1] not in EFFECTS and any(v in atoms(z) | {z} for z in y[2])]
        if kept and shut:
            s.bad(m, p, '%s-closed' % key, '%s: what %s opened is closed although it is given back' % (key, n))
        elif len(shut) > 1:
            s.bad(m, p, '%s-twice' % key, '%s: what %s opened is closed twice' % (key, n))
        elif not kept and not shut and not other and isc(r):
            s.bad(m, p, '%s-leak' % key, '%s: what %s opened is never closed' % (key, n) if n not in ('malloc', 'calloc', 'realloc') else '%s: memory is never freed' % key)
        s.res.count('resources')


def inside(s, m, key):
    """buffers are not overrun"""
    for st in m.h.over:
        s.bad(m, Path(m, st, None), '%s-beyond' % key, '%s: looks at bytes outside of the string' % key)
    for st in m.h.wild:
        s.bad(m, Path(m, st, None), '%s-wild' % key, '%s: writes outside of its buffer' % key)
    for n, st in m.h.panics:
        s.bad(m, Path(m, st, None), '%s-dies' % key, '%s: ends the interpreter (%s)' % (key, n))
    for p in m.paths:
        size = {}
        for x in p.ev:
            if x[0] == 'alloc' and isc(x[2]):
                size[x[3]] = x[2][1]
            elif x[0] in ('store', 'copy') and root(x[1]) in size:
                d, z = sub(x[1], root(x[1])), (C(x[3]) if x[0] == 'store' else p.res(x[3]))
                if isc(d) and isc(z) and not 0 <= d[1] <= size[root(x[1])] - z[1]:
                    s.bad(m, p, '%s-wild' % key, '%s: writes outside of its memory' % key)


# ---------------------------------------------------------------- the functions by their names
class Names:
    def __init__(self, w):
        self.w = w
        self.t = Tables(w)
        top = [g for g, ss in self.t.tables.items() if any(x.name == 'import' for x in ss)]
        if len(top) != 1:
            raise Broken('the table of the builtins is gone')
        self.top = self.t.tables[top[0]]

    def slot(self, n):
        ss = self.top
        for part in n.split('.'):
            if ss is None:
                return None
            x = [y for y in ss if y.name == part]
            if not x:
                return None
            x = x[0]
            ss = self.t.tables.get(x.val[1]) if x.kind == 'SM_SMAP' and x.val and x.val[0] == 'g' else None
        return x

    def fn(self, n, argc, res):
        x = self.slot(n)
        if x is None or x.kind != 'SM_FUNCT' or x.val[0] != 'g':
            res.add('%s:gone' % n, 'src/lib/builtins/basic.c', n, 'scripts cannot call %s any more' % n, ())
            return None
        f = self.w.p.functions.get(x.val[1])
        if f is None:
            raise Broken('%s is not in the program' % n)
        if x.aux != argc:
            res.add('%s:argc' % n, '%s:%d' % (f.file, f.line), n, '%s is declared with %s arguments, not %s' % (n, x.aux, argc), ())
            return None
        return f


SIG = {'string.ord': ['string'], 'string.chr': ['int'], 'string.slice': ['string', 'int?', 'int?'], 'string.trim': ['string'], 'string.toInt': ['string'], 'string.cat': -1,
       'buffer.new': ['int'], 'buffer.sliceUp': ['buffer', 'int', 'int'], 'buffer.toString': ['buffer'], 'buffer.fromString': ['string'],
       'files.openFile': ['string', 'int'], 'files.openDir': ['string'], 'files.nextDirItem': ['dir'], 'files.read': ['file', 'buffer', 'int?'], 'files.write': ['file', 'buffer', 'int?'],
       'net.socket': ['int', 'int', 'int', 'bool?'], 'net.bind': ['int', 'int', 'int', 'string?'], 'net.listen': ['int', 'int'], 'net.accept': ['int'],
       'net.recv': ['int', 'buffer', 'int?'], 'net.send': ['int', 'buffer', 'int?'], 'net.close': ['int'],
       'random.seed': ['int'], 'random.generate': ['int?', 'int?'],
       'import': ['string'], 'type': ['any'], 'print': -1, 'input': [], 'count': ['any'], 'error': ['string'], 'assert': -1, 'istypeof': ['any', 'any'], 'typename': ['any'], 'keysof': ['any'],
       'getCurrentWorkingDirectory': [], 'getCurrentScriptDirectory': [], 'getCurrentScriptLocation': []}
for x in ('floor', 'ceil', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'log10', 'sqrt'):
    SIG['math.' + x] = ['float']
for x in ('atan2', 'pow'):
    SIG['math.' + x] = ['float', 'float']

SPACE = is1(' ')


def trimmed(c):
    i, n = 0, len(c.sets)
    while i < n and c.test(i, SPACE):
        i += 1
    while n > i and c.test(n - 1, SPACE):
        n -= 1
    return c.give(('text', [c.m.h.char(k) for k in range(i, n)]))


def number(c):
    n = len(c.sets)
    if not n:
        return c.give(('none',), ('msg',))
    v = ZERO
    for k in range(n):
        if not c.test(k, digit):
            return c.give(('none',), ('msg',))
    if all(len(values(x)) == 1 for x in c.sets):
        t = int(''.join(chr(values(x)[0]) for x in c.sets))
        if t >= 2 ** 63:
            return c.give(('none',), ('msg',))
        return c.give(('int', C(t)))
    for k in range(n):
        v = add(scale(v, 10), add(c.m.h.char(k), C(-48)))
    return c.give(('int', v))


def first_char(c):
    if not c.sets:
        return c.refuse()
    t = [values(x) for x in c.sets]
    if all(len(x) == 1 for x in t):
        s = bytes(x[0] & 255 for x in t).decode('utf8')
        return c.give(('int', C(ord(s[0]))))
    return c.give(('int', c.m.h.char(0)))       # the sets are of ASCII characters


def as_text(v):
    def ref(c):
        if not 0 <= v <= 0x10ffff:
            return c.refuse()
        return c.give(('text', [C(b - 256 if b > 127 else b) for b in chr(v).encode('utf8')]))
    return ref


def sliced(c):
    b, n = c.string(0)
    off = ZERO if c.none(1) else c.int(1)
    if c.lt(off, ZERO):
        return c.refuse()
    if c.lt(n, off):
        return c.refuse()
    size = sub(n, off) if c.none(2) else c.int(2)
    if c.lt(size, ZERO) or c.lt(sub(n, off), size):
        return c.refuse()
    return c.give(('str', add(b, off), size))


def joined(c):
    out = []
    for k in range(len(c.scene.kinds)):
        b, n = c.string(k)
        out += [c.p.res(('m', add(b, C(j)), 0, 1, 'i')) for j in range(n[1])]
    return c.give(('text', out))


def new_buffer(c):
    if c.lt(c.int(0), ZERO):
        return c.refuse()
    return c.give(('obj', c.own('Object_NewBuffer', c.int(0), ANY, ANY)))


def buffer_text(c):
    b, n = c.buffer(0)
    k = c.own('utf8_strlen', b, n)
    if c.lt(k, ZERO):
        return c.give(('none',), ('msg',))
    return c.give(('str', b, n))


def open_file(c):
    for v, mode in ((0, 'r'), (1, 'w+'), (2, 'a'), (3, 'a')):
        if c.eq(c.int(1), C(v)):
            f = c.call('fopen', c.string(0)[0], mode)
            if c.eq(f, ZERO):
                return c.give(('none',), ('msg',))
            return c.give(('stream', f))
    return c.refuse()


def limited(c, k, size, low):
    """how many bytes are meant"""
    if c.none(k):
        return size
    n = c.int(k)
    if c.lt(n, ZERO):
        return low
    return n if c.le(n, size) else size


def file_io(fn):
    def ref(c):
        b, size = c.buffer(1)
        n = limited(c, 2, size, None)
        if n is None:
            return c.refuse()
        return c.give(('int', c.call(fn, b, ONE, n, c.raw(0, 'FileObject', 'fp', 8, 'p'))))
    return ref


def open_dir(c):
    d = c.call('opendir', c.string(0)[0])
    if c.eq(d, ZERO):
        return c.give()
    return c.give(('dir', d))


def next_item(c):
    d = c.call('readdir', c.raw(0, 'DirObject', 'dir', 8, 'p'))
    if c.eq(d, ZERO):
        if any(x[0] == 'broken' for x in c.p.ev):
            return c.refuse()
        return c.give()
    return c.give(('cstr', add(d, C(c.m.w_off('dirent', 'd_name')))))


def net_io(fn):
    def ref(c):
        b, size = c.buffer(1)
        n = limited(c, 2, size, None)
        if n is None:
            return c.give(('none',), ('msg',))
        r = c.call(fn, c.int(0), b, n, ZERO)
        if c.lt(r, ZERO):
            return c.give(('none',), ('msg',))
        return c.give(('int', r))
    return ref


def new_socket(c):
    f = c.call('socket', c.int(0), c.int(1), c.int(2))
    if c.lt(f, ZERO):
        return c.give(('none',), ('msg',))
    if not c.none(3) and c.ask(('eq', sub(c.obj(3), the(c, 'true')))):
        r = c.call('setsockopt', f, ONE, C(2), ANY, C(4))
        v = c.seen('setsockopt')
        if v and v[0] != ANY and c.p.same(v[0], ZERO):
            raise Wrong('reuse', 'the option is switched off instead of on')
        if c.lt(r, ZERO):
            c.call('close', f)
            return c.give(('none',), ('msg',))
    return c.give(('int', f))


def the(c, what):
    g = [x for x in c.p.e.p.globals if x.endswith('the_%s_object' % what)]
    if len(g) != 1:
        raise Unsure('the object %s' % what)
    return ('g', g[0])


def filled(c, what):
    x = [y for y in c.p.ev if y[0] == 'filled' and y[1] == what]
    if not x:
        raise Unsure(what)
    return x[-1][2]


def bound(c):
    if not c.eq(c.int(1), C(2)):
        return c.give(('none',), ('msg',))
    addr = ZERO
    if not c.none(3):
        r = c.call('inet_pton', C(2), c.string(3)[0], ANY)
        if c.lt(r, ONE):
            return c.give(('none',), ('msg',))
        addr = filled(c, 'parsed address')
    r = c.call('bind', c.int(0), ANY, C(16))
    fam, port, a = c.seen('bind')
    want = ('op', 'htons', c.int(2))
    if fam != ANY:
        c.same(C(2), fam, 'family', 'the family of the address bound is not AF_INET')
    if port != ANY and port[:2] == ('op', 'htons'):
        if c.p.differ(strip(port[2]), c.int(2)):
            raise Wrong('port', 'the port bound is not the one given')
    elif isc(port) and isc(c.int(2)):
        v = c.int(2)[1]
        if (port[1] - ((v & 255) << 8 | v >> 8)) % 65536:
            raise Wrong('port', 'the port bound is not the one given')
    elif port != ANY and c.p.same(strip(port), c.int(2)):
        raise Wrong('order', 'the port is not in network byte order')
    if a != ANY and addr is not None:
        c.same(addr, a, 'address', 'the address bound is not the one given')
    if c.lt(r, ZERO):
        return c.give(('msg',))
    return c.give(('none',))


def listening(c):
    r = c.call('listen', c.int(0), c.int(1))
    if c.lt(r, ZERO):
        return c.give(('msg',))
    return c.give(('none',))


def accepted(c):
    f = c.call('accept', c.int(0), ANY, ANY)
    if c.lt(f, ZERO):
        return c.give(('none',), ('msg',))
    return c.give(('int', f), ('int', filled(c, 'peer address')), ('int', filled(c, 'peer port')))


def shut(c):
    return c.give(('int', c.call('close', c.int(0))))


def seeded(c):
    c.call('srand', c.int(0))
    return c.give(('none',))


def maths(n, argc):
    def ref(c):
        v = c.call(n, *[c.float(k) for k in range(argc)])
        if n in ('floor', 'ceil'):
            return c.give(('int', ('op', 'fptosi', C(64), v)))
        return c.give(('float', v))
    return ref


def printed_all(c):
    for k in range(len(c.scene.kinds)):
        c.call('Object_Print', c.obj(k), dispatch_rt(c, 'stdout'))
    return c.give()


def dispatch_rt(c, what):
    f = c.p.e.p.fn('Runtime_GetOutputStream')
    for n in ('output', 'stdout_', 'out'):
        for x, off, ct, z in c.m.ob.members('struct.xRuntime'):
            if x == n:
                return ('m', add(c.m['runtime'], C(off)), 0, 8, 'p')
    outs = [(x, off) for x, off, ct, z in c.m.ob.members('struct.xRuntime') if 'FILE' in ct]
    return ANY


def typed(c):
    t = c.p.at(add(c.obj(0), C(c.m.w.type_off)), 8, 'p')
    return c.give(('obj', t))


def type_name(c):
    t = c.p.at(add(c.obj(0), C(c.m.w.type_off)), 8, 'p')
    return c.give(('cstr', ('m', add(t, C(c.m.w_off('TypeObject', 'name'))), 0, 8, 'p')))


def counted(c):
    return c.give(('int', c.own('Object_Count', c.obj(0), ANY)))


def asserted(c):
    for k in range(len(c.scene.kinds)):
        if c.scene.kinds[k] != 'bool':
            return c.refuse()
        if not c.ask(('eq', sub(c.obj(k), the(c, 'true')))):
            return c.refuse()
    return c.give()


def raised(c):
    b, n = c.string(0)
    for x in c.p.ev:
        if x[0] != 'report':
            continue
        fmt, rest = x[2][5], x[2][6:]
        if fmt[0] not in ('g', 'lin'):
            if fmt == b:
                raise Wrong('format', 'the text of the script is used as a format')
            raise Unsure('the message')
        t = (c.p.e.p.cstr(fmt) or '').rstrip('\0')
        if '%s' not in t and '%.*s' not in t:
            raise Wrong('message', 'the message is not the text given')
        if rest:
            c.same(b, rest[-1], 'message', 'the message is not the text given')
    return c.refuse()


def type_of(c):
    r = c.own('Object_IsTypeOf', c.obj(0), c.obj(1), ANY, ANY)
    return c.give(('bool', r))


def keys_of(c):
    return c.give(('obj', c.own('Object_KeysOf', c.obj(0), ANY, ANY)))


def imported(c):
    r = c.own('runFileRelativeToScript', c.m['runtime'], c.string(0)[0], c.m['rets'], ANY)
    return c.give('ret', r)


def cwd(c):
    r = c.call('getcwd', ANY, ANY)
    if r == ZERO:
        return c.refuse()
    return c.give(('cstr', r))


def location(c):
    r = c.own('Runtime_GetCurrentScriptAbsolutePath', c.m['runtime'])
    if c.eq(r, ZERO):
        return c.give(('none',))
    return c.give(('cstr', r))


def input_ref(script):
    def ref(c):
        n = min(x for x in (script.index(10) if 10 in script else len(script), script.index(-1) if -1 in script else len(script)))
        took = len([x for x in c.p.ev if x[0] == 'typed'])
        if took < n + 1 and n < len(script):
            raise Wrong('stops', 'stops reading before the end of the line')
        if took > n + 1:
            raise Wrong('reads', 'reads past the end of the line')
        return c.give(('text', [C(v - 256 if v > 127 else v) for v in script[:n]]))
    return ref


def own(self, n, *args):
    """a call of another part of the interpreter: if it is not made, it is not known what is done instead"""
    if not any(x[1] == n for x in self.ev[self.k:] if x[0] != 'seen'):
        raise Unsure('%s is not called' % n)
    return self.call(n, *args)


Ctx.own = own

REFS = {'string.slice': sliced, 'buffer.new': new_buffer, 'buffer.toString': buffer_text,
        'buffer.sliceUp': lambda c: c.give(('obj', c.own('Object_SliceBuffer', c.obj(0), c.int(1), c.int(2), ANY, ANY))),
        'buffer.fromString': lambda c: c.give(('obj', c.own('Object_NewBufferFromString', c.string(0)[0], c.string(0)[1], ANY, ANY))),
        'files.openFile': open_file, 'files.read': file_io('fread'), 'files.write': file_io('fwrite'), 'files.openDir': open_dir, 'files.nextDirItem': next_item,
        'net.socket': new_socket, 'net.bind': bound, 'net.listen': listening, 'net.accept': accepted, 'net.recv': net_io('recv'), 'net.send': net_io('send'), 'net.close': shut,
        'random.seed': seeded, 'type': typed, 'typename': type_name, 'count': counted, 'istypeof': type_of, 'keysof': keys_of, 'error': raised, 'import': imported,
        'getCurrentWorkingDirectory': cwd, 'getCurrentScriptLocation': location}
for x, sig in SIG.items():
    if x.startswith('math.'):
        REFS[x] = maths(x[5:], len(sig))
SMALL = ('net.', 'files.openFile', 'random.seed')


def variants(n):
    """the kinds of right arguments"""
    out = [[]]
    for k in SIG[n]:
        ks = [k.rstrip('?')] + (['none'] if k.endswith('?') else [])
        if n.startswith(SMALL):
            ks = ['int small' if x == 'int' and not (k.endswith('?')) else x for x in ks]
        out = [x + [y] for x in out for y in ks]
    return out


def wrongs(n):
    out = []
    sig = SIG[n]
    for k, x in enumerate(sig):
        if x == 'any':
            continue
        bad = 'not ' + (x[:-1] + '/none' if x.endswith('?') else x)
        out.append([y.rstrip('?') for y in sig[:k]] + [bad] + ['any'] * (len(sig) - k - 1))
        for other in ('none', 'string', 'int', 'float', 'bool', 'buffer'):
            if other == x.rstrip('?') or x.endswith('?') and other == 'none':
                continue
            out.append([y.rstrip('?') for y in sig[:k]] + [other] + [y.rstrip('?') for y in sig[k + 1:]])
    return out


def libjob(x):
    w, ob, n, scene, ref, key, opt = x
    res = Result()
    s = F(w, ob, res, n)
    nm = Names(w)
    f = nm.fn(n, -1 if SIG[n] == -1 else len(SIG[n]), res)
    if f is None:
        return res
    m = Lib(w, ob, f, scene, **opt)
    res.count('scenes')
    res.count('paths', len(m.paths))
    if m.undecided:
        res.note('%s %s: %s: not decided' % (n, scene.what, m.undecided))
        return res
    inside(s, m, n)
    k = check(s, m, scene, ref, n)
    if not k and not res.findings:
        res.note('%s %s: no case decided' % (n, scene.what))
    return res


REFUSE = lambda c: c.refuse()


def general(names):
    js = []
    for n in names:
        if n in REFS:
            for v in variants(n):
                js.append((n, Scene(v, what='(%s)' % ', '.join(v)), REFS[n], n, {}))
            for k, x in enumerate(SIG[n]):
                # numbers at the ends of what they can be
                if x.startswith('int') and not (n.startswith(SMALL) and not x.endswith('?')):
                    for y in (-1, -2 ** 63, -2 ** 32, 0, 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 63 - 1):
                        v = variants(n)[0]
                        v[k] = 'int %d' % y
                        js.append((n, Scene(v, what='(%s)' % ', '.join(v)), REFS[n], n, {}))
        if SIG[n] != -1:
            for v in wrongs(n):
                js.append((n, Scene(v, what='(%s)' % ', '.join(v)), REFUSE, n, {}))
    return js


def texts(n, ref, k, **o):
    return [(n, Scene(['string text'], text=[ALL] * j, what='of %d characters' % j), ref, n, dict(turns=j + 4, **o)) for j in k]


def exact(n, ref, strs, **o):
    out = []
    for t in strs:
        b = t.encode('utf8') if isinstance(t, str) else t
        sets = [is1(chr(v)) if v < 128 else 1 << (v - 256 + 128) for v in b]
        out.append((n, Scene(['string text'], text=sets, what='of "%s"' % b.decode('utf8', 'replace')), ref, n, dict(turns=len(b) + 4, **o)))
    return out


def go(w, js, res, floor=None):
    ob = Objs(w)
    for r in pmap(libjob, [(w, ob) + j for j in js]):
        res.merge(r)
    return res


def strings(tier):
    w, res = World(), Result()
    js = general(['string.ord', 'string.chr', 'string.slice', 'string.trim', 'string.toInt', 'buffer.new', 'buffer.sliceUp', 'buffer.toString', 'buffer.fromString'])
    deep = tier == 'thorough'
    js += texts('string.trim', trimmed, range(6 if deep else 5))
    js += exact('string.trim', trimmed, ['   a b   ', '\t a\n', ' ' * 9, 'é  ', '  \xa0'])
    js += texts('string.toInt', number, range(5 if deep else 4))
    js += exact('string.toInt', number, ['9223372036854775807', '9223372036854775808', '9223372036854775806', '9223372036854775800', '9223372036854775799', '9223372036854775810', '18446744073709551616', '18446744073709551617',
                                         '99999999999999999999', '0000000000000000000000012', '1' * 19, '9' * 18, '-1', '+1', '12a', '1 ', ' 1', '1.5', '2147483648', '4294967296', '00000000000000000000000'])
    low = mask(lambda v: v >= 0)
    js += [('string.ord', Scene(['string text'], text=[low] + [ALL] * k, what='of %d characters' % (k + 1)), first_char, 'string.ord', {}) for k in range(3)]
    js += exact('string.ord', first_char, ['', 'a', '\x7f', '\x80', '߿', 'ࠀ', '\ud7ff', '\ue000', '\uffff', '\U00010000', '\U0010ffff', 'éa', '\u20acx', '\U0001f600zz', 'aé', '\x80\x80'])
    for v in (0, 1, 0x41, 0x7f, 0x80, 0x81, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x12345, 0x10ffff, 0x110000, 0x1fffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000041, 2 ** 63 - 1, -1, -65, -2 ** 31, -2 ** 32 + 65, -2 ** 63):
        js.append(('string.chr', Scene(['int %d' % v], what='of %d' % v), as_text(v), 'string.chr', {}))
    cases = [()] + [(a,) for a in (0, 1, 2, 126, 127, 128, 129, 300)] + [(1, 1), (0, 0), (3, 0), (0, 3), (63, 64), (64, 64), (127, 1), (128, 1), (1, 128), (200, 200), (1, 2, 3), (0, 2, 0), (40, 40, 47), (40, 40, 48), (100, 50, 1)]
    if deep:
        cases += [(a, b) for a in (0, 1, 125, 126, 127, 128) for b in (0, 1, 2, 3)] + [(1000, 24), (4, 3, 2, 1), (32, 32, 32, 32)]
    for t in cases:
        js.append(('string.cat', Scene(['string %d' % z for z in t], what='of %s bytes' % '+'.join(map(str, t))), joined, 'string.cat', dict(turns=sum(t) + 8)))
    for t in (['not string'], ['string 1', 'not string'], ['string 1', 'string 2', 'int'], ['none', 'string 1']):
        js.append(('string.cat', Scene(t, what='(%s)' % ', '.join(t)), REFUSE, 'string.cat', {}))
    return go(w, js, res)


def files(tier):
    w, res = World(), Result()
    js = general(['files.openFile', 'files.openDir', 'files.nextDirItem', 'files.read', 'files.write'])
    constants(w, res, {'files.READ': 0, 'files.WRITE': 1, 'files.APPEND': 2})
    return go(w, js, res)


def net(tier):
    w, res = World(), Result()
    constants(w, res, {'net.AF_INET': 2, 'net.SOCK_STREAM': 1, 'net.SOCK_DGRAM': 2})
    js = general([n for n in SIG if n.startswith('net.')])
    for port in (0, 1, 80, 255, 256, 1023, 1024, 8080, 32767, 32768, 45183, 65280, 65535):
        for a in ('string', 'none'):
            js.append(('net.bind', Scene(['int small', 'int 2', 'int %d' % port, a], what='to port %d (%s)' % (port, a)), bound, 'net.bind', {}))
    return go(w, js, res)


def constants(w, res, d):
    nm = Names(w)
    for n, v in d.items():
        x = nm.slot(n)
        res.count('constants')
        if x is None:
            res.add('%s:gone' % n, 'src/lib/builtins', n, 'scripts have no %s any more' % n, ())
        elif isinstance(v, float):
            if x.kind != 'SM_FLOAT' or x.val is None or x.val[0] != 'f' or x.val[1] != v:
                res.add('%s:value' % n, 'src/lib/builtins', n, '%s is not %r' % (n, v), ())
        elif x.kind != 'SM_INT' or x.val != C(v):
            res.add('%s:value' % n, 'src/lib/builtins', n, '%s is not %d' % (n, v), ())


def maths_all(tier):
    import math
    w, res = World(), Result()
    constants(w, res, {'math.PI': math.pi, 'math.E': math.e})
    js = general([n for n in SIG if n.startswith(('math.', 'random.'))])
    M = 2 ** 31 - 1
    for lo, hi in ((0, 10), (-5, 5), (3, 3), (-10, -2), (0, 1), (None, 7), (None, 0)):
        for d in (0, 1, M // 2, M - 1, M):
            v = ['none' if z is None else 'int %d' % z for z in (lo, hi)]
            js.append(('random.generate', Scene(v, dice=d, what='of (%s, %s) when rand() is %d' % (lo, hi, d)), ranged(lo or 0, hi, d), 'random.generate', dict(free=True)))
    return go(w, js, res)


def ranged(lo, hi, d):
    def ref(c):
        c.own('rand')
        if excused(c.p):
            return c.give(('int', ANY))
        o = c.p.cell(c.m['rets'])
        x = maker(c.p, o) if o else None
        v = c.p.res(x[2][0]) if x is not None and x[1] == 'Object_FromInt' else None
        if v is None or not isc(v):
            raise Unsure('the number given')
        if not lo <= v[1] <= hi:
            raise Wrong('range', 'gives %d' % v[1])
        if d == 0 and v[1] != lo or d == 2 ** 31 - 1 and v[1] != hi:
            raise Wrong('ends', 'gives %d: the ends of the range are not reached' % v[1])
        return c.give(('int', v))
    return ref


def script_dir(c):
    n = len(c.sets)
    r = c.own('Runtime_GetCurrentScriptAbsolutePath', c.m['runtime'])
    if c.eq(r, ZERO):
        return c.give(('none',))
    i = n
    while i > 0 and not c.test(i - 1, is1('/')):
        i -= 1
    return c.give(('text', [c.m.h.char(k) for k in range(i)]))


def basics(tier):
    w, res = World(), Result()
    js = general([n for n in SIG if '.' not in n])
    for k in range(4):
        js.append(('print', Scene(['any'] * k, what='of %d values' % k), printed_all, 'print', {}))
        js.append(('assert', Scene(['bool'] * k, what='of %d values' % k), asserted, 'assert', {}))
        for j in range(k):
            t = ['bool'] * k
            t[j] = 'not bool'
            js.append(('assert', Scene(t, what='(%s)' % ', '.join(t)), asserted, 'assert', {}))
    line = lambda n: [(k * 7 + 1) % 256 if (k * 7 + 1) % 256 != 10 else 255 for k in range(n)]
    for n in (0, 1, 2, 254, 255, 256, 257, 509, 510, 511, 512, 700) + ((1019, 1020, 1021, 1022, 2100) if tier == 'thorough' else ()):
        for end in ([10, 65], [-1]):
            js.append(('input', Scene([], script=line(n) + end, what='of %d characters and %s' % (n, 'a newline' if end[0] == 10 else 'the end of the input')), input_ref(line(n) + end), 'input', dict(turns=n + 8)))
    for n in range(1, 5 if tier == 'quick' else 7):
        js.append(('getCurrentScriptDirectory', Scene([], text=[is1('/')] + [ALL & ~is1('\0')] * (n - 1), what='of a path of %d characters' % n), script_dir, 'getCurrentScriptDirectory', dict(turns=n + 6)))
    named_types(w, res)
    return go(w, js, res)


def named_types(w, res):
    """the names of types are bound to the types of those names"""
    ob = Objs(w)
    nm = Names(w)
    s = F(w, ob, res, 'types')
    f = s.fn('bins_basic_init')
    m = Method(w, ob, f, None, ['slots'])
    res.count('paths', len(m.paths))
    off = [o for n, o, ct, z in w.p.di_struct('TypeObject') if n == 'name'][0]
    for p in m.paths:
        for k, x in enumerate(nm.top):
            if x.kind != 'SM_TYPE' or x.name is None:
                continue
            v = p.cell(add(m['slots'], C(k * nm.t.size + nm.t.o_val)))
            res.count('types')
            if v is None:
                s.bad(m, p, 'unset-%s' % x.name, 'the name %s is never bound to a type' % x.name)
            elif v and v[0] == 'g':
                t = m.e.const_at(w.p.globals[v[1]].ty, w.p.globals[v[1]].init, off, PTR)
                t = w.p.cstr(t) if t is not None and t[0] in ('g', 'lin') else None
                if t is not None and t.rstrip('\0') != x.name:
                    s.bad(m, p, 'type-%s' % x.name, 'the name %s is bound to the type %s' % (x.name, t.rstrip('\0')))
        seen = {}
    for g, ss in nm.t.tables.items():
        seen = set()
        for x in ss:
            if x.name is None:
                break
            if x.name in seen:
                res.add('%s:twice:%s' % (g, x.name), g, g, 'the name %s is there twice' % x.name, ())
            seen.add(x.name)
        else:
            res.add('%s:end' % g, g, g, 'the table has no end', ())

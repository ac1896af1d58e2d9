"""P01: the tokens a source is split into; P02: what is in a string."""
from parsing import *

UP, LO, AL, DI, XD, SP, PR, GR, BL, CN, PU, AN = 0x100, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x8000, 1, 2, 4, 8


def class_of(v):
    """the classes of a character (those of the C locale)"""
    if not 0 <= v < 128:
        return 0
    c, m = chr(v), 0
    m |= UP if 'A' <= c <= 'Z' else LO if 'a' <= c <= 'z' else DI if c.isdigit() else 0
    if m & (UP | LO):
        m |= AL
    if m & (AL | DI):
        m |= AN
    if c in '0123456789abcdefABCDEF':
        m |= XD
    if c in ' \t\n\v\f\r':
        m |= SP
    if c in ' \t':
        m |= BL
    if 32 <= v < 127:
        m |= PR
    if 32 < v < 127:
        m |= GR
    if v < 32 or v == 127:
        m |= CN
    if m & GR and not m & AN:
        m |= PU
    return m


CLASS = {v: class_of(v) for v in range(-128, 256)}
BYTES = range(-128, 128)
ALL = (1 << 256) - 1
CTYPE = {'isalpha': AL, 'isdigit': DI, 'isspace': SP, 'isalnum': AN, 'isupper': UP, 'islower': LO, 'isxdigit': XD, 'ispunct': PU, 'isprint': PR,
         'isgraph': GR, 'isblank': BL, 'iscntrl': CN}


def mask(f):
    return sum(1 << (v + 128) for v in BYTES if f(v))


def values(m):
    return [v for v in BYTES if m >> (v + 128) & 1]


def ev(t, a, v):
    """the value of a term of one character"""
    if t == a:
        return v
    k = t[0]
    if k == 'c':
        return t[1]
    if k == 'lin':
        s = t[1]
        for x, c in t[2]:
            y = ev(x, a, v)
            if y is None:
                return None
            s += c * y
        return s
    if k == 'op':
        if t[1] == 'ctype':
            y = ev(t[2], a, v)
            return None if y is None else CLASS.get(y, 0)
        if t[1] == 'and':
            x, y = ev(t[2], a, v), ev(t[3], a, v)
            return None if x is None or y is None else x & y
        if t[1] == 'zext':
            y = ev(t[3], a, v)
            return None if y is None else y & ((1 << t[2][1]) - 1)
        if t[1] == 'trunc':
            y = ev(t[3], a, v)
            n = t[2][1]
            return None if y is None else (y + (1 << (n - 1))) % (1 << n) - (1 << (n - 1))
    return None


def truth1(b, a, v):
    k = b[0]
    if k in ('eq', 'ne', 'le'):
        y = ev(b[1], a, v)
        return None if y is None else (y == 0 if k == 'eq' else y != 0 if k == 'ne' else y <= 0)
    if k == 'not':
        y = truth1(b[1], a, v)
        return None if y is None else not y
    if k in ('and', 'or'):
        x, y = truth1(b[1], a, v), truth1(b[2], a, v)
        if x is None or y is None:
            return None
        return x and y if k == 'and' else x or y
    return None


class Chars(Apart):
    """sets of characters"""
    memo = None

    def fact(self, key, f, a):
        """the characters that satisfy a fact"""
        if self.memo is None:
            self.memo = {}
        r = self.memo.get((key, a))
        if r is None:
            r = 0
            for v in BYTES:
                t = f(v)
                if t is None or t:
                    r |= 1 << (v + 128)
            self.memo[(key, a)] = r
        return r

    def chars(self, st, a):
        """what a character of the text can be"""
        m = self.h.init.get(a, ALL)
        s = st.sub.get(a)
        if s is not None and isc(s):
            return m & (1 << (s[1] + 128)) if -128 <= s[1] < 128 else 0
        for k, (lo, hi) in st.iv.items():
            if any(a == x or a in atoms(x) for x, c in k):
                m &= self.fact(('iv', k, lo, hi), lambda v: (lambda y: None if y is None else lo <= y <= hi)(ev(('lin', 0, k), a, v)), a)
        for k, no in st.ne.items():
            if any(a == x or a in atoms(x) for x, c in k):
                m &= self.fact(('ne', k, no), lambda v: (lambda y: None if y is None else y not in no)(ev(('lin', 0, k), a, v)), a)
        for b, t in st.tr.items():
            if a in atoms(b):
                m &= self.fact(('tr', b, t), lambda v: (lambda y: None if y is None else y == t)(truth1(b, a, v)), a)
        for x, t in st.sub.items():
            if x[0] == 'op' and a in atoms(x) and isc(t):
                m &= self.fact(('sub', x, t), lambda v: (lambda y: None if y is None else y == t[1])(ev(x, a, v)), a)
        return m

    def truth(self, st, b):
        t = super().truth(st, b)
        if t is None:
            at = [a for a in atoms(b) | {b} if a in self.h.text]
            if len(at) == 1:
                a = at[0]
                c = self.chars(st, a)
                f = self.fact(('b', b), lambda v: truth1(b, a, v), a)
                g = self.fact(('nb', b), lambda v: (lambda y: None if y is None else not y)(truth1(b, a, v)), a)
                if not c & g:
                    return True
                if not c & f:
                    return False
        return t

    def load(self, fr, st, ins, addr, ty, tag):
        addr = self.res(st, addr)
        c, its = parts(addr)
        if any(x[0] == 's' and x[2] == '@ctype' for x, k in its):
            its = [(x, k) for x, k in its if x[2] != '@ctype']
            if not its:
                return C(CLASS.get(c // 2, 0))
            if len(its) == 1 and its[0][1] == 2 and its[0][0] in self.h.text and c % 2 == 0:
                t = ('op', 'ctype', add(its[0][0], C(c // 2)))
                self.rng[t] = (0, 65535)
                return t
        v = super().load(fr, st, ins, addr, ty, tag)
        if v in self.h.text:
            m = self.chars(st, v)
            if m and not m & (m - 1):
                return C(values(m)[0])
        return v


class ScanHooks(ParseHooks):
    engine = Chars
    n = 0

    def setup(self, e, st, sets):
        self.body = tok(e, 'text')
        self.text = {}
        self.init = {}
        for k, s in enumerate(sets):
            a = ('m', add(self.body, C(k)), 0, 1, 'i')
            e.rng[a] = (-128, 127)
            self.text[a] = k
            self.init[a] = s
        self.n = len(sets)
        self.over, self.wild = [], []
        st.mem[add(self.body, C(self.n))] = (ZERO, 1, ('elem', 'char'))     # R05: a source has an end of its own

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        if n == 'Source_GetBody':
            return [(st, self.body)]
        if n == 'Source_GetSize':
            return [(st, C(self.n))]
        if n == '__ctype_b_loc':
            a, b = tok(e, 'ctypep'), tok(e, 'ctype')
            st.mem[a] = (b, 8, ('elem', 'ptr'))
            return [(st, a)]
        if n in CTYPE:
            if isc(R[0]):
                return [(st, C(CLASS.get(R[0][1], 0) & CTYPE[n]))]
            if R[0] in self.text:
                t = ('op', 'and', ('op', 'ctype', R[0]), C(CTYPE[n]))
                e.rng[t] = (0, 65535)
                return [(st, t)]
        if n in ('strncmp', 'memcmp', 'bcmp') and len(R) > 2 and isc(R[2]):
            r = self.compare(e, fr, st, ins, n, R)
            if r is not None:
                return r
        return super().on_call(e, fr, st, ins, f, args)

    def compare(self, e, fr, st, ins, n, R):
        """against a known text"""
        for x, y in ((R[0], R[1]), (R[1], R[0])):
            t = e.p.cstr(x) if x[0] in ('g', 'lin') else None
            if t is None or root(y) != self.body:
                continue
            d = sub(y, self.body)
            if not isc(d):
                return None
            want = [ord(c) for c in t][:R[2][1]]
            if len(want) < R[2][1]:
                want.append(0)
            no = st.clone()
            out = []
            if d[1] + len(want) > self.n + 1:
                self.beyond(st)
            if all(e.assume(st, ('eq', sub(self.char(d[1] + k), C(c))), True) for k, c in enumerate(want)):
                out.append((st, ZERO))
            if len(want) == 1 or True:
                self.note(no, 'unlike', d[1], tuple(want))
                if not all(e.truth(no, ('eq', sub(self.char(d[1] + k), C(c)))) for k, c in enumerate(want)):
                    v = e.sym(fr, no, ins, ins.ty)
                    e.assume(no, ('ne', v), True)
                    out.append((no, v))
            return out
        return None

    def char(self, k):
        return ('m', add(self.body, C(k)), 0, 1, 'i')

    def on_load(self, e, fr, st, ins, addr, size):
        a = e.res(st, addr)
        if root(a) == self.body:
            d = sub(a, self.body)
            if isc(d) and not 0 <= d[1] <= self.n:
                self.beyond(st)

    def beyond(self, st):
        if not self.over:
            self.over.append(st.clone())


WORDS = {'if': 'TKWIF', 'fun': 'TKWFUN', 'not': 'TKWNOT', 'and': 'TKWAND', 'or': 'TKWOR', 'else': 'TKWELSE', 'none': 'TKWNONE', 'true': 'TKWTRUE',
         'false': 'TKWFALSE', 'return': 'TKWRETURN', 'while': 'TKWWHILE', 'break': 'TKWBREAK', 'do': 'TKWDO'}
OPERS = {'==': 'TEQL', '!=': 'TNQL', '<=': 'TLEQ', '>=': 'TGEQ', '->': 'TARW'}
for o in '+-*/<>=,|%':
    OPERS[o] = o
letter = mask(lambda v: CLASS[v] & AL or v == 95)
digit = mask(lambda v: CLASS[v] & DI)
alnum = letter | digit
space = mask(lambda v: CLASS[v] & SP)
oper = mask(lambda v: 0 <= v and chr(v) in '+-*/<>!=,|%')


def is1(*cs):
    return mask(lambda v: v in [ord(c) for c in cs])


class Ask(Exception):
    pass


class Lexer:
    """the tokens of a text of which sets of characters are known"""
    def __init__(self, sets, unlike):
        self.s, self.unlike = sets, unlike
        self.n = len(sets)

    def test(self, k, m):
        s = self.s[k]
        if not s & ~m:
            return True
        if not s & m:
            return False
        raise Ask(k, m)

    def one_of(self, at, words):
        """which of the words of its length is there?"""
        for w in words:
            ms = [is1(c) for c in w]
            if any(not self.s[at + k] & m for k, m in enumerate(ms)):
                continue
            if all(self.s[at + k] == m for k, m in enumerate(ms)):
                return w
            if (at, tuple(ord(c) for c in w)) in self.unlike or any(a == at and tuple(t[:len(w)]) == tuple(ord(c) for c in w) and len(t) <= len(w) for a, t in self.unlike):
                continue
            for k, m in enumerate(ms):
                if self.s[at + k] != m:
                    raise Ask(at + k, m)
        return None

    def run(self):
        i, out, n = 0, [], self.n
        while True:
            while i < n:
                if self.test(i, space):
                    i += 1
                elif self.test(i, is1('#')):
                    i += 1
                    while i < n and not self.test(i, is1('\n')):
                        i += 1
                else:
                    break
            if i == n:
                out.append(('TDONE', i, 0))
                return out
            b = i
            if self.test(i, letter):
                while i < n and self.test(i, alnum):
                    i += 1
                w = self.one_of(b, [w for w in WORDS if len(w) == i - b])
                out.append((WORDS[w] if w else 'TIDENT', b, i - b))
            elif self.test(i, digit):
                k = 'TINT'
                while i < n and self.test(i, digit):
                    i += 1
                if i + 1 < n and self.test(i, is1('.')) and self.test(i + 1, digit):
                    i += 1
                    k = 'TFLOAT'
                    while i < n and self.test(i, digit):
                        i += 1
                out.append((k, b, i - b))
            elif self.test(i, is1('"', "'")):
                q = is1('"') if self.test(i, is1('"')) else is1("'")
                i += 1
                while i < n and not self.test(i, q):
                    if self.test(i, is1('\\')):
                        i += 1
                        if i < n and self.test(i, is1('"', "'", '\\')):
                            i += 1
                    else:
                        i += 1
                if i >= n:
                    return None
                i += 1
                out.append(('TSTRING', b, i - b))
            elif self.test(i, oper):
                while i < n and self.test(i, oper):
                    i += 1
                w = self.one_of(b, [w for w in OPERS if len(w) == i - b])
                if w:
                    out.append((OPERS[w], b, i - b))
                else:
                    i = b + 1
                    out.append((('char', b), b, 1))
            else:
                out.append((('char', b), b, 1))
                i += 1


def expected(sets, unlike, depth=0):
    """[(sets, tokens)] for the parts of the characters the tokens depend on"""
    try:
        return [(sets, Lexer(sets, unlike).run())]
    except Ask as x:
        k, m = x.args
        out = []
        for y in (sets[k] & m, sets[k] & ~m & ALL):
            s = list(sets)
            s[k] = y
            out += expected(s, unlike, depth + 1)
        return out


def text_of_sets(sets):
    return ' '.join((lambda v: repr(chr(v[0])) if len(v) == 1 and v[0] >= 0 else '{%d}' % len(v))(values(s)) for s in sets)


def scan(w, ob, res, sets, tag):
    """tokenize, on texts whose characters are in the sets"""
    s = F(w, ob, res, 'scanner')
    f = w.p.fn('tokenize')
    if f is None:
        res.note('tokenize is gone: not decided')
        return
    lay = Lay(w)

    def pre(m, st):
        m.h.cur = ('c', -1)
        m.h.done = enum(w, 'TDONE')
        m.h.setup(m.e, st, sets)
        m.lay = lay
    m = Parsed(w, ob, f, None, ['source', 'alloc', 'error', 'error_offset'], pre=pre, hooks=ScanHooks, turns=len(sets) + 40)
    res.count('texts')
    res.count('paths', len(m.paths))
    if m.undecided:
        res.note('tokenize, %s: %s: not decided' % (tag, m.undecided))
    for st in m.h.over:
        s.bad(m, Path(m, st, None), 'beyond', 'something beyond the end of the source is looked at')
    for p in m.paths:
        if p.failed:
            continue
        have = [m.e.chars(p.st, m.h.char(k)) for k in range(len(sets))]
        if not all(have):
            continue
        unlike = {x[1:] for x in p.ev if x[0] == 'unlike'}
        if any(all(have[a + k] == is1(chr(c)) for k, c in enumerate(t) if c) and len(t) + a <= len(sets) for a, t in unlike):
            continue
        res.count('outcomes')
        for part, want in expected(have, unlike):
            res.count('cases')
            one_text(s, m, p, lay, part, want)


def one_text(s, m, p, lay, sets, want):
    what = text_of_sets(sets)
    if want is None:
        if p.ret != ZERO:
            s.bad(m, p, 'unterminated', 'a string without an end is accepted (%s)' % what)
        return
    if p.ret == ZERO:
        s.bad(m, p, 'refused', 'a source that can be split into tokens is refused (%s)' % what)
        return
    a, prev = p.res(p.ret), ZERO
    T = lay.T
    for k, (kind, off, size) in enumerate(want):
        if a == ZERO or a is None:
            s.bad(m, p, 'missing', 'a token is missing (%s)' % what)
            return
        got = {n: p.cell(add(a, C(T[n][0]))) for n in ('kind', 'offset', 'length', 'next', 'prev')}
        if None in got.values():
            s.bad(m, p, 'unset', 'the %s of a token is not set' % [n for n in got if got[n] is None][0])
            return
        if False in got.values():
            s.res.note('tokenize: what a token holds is not known')
            return
        b, z = got['offset'], got['length']
        if p.differ(b, C(off)) or p.differ(z, C(size)):
            s.bad(m, p, 'extent', 'a token starts or ends elsewhere (%s)' % what)
            return
        kk = C(lay.kind(kind)) if not isinstance(kind, tuple) else None
        g = p.res(got['kind'])
        if kk is None:
            c = m.h.char(kind[1])
            vs = values(sets[kind[1]])
            if g == p.res(c) or isc(g) and vs == [g[1]]:
                pass
            elif not isc(g) or vs and g[1] not in vs or len(vs) > 1:
                s.bad(m, p, 'kind', 'a token of one character is not of the kind of that character (%s)' % what)
                return
        else:
            if not isc(g):
                at = [x for x in atoms(g) | {g} if x in m.h.text]
                vs = {ev(g, x, v) for x in at[:1] for v in values(sets[m.h.text[x]])} if at else set()
                g = C(vs.pop()) if len(vs) == 1 and None not in vs else g
            if not isc(g) or g != kk:
                s.bad(m, p, 'kind', 'a token is of another kind than what is written (%s)' % what)
                return
        if p.differ(got['prev'], prev):
            s.bad(m, p, 'prev', 'a token is not linked to the one before it (%s)' % what)
            return
        prev, a = a, p.res(got['next'])
    if p.differ(a, ZERO):
        s.bad(m, p, 'more', 'there are more tokens than are written (%s)' % what)


def firsts():
    return {'letter': letter, 'digit': digit, 'space': space, 'hash': is1('#'), 'dq': is1('"'), 'sq': is1("'"), 'other': ALL & ~(letter | digit | space | oper | is1('#', '"', "'")),
            **{'op' + chr(v): 1 << (v + 128) for v in values(oper)}}


few = letter | digit | is1(' ', '+', '"', ';')


def templates(tier):
    out = {'empty': [], 'one': [ALL]}
    for n, m in firsts().items():
        out['two:' + n] = [m, ALL]
    for n in ('letter', 'digit', 'space', 'hash', 'dq', 'sq', 'other'):
        out['three:' + n] = [firsts()[n], ALL, ALL]
    for v in values(oper):
        out['three:op' + chr(v)] = [1 << (v + 128), oper | is1(' ', 'a', '1', '"'), oper | is1(' ', 'a', ';')]
    for k in WORDS:
        out['word:' + k] = [is1(c) for c in k] + [ALL]
        out['word2:' + k] = [alnum] + [is1(c) for c in k]
    out['float'] = [digit, is1('.'), digit, ALL, ALL]
    out['float2'] = [digit, digit, ALL, digit, ALL]
    out['dots'] = [digit, is1('.'), ALL, digit]
    out['string'] = [is1('"'), ALL, ALL, ALL]
    out['string2'] = [is1("'"), is1('\\'), ALL, is1("'"), ALL]
    out['string3'] = [is1('"'), is1('\\'), is1('\\'), ALL, is1('"')]
    out['string4'] = [is1('"'), is1("'"), ALL, is1('"'), ALL]
    out['comment'] = [is1('#'), ALL, is1('\n'), ALL]
    out['comment2'] = [space, is1('#'), is1('\n'), is1('#'), ALL, ALL]
    if tier == 'thorough':
        for v in values(oper):
            out['three:any' + chr(v)] = [1 << (v + 128), ALL, ALL]
        for n in ('letter', 'digit', 'dq', 'sq'):
            out['four:' + n] = [firsts()[n], few, few, ALL]
        quoted = is1('"', "'", '\\', 'n')
        out['string5'] = [is1('"'), quoted, quoted, quoted, quoted, is1('"', ';')]
        out['string6'] = [is1("'"), quoted, quoted, quoted, quoted, is1("'", ';')]
    return out


def sjob(x):
    w, ob, tag, sets = x
    res = Result()
    scan(w, ob, res, sets, tag)
    return res


def tokens(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    for r in pmap(sjob, [(w, ob, n, s) for n, s in templates(tier).items()]):
        res.merge(r)
    res.need('texts', 50)
    res.need('cases', 1000)
    return res


# ------------------------------------------------------------------ literals

ESC = {'"': '"', 'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', "'": "'"}


class TextHooks(ScanHooks):
    """the inside of a string, between its quotes"""
    def on_store(self, e, fr, st, ins, addr, val, size):
        super().on_store(e, fr, st, ins, addr, val, size)
        a = e.res(st, addr)
        r = root(a)
        if r is not None and r[0] == 'loc' and size == 1:
            self.note(st, 'store', a, e.res(st, val), size)


def bytes_at(p, base, n, upto=None):
    """the n bytes at an address, from what was stored and copied there: terms, None where that is not known"""
    out = [None] * n
    evs = p.ev if upto is None else p.ev[:upto]
    for k, x in enumerate(evs):
        if x[0] == 'store' and x[3] == 1 and root(x[1]) == root(base):
            d = p.res(sub(x[1], base))
            if isc(d) and 0 <= d[1] < n:
                out[d[1]] = x[2]
        elif x[0] == 'copy' and root(x[1]) == root(base):
            d, z = p.res(sub(x[1], base)), p.res(x[3])
            if not isc(d) or not isc(z):
                return None
            src = bytes_at(p, x[2], z[1], k) if root(x[2])[0] in ('loc', 'alloc') else [p.res(('m', p.res(add(x[2], C(j))), 0, 1, 'i')) for j in range(z[1])]
            if src is None:
                return None
            for j in range(z[1]):
                if 0 <= d[1] + j < n:
                    out[d[1] + j] = src[j]
    return out


def decode(sets):
    """[(sets, bytes)]: index of the character or its code; None: not a string"""
    def one(s):
        i, out = 0, []
        while i < len(s):
            b = is1('\\')
            if s[i] == b:
                i += 1
                if i == len(s):
                    return 'end'
                for c, v in ESC.items():
                    if s[i] == is1(c):
                        out.append(ord(v))
                        break
                    if s[i] & is1(c):
                        raise Ask(i, is1(c))
                else:
                    return None
                i += 1
            elif s[i] & b:
                raise Ask(i, b)
            else:
                out.append(('char', i))
                i += 1
        return out
    try:
        return [(sets, one(sets))]
    except Ask as x:
        k, m = x.args
        out = []
        for y in (sets[k] & m, sets[k] & ~m & ALL):
            s = list(sets)
            s[k] = y
            out += decode(s)
        return out


class TokenText(TextHooks):
    """what is read is inside of the token, what is written inside of the local buffer"""
    def on_load(self, e, fr, st, ins, addr, size):
        a = e.res(st, addr)
        if root(a) == self.body:
            d = sub(a, self.body)
            if isc(d) and not -1 <= d[1] <= self.n:
                self.beyond(st)

    def room(self, e, fr, st, a, n):
        a, n = e.res(st, a), e.res(st, n)
        r = root(a)
        if r is None or r[0] != 'loc' or self.wild or not isc(n):
            return
        from trace import local_size
        while fr.parent and fr.act != r[1]:
            fr = fr.parent
        size = local_size(self.w, fr.fn, r)
        d = sub(a, r)
        if size and isc(d) and not 0 <= d[1] <= size - n[1]:
            self.wild.append(st.clone())

    def on_store(self, e, fr, st, ins, addr, val, size):
        super().on_store(e, fr, st, ins, addr, val, size)
        self.room(e, fr, st, addr, C(size))

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        if (n or '').startswith(('memcpy', 'llvm.memcpy', 'memmove', 'llvm.memmove', '__memcpy_chk')):
            self.room(e, fr, st, args[0], args[2])
        return super().on_call(e, fr, st, ins, f, args)


def literal(w, ob, res, sets):
    s = F(w, ob, res, 'literals')
    f = w.p.fn('parse_string_primary_expression')
    if f is None:
        res.note('parse_string_primary_expression is gone: not decided')
        return
    n = len(sets)

    def pre(m, st):
        prepare(m, st)
        e, T = m.e, m.lay.T
        m.h.setup(e, st, sets)
        first(m, st)
        st.mem[add(m.a['ctx'], C(m.lay.X['src'][0]))] = (add(m.h.body, C(-1)), 8, ('struct.Context', 0))
        st.mem[add(m.t0, C(T['offset'][0]))] = (ZERO, 4, ('struct.Token', T['offset'][1]))
        st.mem[add(m.t0, C(T['length'][0]))] = (C(n + 2), 4, ('struct.Token', T['length'][1]))
        for k in (-1, n):
            st.mem[add(m.h.body, C(k))] = (C(34), 1, ('raw',))
    first = lambda m, st: m.e.assume(st, ('eq', sub(m.h.kind_of(m.t0), C(m.lay.kind('TSTRING')))), True)

    m = Parsed(w, ob, f, None, ['ctx'], pre=pre, hooks=TokenText, turns=n + 3)
    res.count('texts')
    res.count('paths', len(m.paths))
    if m.undecided:
        res.note('%s: %s: not decided' % (f.name, m.undecided))
    for st in m.h.over:
        s.bad(m, Path(m, st, None), 'beyond', 'characters outside of a string are looked at')
    for st in m.h.wild:
        s.bad(m, Path(m, st, None), 'over', 'a string may be written beyond the memory for it (%d characters)' % n)
    for st, R, sure in m.h.aborts:
        if sure:
            s.bad(m, Path(m, st, None), 'aborts', 'a string of %d characters makes the parser abort' % n)
    if n > 99:
        res.count('long texts')
        return
    for p in m.paths:
        if p.failed:
            continue
        have = [m.e.chars(p.st, m.h.char(k)) for k in range(n)]
        if not all(have):
            continue
        res.count('outcomes')
        for part, want in decode(have):
            if want == 'end':
                continue
            res.count('cases')
            what = text_of_sets(part)
            if want is None:
                if p.ret != ZERO:
                    s.bad(m, p, 'escape', 'an escape sequence there is not is accepted (%s)' % what)
                continue
            if p.ret == ZERO:
                s.bad(m, p, 'refused', 'a string is refused (%s)' % what)
                continue
            o, z = m.lay.at('StringExprNode', 'val')
            val = p.cell(add(p.ret, C(o)))
            lo, lz = m.lay.at('StringExprNode', 'len')
            size = p.cell(add(p.ret, C(lo)))
            ko, kz = m.lay.at('StringExprNode', 'base.kind')
            if p.cell(add(p.ret, C(ko))) != C(enum(w, 'EXPR_STRING')):
                s.bad(m, p, 'kind', 'a string is something else (%s)' % what)
            if not val or not size:
                s.res.note('%s: what the node holds is not known' % f.name)
                continue
            if p.differ(size, C(len(want))):
                s.bad(m, p, 'length', 'a string has another number of characters than written (%s)' % what)
                continue
            al = [x for x in p.kind('alloc') if p.same(x[3], val)]
            if not al or p.may(('le', sub(al[0][2], C(len(want))))):
                s.bad(m, p, 'room', 'there is no room for the end of a string (%s)' % what)
            got = bytes_at(p, val, len(want) + 1)
            if got is None:
                s.res.note('%s: the characters are not known' % f.name)
                continue
            for k, y in enumerate(want + [0]):
                g = got[k]
                if g is None:
                    s.bad(m, p, 'unset', 'a character of a string is not set (%s)' % what)
                    break
                y = C(y) if isinstance(y, int) else m.h.char(y[1])
                vs = values(part[y2]) if y[0] == 'm' and (y2 := m.h.text[y]) is not None else None
                if p.differ(g, y) and not (vs and len(vs) == 1 and g == C(vs[0])):
                    s.bad(m, p, 'char', 'a character of a string is another than written (%s)' % what)
                    break


def bounded(w, ob, res):
    """texts of any length: the buffers they are put together in are never overrun"""
    s = F(w, ob, res, 'literals')
    for fname, turns in (('parse_primary_expresion', 3),):
        f = w.p.fn(fname)
        if f is None:
            res.note('%s is gone: not decided' % fname)
            continue
        m = Parsed(w, ob, f, None, ['ctx'], pre=prepare, hooks=Loc, turns=turns)
        res.count('functions')
        res.count('paths', len(m.paths))
        if m.undecided:
            res.note('%s: %s: not decided' % (fname, m.undecided))
        for p in m.paths:
            for x in p.ev:
                if x[0] != 'over':
                    continue
                res.count('accesses')
                if x[1] is not None:
                    s.bad(m, p, 'over', 'a text may be written beyond the memory for it')


class Loc(ParseHooks):
    """what is written to local arrays stays inside"""
    def inside(self, e, fr, st, a, n):
        a = e.res(st, a)
        r = root(a)
        if r is None or r[0] != 'loc':
            return
        from trace import local_size
        size = local_size(self.w, fr.fn, r)
        if not size or size < 16:
            return
        d = sub(a, r)
        bad = False
        for b in (('le', add(d, ONE)), ('le', sub(C(size + 1), add(d, n)))):
            t = e.truth(st, b)
            if t is False:
                continue
            s = st.clone()
            if e.assume(s, b, True) and not any(x[0] in ('h', 'op') for x in atoms(d) | atoms(n)):
                bad = True
        self.note(st, 'over', e.p.size(('int', 8)) if bad else None)

    def on_store(self, e, fr, st, ins, addr, val, size):
        super().on_store(e, fr, st, ins, addr, val, size)
        if size == 1:
            self.inside(e, fr, st, addr, ONE)

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        if (n or '').startswith(('memcpy', 'llvm.memcpy', 'memmove', 'llvm.memmove', '__memcpy_chk')) and fr.depth == 0:
            self.inside(e, fr, st, args[0], e.res(st, args[2]))
        return super().on_call(e, fr, st, ins, f, args)


def ljob(x):
    w, ob, what, arg, tier = x
    res = Result()
    if what == 'string':
        literal(w, ob, res, arg)
    elif what == 'bounded':
        bounded(w, ob, res)
    else:
        for k in ('TINT', 'TFLOAT', 'TKWNONE', 'TKWTRUE', 'TKWFALSE', 'TIDENT', 'TSTRING'):
            m, s = one(w, ob, res, 'parse_primary_expresion', 2, fix=first(k))
            if m is not None:
                res.count('constructs', len(check(s, m, primary)))
    return res


def literals(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    esc = is1('\\', '"', "'", 'n', 't', 'r', 'a', '0')
    js = [('string', [ALL] * n) for n in range(4)] + [('bounded', None), ('values', None), ('string', [is1('\\'), ALL, ALL, ALL]), ('string', [ALL, ALL, is1('\\'), ALL])]
    x = [is1('x')]
    js += [('string', x * k) for k in (4094, 4095, 4096, 4200)] + [('string', x * k + [is1('\\'), is1('n')] + x * j) for k, j in ((4093, 0), (4094, 0), (4095, 0), (4093, 1), (4093, 2), (0, 4095))]
    if tier == 'thorough':
        js += [('string', x * k + [is1('\\'), is1('"')]) for k in (4092, 4096, 4097)]
        js += [('string', [ALL] * 4), ('string', [esc] * 5)]
    for r in pmap(ljob, [(w, ob, a, b, tier) for a, b in js]):
        res.merge(r)
    res.need('texts', 4)
    res.need('cases', 60)
    res.need('constructs', 5)
    return res

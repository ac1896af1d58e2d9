"""A01, A02: what the assembler makes of its source."""
from scanning import *
from instrs import InstrTable

REC = ('LabelList_Free', 'BPAlloc_Free', 'ExeBuilder_Finalize', 'Executable_SetSource', 'LabelList_GetUnresolvedCount', 'ExeBuilder_InstrCount')
NULLS = ('BPAlloc_Init', 'LabelList_New', 'ExeBuilder_New', 'LabelList_GetLabel')
MAXOPS = 8
LLMAX = 2 ** 63 - 1


class AsmHooks(TokenText):
    def other(self, e, fr, st, ins, f, n, R):
        if n == 'LabelList_GetUnresolvedCount':
            v = ('s', 0, 'unresolved', (), '', 'i')
            e.rng[v] = (0, 2 ** 30)
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n == 'ExeBuilder_InstrCount':
            v = ('s', 0, 'count %d' % len([x for x in st.prop if x[0] == 'call']), (), '', 'i')
            e.rng[v] = (0, 2 ** 30)
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        return super().other(e, fr, st, ins, f, n, R)

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        if n in NULLS:
            bad = st.clone()
            self.note(bad, 'call', n, R, ZERO)
            self.note(bad, 'failed')
            v = tok(e, '%s %d' % (n, len([x for x in st.prop if x[0] == 'call'])))
            self.note(st, 'call', n, R, v)
            return [(st, v), (bad, ZERO)]
        if n == 'LabelList_SetLabel':
            bad = st.clone()
            self.note(bad, 'call', n, R, ZERO)
            self.note(bad, 'failed')
            self.note(st, 'call', n, R, ONE)
            return [(st, ONE), (bad, ZERO)]
        if n == 'Executable_GetOpcodeBinaryFromName':
            bad = st.clone()
            self.note(bad, 'call', n, R, ZERO)
            self.note(bad, 'failed')
            v = ('s', 0, 'opcode %d' % len([x for x in st.prop if x[0] == 'call']), (), '', 'i')
            e.rng[v] = (0, 255)
            if R[2] != ZERO:
                e.put(fr, st, ins, R[2], v, 4, ('elem', 'int'))
            self.note(st, 'call', n, R, v)
            return [(st, ONE), (bad, ZERO)]
        if n == 'ExeBuilder_Append':
            ops = []
            L = self.ops
            if isc(R[4]):
                for k in range(R[4][1]):
                    b = add(R[3], C(L.op_size * k))
                    t, v = st.mem.get(e.res(st, add(b, C(L.op_type)))), st.mem.get(e.res(st, add(b, C(L.op_val))))
                    ops.append((e.res(st, t[0]) if t else None, e.res(st, v[0]) if v else None))
            self.note(st, 'append', tuple(x for t in ops for x in (t[0] or ('c', -1), t[1] or ('c', -1))), tuple(t[1] is not None and t[0] is not None for t in ops))
            bad = st.clone()
            self.note(bad, 'call', n, R, ZERO)
            self.fail(e, fr, bad, ins, R[1])
            self.note(st, 'call', n, R, ONE)
            return [(st, ONE), (bad, ZERO)]
        return super().on_call(e, fr, st, ins, f, args)


def number(t, p, at, sign):
    return None


class Asm:
    """the instructions of a text of which sets of characters are known; None: it is not a source"""
    def __init__(self, sets):
        self.s, self.n, self.i = sets, len(sets), 0

    def test(self, m, k=None):
        k = self.i if k is None else k
        s = self.s[k]
        if not s & ~m:
            return True
        if not s & m:
            return False
        raise Ask(k, m)

    def spaces(self):
        while self.i < self.n and self.test(space):
            self.i += 1

    def word(self):
        b = self.i
        while self.i < self.n and self.test(alnum):
            self.i += 1
        return b, self.i - b

    def run(self):
        out = []
        while True:
            self.spaces()
            if self.i == self.n:
                return out
            if not self.test(letter):
                return None
            label, op = None, self.word()
            self.spaces()
            if self.i < self.n and self.test(is1(':')):
                self.i += 1
                self.spaces()
                if self.i == self.n or not self.test(letter):
                    return None
                label, op = op, self.word()
                self.spaces()
            ops = []
            if self.i < self.n and not self.test(is1(';')):
                while True:
                    o = self.operand()
                    if o is None or len(ops) == MAXOPS:
                        return None
                    ops.append(o)
                    self.spaces()
                    if self.i == self.n or self.test(is1(';')):
                        break
                    if not self.test(is1(',')):
                        return None
                    self.i += 1
                    self.spaces()
                    if self.i == self.n:
                        return None
            if self.i < self.n:
                self.i += 1
            out.append((label, op, ops))

    def operand(self):
        if self.test(is1('"')):
            self.i += 1
            text = []
            while True:
                if self.i == self.n:
                    return None
                if self.test(is1('"')):
                    break
                if self.test(is1('\\')):
                    self.i += 1
                    if self.i == self.n:
                        return None
                    for c, v in ESC_ASM.items():
                        if self.test(is1(c)):
                            text.append(ord(v))
                            break
                    else:
                        return None
                else:
                    text.append(('char', self.i))
                self.i += 1
            self.i += 1
            if len(text) > 1024:
                return None
            return ('string', text)
        if self.test(digit | is1('+', '-')):
            sign = 1
            if self.test(is1('+', '-')):
                sign = 1 if self.test(is1('+')) else -1
                self.i += 1
                if self.i == self.n or not self.test(digit):
                    return None
            b = self.i
            while self.i < self.n and self.test(digit):
                self.i += 1
            whole = list(range(b, self.i))
            if self.i + 1 < self.n and self.test(is1('.')) and self.test(digit, self.i + 1):
                self.i += 1
                b = self.i
                while self.i < self.n and self.test(digit):
                    self.i += 1
                return ('float', sign, whole, list(range(b, self.i)))
            if len(whole) > 18:
                v = 0
                for k in whole:
                    x = values(self.s[k])
                    if len(x) > 1:
                        raise Ask(k, 1 << (x[0] + 128))
                    v = 10 * v + x[0] - 48
                if v > LLMAX:
                    return None
            return ('int', sign, whole)
        if self.test(letter):
            return ('label',) + self.word()
        return None


ESC_ASM = {}


def escapes(w):
    """as in the language"""
    ESC_ASM.update({'n': '\n', 't': '\t', 'r': '\r', '"': '"', '\\': '\\'})


def assembled(sets):
    try:
        return [(sets, Asm(sets).run())]
    except Ask as x:
        k, m = x.args
        out = []
        for y in (sets[k] & m, sets[k] & ~m & ALL):
            s = list(sets)
            s[k] = y
            out += assembled(s)
        return out


def assembly(w, ob, res, tag, sets, table):
    s = F(w, ob, res, 'assembler')
    f = w.p.fn('assemble')
    if f is None:
        raise Broken('assemble is gone')

    def pre(m, st):
        m.h.cur = ('c', -1)
        m.h.done = -1
        m.h.ops = table
        m.h.setup(m.e, st, sets)
        m.lay = None
    m = Parsed(w, ob, f, None, ['src', 'error', 'error_offset'], pre=pre, hooks=AsmHooks, turns=len(sets) + 4, record=REC, free=True)
    res.count('texts')
    res.count('paths', len(m.paths))
    if m.undecided:
        res.note('assemble, %s: %s: not decided' % (tag, m.undecided))
    for st in m.h.over:
        s.bad(m, Path(m, st, None), 'beyond', 'something beyond the end of the source is looked at')
    for st in m.h.wild:
        s.bad(m, Path(m, st, None), 'over', 'a string is written beyond the memory for it (%s)' % tag)
    m.all = [(p, [m.e.chars(p.st, m.h.char(k)) for k in range(len(sets))]) for p in m.paths]
    for p, have in m.all:
        if not all(have):
            continue
        res.count('outcomes')
        cleanup(s, m, p)
        if p.ret == ZERO:
            at = p.cell(m['error_offset'])
            if at is None:
                s.bad(m, p, 'offset', 'a source is refused without saying where')
            elif at is not False:
                res.count('places of errors')
                if p.true(('le', sub(C(-1), at))) is False or p.true(('le', sub(at, C(len(sets))))) is False:
                    s.bad(m, p, 'offset', 'a source is refused at a place that is not in it')
        if p.failed:
            if p.ret != ZERO:
                s.bad(m, p, 'failed', 'an assembly that failed gives a program')
            continue
        for part, want in assembled(have):
            res.count('cases')
            one_program(s, m, p, table, part, want)


def cleanup(s, m, p):
    a = p.calls('BPAlloc_Init')
    fr = p.calls('BPAlloc_Free')
    if len(a) == 1 and a[0][3] != ZERO:
        if len(fr) != 1 or p.differ(fr[0][2][0], a[0][3]):
            s.bad(m, p, 'release', 'the memory of the assembler is not released once')
        else:
            at = p.ev.index(fr[0])
            for x in p.ev[at + 1:]:
                if x[0] == 'call' and x[1] in ('LabelList_Free', 'ExeBuilder_Finalize', 'LabelList_GetUnresolvedCount', 'BPAlloc_Malloc'):
                    s.bad(m, p, 'after', 'the memory of the assembler is used after it was released')


def other(m, p, sets):
    """is there a path on the same text that ends otherwise?  then the analysis has lost what tells them apart"""
    for q, have in m.all:
        if q is p or q.failed or (q.ret == ZERO) == (p.ret == ZERO) or not all(a & b for a, b in zip(have, sets)):
            continue
        un = q.calls('LabelList_GetUnresolvedCount')
        if q.ret == ZERO and un and q.true(('ne', un[-1][3])) is True:
            continue
        return True
    return False


def one_program(s, m, p, table, sets, want):
    what = text_of_sets(sets)
    def bad(key, text):
        s.bad(m, p, key, '%s (%s)' % (text, what))
    un = p.calls('LabelList_GetUnresolvedCount')
    if want is None:
        if p.ret != ZERO and other(m, p, sets):
            s.res.note('assemble: whether %s is accepted is not decided' % what)
        elif p.ret != ZERO:
            bad('accepted', 'a text that is not assembly is accepted')
        return
    if p.ret == ZERO:
        if un and p.true(('ne', un[-1][3])) is True:
            return
        if other(m, p, sets):
            s.res.note('assemble: whether %s is accepted is not decided' % what)
            return
        bad('refused', 'a text that is assembly is refused')
        return
    s.res.count('programs')
    ev = list(p.ev)
    if not un or p.true(('eq', un[-1][3])) is not True:
        bad('unresolved', 'a program with labels that are nowhere is accepted')
    ap = [x for x in p.calls('ExeBuilder_Append')]
    last = max([ev.index(x) for x in ev if x[0] == 'call' and x[1] in ('ExeBuilder_Append', 'LabelList_GetLabel', 'LabelList_SetLabel')], default=-1)
    if un and ev.index(un[-1]) < last:
        bad('unresolved', 'labels are looked for before the program is complete')
    fi = p.calls('ExeBuilder_Finalize')
    bu = p.calls('ExeBuilder_New')
    if len(fi) != 1 or p.differ(fi[0][2][0], bu[0][3]) or p.differ(p.ret, fi[0][3]) or ev.index(fi[0]) < last:
        bad('final', 'the program given back is not the one that was built')
        return
    se = p.calls('Executable_SetSource')
    if len(se) != 1 or p.differ(se[0][2][0], p.ret) or p.differ(se[0][2][1], m['src']):
        bad('source', 'a program does not know its source')
    if len(ap) != len(want):
        bad('count', '%d instructions are made of %d' % (len(ap), len(want)))
        return
    body = m.h.body
    lb = [(k, w_[0]) for k, w_ in enumerate(want) if w_[0]]
    sl = p.calls('LabelList_SetLabel')
    if len(sl) != len(lb):
        bad('labels', 'a label is not entered')
        return
    for (k, (o, z)), x in zip(lb, sl):
        if p.differ(x[2][1], add(body, C(o))) or p.differ(x[2][2], C(z)):
            bad('label', 'a label is entered by another name')
        c = [(y, sub(p.res(x[2][3]), y[3])) for y in p.calls('ExeBuilder_InstrCount')]
        c = [(y, d[1]) for y, d in c if isc(d)]
        n = len([y for y in ap if ev.index(y) < ev.index(c[0][0])]) + c[0][1] if c else None
        if n is None:
            v = p.res(x[2][3])
            n = v[1] if isc(v) else None
        if n is None:
            s.res.note('assemble: the value of a label is not understood')
        elif n != k:
            bad('where', 'a label is not the place of the instruction after it')
    go = p.calls('Executable_GetOpcodeBinaryFromName')
    if len(go) != len(want):
        bad('opcode', 'an instruction is not looked up')
        return
    snaps = [x for x in ev if x[0] == 'append']
    gl = p.calls('LabelList_GetLabel')
    for k, (label, (o, z), ops) in enumerate(want):
        if p.differ(go[k][2][0], add(body, C(o))) or p.differ(go[k][2][1], C(z)):
            bad('name', 'an instruction is looked up by another name')
        a = ap[k]
        if p.differ(a[2][0], bu[0][3]) or p.differ(a[2][2], go[k][3]):
            bad('opcode', 'an instruction is not the one that was named')
        if p.differ(a[2][5], C(o)) or p.differ(a[2][6], C(z)):
            bad('place', 'an instruction is said to be elsewhere')
        if p.differ(a[2][4], C(len(ops))):
            bad('operands', 'an instruction has another number of operands')
            continue
        vals, known = snaps[k][1], snaps[k][2]
        for j, want_ in enumerate(ops):
            if not known[j]:
                s.res.note('assemble: an operand is not known')
                continue
            operand(s, m, p, table, bad, want_, p.res(vals[2 * j]), p.res(vals[2 * j + 1]), gl, sets)


def operand(s, m, p, table, bad, want, t, v, gl, sets):
    kind = {'string': 'OPTP_STRING', 'int': 'OPTP_INT', 'float': 'OPTP_FLOAT', 'label': 'OPTP_PROMISE'}[want[0]]
    if t != C(table.otype[kind]):
        bad('type', 'an operand is of another type than written')
        return
    s.res.count('operands')
    body = m.h.body
    if kind == 'OPTP_PROMISE':
        g = [x for x in gl if p.same(x[3], v)]
        if not g or p.differ(g[0][2][1], add(body, C(want[1]))) or p.differ(g[0][2][2], C(want[2])):
            bad('jump', 'an operand is not the label that is written')
    elif kind == 'OPTP_INT':
        x = ZERO
        for k in want[2]:
            c = m.h.char(k)
            cs = values(sets[k])
            x = add(scale(x, 10), C(cs[0] - 48) if len(cs) == 1 else add(c, C(-48)))
        x = scale(x, want[1])
        if p.differ(v, x) or isc(v) and isc(x) and v != x:
            bad('int', 'a number is another than written')
        elif not p.same(v, x):
            s.res.note('assemble: the value of a number is not understood')
    elif kind == 'OPTP_FLOAT':
        cs = [values(sets[k]) for k in want[2] + want[3]]
        if all(len(c) == 1 for c in cs):
            x = want[1] * float(''.join(chr(c[0]) for c in cs[:len(want[2])]) + '.' + ''.join(chr(c[0]) for c in cs[len(want[2]):]))
            if v[0] == 'f' and isinstance(v[1], float):
                s.res.count('numbers with a fraction')
                if abs(v[1] - x) > 1e-9 * max(1.0, abs(x)):
                    bad('float', 'a number is another than written')
            else:
                s.res.note('assemble: the value of a number with a fraction is not understood')
    else:
        al = [x for x in p.kind('alloc') if p.same(x[3], v)]
        n = len(want[1])
        if not al:
            s.res.note('assemble: where a string is is not understood')
            return
        if p.may(('le', sub(al[0][2], C(n)))):
            bad('room', 'there is no room for the end of a string')
        got = bytes_at(p, v, n + 1)
        if got is None:
            s.res.note('assemble: the characters of a string are not known')
            return
        for k, y in enumerate(want[1] + [0]):
            if got[k] is None:
                bad('unset', 'a character of a string is not set')
                break
            if isinstance(y, int):
                y = C(y)
            else:
                cs = values(sets[y[1]])
                y = C(cs[0]) if len(cs) == 1 else m.h.char(y[1])
            if p.differ(got[k], y):
                bad('char', 'a character of a string is another than written')
                break


def T(s, **k):
    """a text; the characters in k are sets"""
    return [k.get(c) if c in k else is1(c) for c in s]


def asm_templates(tier):
    out = {'empty': [], 'one': [ALL], 'two': [letter, ALL], 'spaces': T('  ')}
    A = dict(A=ALL)
    for t in ('aA;', 'a A', 'a:A', 'a : A', 'a:b;', 'A:b', 'a;A', 'a ;b;', 'a 1A', 'a 1 A', 'a 1,A', 'a 1,2;', 'a 1 , A;', 'a -A', 'a +1;', 'a -12,3;', 'a D.A;', 'a 1.A;', 'a 12.5;', 'a 1.5', 'a -2.75', 'a 1.', 'a 1.D', 'a -0.25;', 'a +3.125,b;',
              'a "A";', 'a "\\A";', 'a "b\\nc", d;', 'a "" ;', 'a "b', 'a "b\\', 'a "AA"', 'a b,c;d:e f;', 'a:b a;', 'a b;b:c 1;A', 'L1 L2;', 'a bA;', 'a_b 1A', 'a 1,', 'a 1, ', 'a ,', 'a 1;;', 'a:;', 'a::b', ':a', '1a;',
              'a DD;', 'a -DDD;', 'a 1 2', 'a "x"y', 'a "x",1,-2,z,2.5;b'):
        out[t] = T(t, A=ALL, D=digit)
    for n in (7, 8, 9):
        out['%d operands' % n] = T('a ' + ','.join(['1'] * n) + ';')
    for d in ['922337203685477580%d' % k for k in range(10)] + ['9223372036854775799', '10000000000000000000', '92233720368547758070', '9223372036854775810', '1' * 19, '0' * 30 + '7']:
        out['number ' + d] = T('a %s;' % d)
        out['number -' + d] = T('a -%s;' % d)
    for n in (1023, 1024, 1025):
        out['string %d' % n] = T('a "%s";' % ('x' * n))
    for a, b in ((1022, 0), (1023, 0), (1024, 0), (1022, 1), (1023, 1), (1, 1023), (0, 1023), (0, 1024)):
        out['string %d+1+%d' % (a, b)] = T('a "%s\\n%s";' % ('x' * a, 'x' * b))
    if tier == 'thorough':
        some = letter | digit | is1(' ', ',', ';', ':', '"', '-', '.', '\\')
        for n in (3, 4):
            out['some %d' % n] = [letter] + [some] * n
        out['operand 3'] = T('a ') + [some] * 3
        out['string 3'] = T('a "') + [ALL] * 3 + T('"')
    return out


def ajob(x):
    w, ob, tag, sets, table = x
    res = Result()
    escapes(w)
    assembly(w, ob, res, tag, sets, table)
    return res


def assembly_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    table = InstrTable(w)
    table = Pick(table)
    for r in pmap(ajob, [(w, ob, n, s, table) for n, s in asm_templates(tier).items()]):
        res.merge(r)
    res.need('texts', 40)
    res.need('programs', 60)
    res.need('operands', 60)
    return res


class Pick:
    """what is needed of the table"""
    def __init__(self, t):
        self.op_size, self.op_type, self.op_val, self.otype = t.op_size, t.op_type, t.op_val, t.otype


# ---------------------------------------------------------------- names of instructions
class At:
    def __init__(self, e, st):
        self.e, self.st, self.ev = e, st, st.prop

    def res(self, t):
        return self.e.res(self.st, t)


class NameHooks(TokenText):
    past = ()

    def on_load(self, e, fr, st, ins, addr, size):
        a = e.res(st, addr)
        if root(a) == self.body:
            d = sub(a, self.body)
            if isc(d) and not 0 <= d[1] < self.n:
                self.beyond(st)
        r = root(a)
        g = e.p.globals.get(r[1]) if r is not None and r[0] == 'g' else None
        if g is not None and g.init is not None and not self.past:
            d = sub(a, r)
            if isc(d) and not 0 <= d[1] <= e.p.size(g.ty) - size:
                self.past = (st.clone(),)

    def known(self, e, st, x, n):
        """the characters of the string at an address: a list, or None"""
        t = e.p.cstr(x) if x[0] in ('g', 'lin') else None
        if t is not None:
            return [ord(c) for c in t] + [0]
        out = []
        if root(x) is None:
            return None
        if root(x)[0] in ('loc', 'alloc'):
            got = bytes_at(At(e, st), x, n)
        elif root(x) == self.body:
            d = sub(x, self.body)
            if not isc(d):
                return None
            got = [self.char(d[1] + k) if d[1] + k < self.n else None for k in range(n)]
        else:
            return None
        if got is None:
            return None
        for g in got:
            if g is None:
                return out + [None]
            g = e.res(st, g)
            if not isc(g):
                v = values(e.chars(st, g)) if g in self.text else []
                if len(v) != 1:
                    return out + [None]
                g = C(v[0])
            out.append(g[1])
            if not g[1] and root(x) != self.body:
                break
        return out

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        if n in ('strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memcmp', 'bcmp') and (n in ('strcmp', 'strcasecmp') or isc(R[2])):
            z = 300 if n in ('strcmp', 'strcasecmp') else R[2][1]
            x, y = (self.known(e, st, v, min(z, 300)) for v in R[:2])
            if x is not None and y is not None:
                for k in range(z):
                    a, b = (s[k] if k < len(s) else None for s in (x, y))
                    if a is None or b is None:
                        if k >= self.n and root(R[0]) == self.body or k >= self.n and root(R[1]) == self.body:
                            self.beyond(st)
                        break
                    if 'case' in n:
                        a, b = (v + 32 if 65 <= v <= 90 else v for v in (a, b))
                    if a != b:
                        return [(st, C(1 if a > b else -1))]
                    if n[0] == 's' and not a:
                        return [(st, ZERO)]
                else:
                    return [(st, ZERO)]
        if (n or '').startswith(('memcpy', 'llvm.memcpy', 'memmove', 'llvm.memmove')) and root(R[0]) and root(R[0])[0] == 'loc' and isc(R[2]) and R[2][1] <= 300:
            x = self.known(e, st, R[1], R[2][1])
            r = super().on_call(e, fr, st, ins, f, args)
            for k, c in enumerate(x or ()):
                for s_, v in r or [(st, None)]:
                    if c is not None:
                        e.put(fr, s_, ins, add(R[0], C(k)), C(c), 1, ('elem', 'char'))
            return r
        if n == 'strlen':
            x = self.known(e, st, R[0], 300)
            if x and x[-1] == 0:
                return [(st, C(len(x) - 1))]
        return super().on_call(e, fr, st, ins, f, args)


def opcode_named(w, ob, res, name, codes):
    s = F(w, ob, res, 'names of instructions')
    f = w.p.fn('Executable_GetOpcodeBinaryFromName')
    if f is None:
        raise Broken('Executable_GetOpcodeBinaryFromName is gone')

    def pre(m, st):
        m.h.cur = ('c', -1)
        m.h.done = -1
        m.h.setup(m.e, st, [is1(c) for c in name])
        del st.mem[add(m.h.body, C(len(name)))]
        m.body = m.h.body
    m = Named(w, ob, f, None, [('s', 0, '@text', (), '', 'p'), C(len(name)), 'code'], pre=pre, hooks=NameHooks, turns=200, free=True)
    res.count('names')
    if m.undecided:
        res.note('%s, %s: %s: not decided' % (f.name, name[:40], m.undecided))
    for st in m.h.over:
        s.bad(m, Path(m, st, None), 'beyond', 'something beyond the end of a name is looked at')
    for st in m.h.past:
        s.bad(m, Path(m, st, None), 'table', 'the table of the instructions is read beyond its end')
    for st in m.h.wild:
        s.bad(m, Path(m, st, None), 'over', 'a name is written beyond the memory for it (%d characters)' % len(name))
    want = codes.get(name)
    ps = [p for p in m.paths if not p.failed]
    if len({p.true(('eq', p.ret)) for p in ps}) > 1:
        res.note('%s: whether %s is found is not decided' % (f.name, name[:40]))
        return
    for p in ps:
        no = p.true(('eq', p.ret))
        if no is None:
            res.note('%s: whether %s is found is not decided' % (f.name, name[:40]))
            continue
        res.count('answers')
        got = p.cell(m['code'])
        if no and want is not None:
            s.bad(m, p, 'unknown', 'the name %s is not known' % name)
        elif not no and want is None:
            s.bad(m, p, 'accepted', '%s is taken for the name of an instruction' % name[:40])
        elif not no:
            if got is False or got is None:
                s.bad(m, p, 'value', 'the code of %s is not given' % name) if got is None else res.note('%s: the code of %s is not known' % (f.name, name))
            elif p.differ(got, C(want)):
                s.bad(m, p, 'value', 'the code of %s is not that of OPCODE_%s' % (name, name))


class Named(Method):
    pass


def name_of(w, ob, res, name, code):
    s = F(w, ob, res, 'names of instructions')
    f = w.p.fn('Executable_GetOpcodeName')
    if f is None:
        res.note('Executable_GetOpcodeName is gone: not decided')
        return
    m = Method(w, ob, f, None, [C(code)], turns=200, free=True)
    res.count('codes')
    if m.undecided:
        res.note('%s: %s: not decided' % (f.name, m.undecided))
    for p in m.paths:
        r = p.ret
        if r == ZERO:
            s.bad(m, p, 'nameless', 'OPCODE_%s has no name' % name)
            continue
        t = w.p.cstr(r) if r is not None and r[0] in ('g', 'lin') else None
        if t is None:
            res.note('%s: the name of %s is not known' % (f.name, name))
        elif t != name:
            s.bad(m, p, 'name', 'OPCODE_%s is called %s' % (name, t))
        else:
            res.count('names given back')


def njob(x):
    w, ob, kind, name, codes = x
    res = Result()
    if kind == 'of':
        name_of(w, ob, res, name, codes[name])
    else:
        opcode_named(w, ob, res, name, codes)
    return res


def mnemonics_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    vals, groups = w.p.enums()
    if not groups.get('Opcode'):
        raise Broken('the enumeration of the instructions is gone')
    codes = {n[len('OPCODE_'):]: vals[n] for n in groups['Opcode'] if n.startswith('OPCODE_')}
    jobs = [('of', n) for n in codes]
    names = set(codes)
    for n in codes:
        names |= {n + 'X', n[:-1], n[:-1] + ('X' if n[-1] != 'X' else 'Y'), n.lower(), '_' + n[1:]}
        if tier == 'thorough':
            names |= {n[:k] + 'Q' + n[k + 1:] for k in range(len(n))} | {n[:k] + n[k + 1:] for k in range(len(n))} | {n + c for c in 'A0_'} | {n[:k] for k in range(len(n))}
    names |= {'X' * k for k in (1, 8, 126, 127, 128, 129, 255, 256, 1000)}
    jobs += [('code', n) for n in sorted(names)]
    for r in pmap(njob, [(w, ob, k, n, codes) for k, n in jobs]):
        res.merge(r)
    res.need('codes', 20)
    res.need('names given back', 20)
    res.need('answers', 100)
    return res

"""Decides V01 (instruction table), V06 (arithmetic), V07 (comparisons and tests), V08 (data instructions)."""
from vm import *
from core import Result

MIN64 = -2 ** 63
ARITH = ('ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'NEG')
REL = ('LSS', 'GRT', 'LEQ', 'GEQ')
TESTS = REL + ('EQL', 'NQL', 'NOT', 'JUMPIFANDPOP', 'JUMPIFNOTANDPOP')
O = lambda k: tok('o%d' % k)


def runs(row):
    """operand values to look at: mostly unknowns, counts are small numbers"""
    if row.name == 'CALL':
        return [[C(a), C(r)] for a in range(4) for r in range(1, 4)]
    if row.name == 'POP':
        return [[C(n)] for n in range(4)]
    return [[operand(k, 'p' if t == 'OPTP_STRING' else 'f' if t == 'OPTP_FLOAT' else 'i') for k, t in enumerate(row.types)]]


def raw(k, t):
    return ('s', 0, '%s of %r' % (k, t[2]), (), '', {'int': 'i', 'float': 'f', 'bool': 'i'}[k])


def facts(st, ats):
    """is anything known about these values?"""
    for k in list(st.iv) + list(st.ne):
        if any(a in ats for a, _ in k) or any(atoms(a) & ats for a, _ in k):
            return True
    for k in st.tr:
        if atoms(k) & ats:
            return True
    return any(a in ats for a in st.sub)


def unwrap(v):
    while v[0] == 'op' and v[1] in ('trunc', 'zext') and len(v) == 4:
        v = v[3]
    return v


LOSSY = ('fptosi', 'fptoui', 'fptrunc', 'trunc', 'wrap')

class Judge:
    def __init__(self, vm, row, opv, h, e, outs, res):
        self.vm, self.row, self.opv, self.h, self.e, self.outs, self.res = vm, row, opv, h, e, outs, res
        self.w = vm.w

    def bad(self, rule, text, at=None):
        where = at or self.handler()
        self.res.add('%s|%s|%s' % (self.row.name, rule, text.split(':')[0][:60]), where, rule, 'instruction %s: %s' % (self.row.name, text))

    def handler(self):
        """first line of the instruction's case"""
        f = self.vm.f
        c = self.vm.tab.code['OPCODE_' + self.row.name]
        for i in f.instrs():
            if i.op == 'switch':
                for v, l in i.x[1]:
                    if v == c:
                        return self.w.p.where(f.blocks[l].ins[0])
        return f.name

    def note(self, text):
        self.res.note('%s: %s: not decided' % (self.row.name, text))
        self.res.count('undecided')

    def ok(self, o):
        return isc(o.ret) and o.ret[1] != 0 or not isc(o.ret)

    def good(self):
        return [o for o in self.outs if self.ok(o) and not o.errs]

    def failed(self):
        """paths that report an error of their own"""
        return [o for o in self.outs if o.errs and 'callee' not in o.errs]

    # ---- values
    def describe(self, o, v, deep=4):
        v = self.e.res(o.st, v)
        n = o.new.get(v)
        if n is not None and deep:
            return ('new', n[1]) + tuple(self.describe(o, unwrap(x), deep - 1) for x in n[2])
        for x in o.effects:
            if x[0] == 'select' and x[3] == v and v != ZERO:
                return ('selected', self.describe(o, x[1]), self.describe(o, x[2]))
            if x[0] == 'get variable' and x[2] == v and v != ZERO:
                return ('variable', x[1])
        return v

    def stack(self, o, n):
        return [self.describe(o, t) for t in o.stack(n)]

    def show(self, v):
        if isinstance(v, tuple) and v and v[0] == 's':
            s = str(v[2])
            return s.replace('tok:', '').replace('Runtime_Get', '')
        if isinstance(v, tuple) and v and v[0] == 'c':
            return str(v[1])
        if isinstance(v, tuple):
            return '(' + ' '.join(self.show(x) for x in v) + ')'
        return str(v)

    def expect_stack(self, o, want, what=''):
        n = len(want) + 3
        got = self.stack(o, n)
        delta = len(o.pushed) - o.depth
        k = len(want) - delta         # how many of the old values are gone or restated
        full = list(want) + [O(i) for i in range(k, k + 3)]
        if got[:len(want)] != list(want) or got != full[:n]:
            self.bad('stack', 'leaves %s on top%s, where %s is expected' % (
                ', '.join(self.show(x) for x in got[:max(1, len(want) + 1)]), what, ', '.join(self.show(x) for x in full[:max(1, len(want) + 1)])))
            return False
        return True

    def after(self, o, popped, want, what=''):
        """stack: popped old values are gone, want (top first) is there instead"""
        n = len(want) + 3
        got = self.stack(o, n)
        full = list(want) + [O(popped + i) for i in range(3)]
        if got != full:
            self.bad('stack', 'leaves [%s ...] on the stack%s, [%s ...] is expected' % (
                ', '.join(self.show(x) for x in got), what, ', '.join(self.show(x) for x in full)))

    def next(self, o, want=None):
        idx = ('s', 0, 'index', (), '', 'i')
        w = want if want is not None else add(idx, ONE)
        v = unwrap(self.e.res(o.st, o.index)) if o.index is not None else None
        if v != w:
            self.bad('next instruction', 'continues at %s, %s is expected' % (
                'the same instruction' if v is None else self.show(v), 'the following one' if want is None else 'its operand'))

    def effects(self, o, skip=('new', 'raw', 'get variable', 'select')):
        return [tuple(self.describe(o, y) if isinstance(y, tuple) and y and y[0] in ('s', 'm', 'alloc', 'c', 'lin', 'op') else
                      tuple(self.describe(o, z) for z in y) if isinstance(y, tuple) else y for y in x)
                for x in o.effects if x[0] not in skip]

    def common(self):
        n = self.row.name
        if not self.outs:
            self.bad('runs', 'no path through its code completes')
            return False
        for i, t in self.h.stray:
            self.note(t)
        if self.e.cuts:
            self.note('a loop is not followed to its end')
        for o in self.outs:
            if isc(o.ret) and o.ret[1] == 0 and not o.errs and n not in ('RETURN', 'EXIT'):
                self.bad('result', 'stops the program without an error')
            for x in o.effects:
                if x[0] == 'raw':
                    self.bad('operand type', 'takes the %s out of an object not known to be one' % x[1])
        if not self.good() and n not in ('RETURN', 'EXIT'):
            self.bad('result', 'never succeeds')
            return False
        return True

    # ---- arithmetic
    def arith(self):
        n = self.row.name
        e = self.e
        one = n == 'NEG'
        combos = [('int',), ('float',)] if one else [('int', 'int')] if n == 'MOD' else \
            [(a, b) for a in ('int', 'float') for b in ('int', 'float')]
        toks = [O(0)] if one else [O(1), O(0)]
        hit = set()
        for o in self.good():
            ty = tuple(o.types.get(t) for t in toks)
            if ty not in combos:
                self.bad('operand type', 'succeeds on operands that are not known to be numbers')
                continue
            hit.add(ty)
            st = self.stack(o, 1)[0]
            kind = 'int' if all(t == 'int' for t in ty) else 'float'
            self.after(o, len(toks), [st], '')
            if not (isinstance(st, tuple) and st[0] == 'new'):
                self.bad('result', 'its result is not a new value')
                continue
            if st[1] != kind:
                self.bad('result', 'its result is %s where the operands are %s' % (st[1], ' and '.join(ty)))
                continue
            self.next(o)
            v = e.res(o.st, st[2])
            x = [raw(t, k) for t, k in zip(ty, toks)]
            if kind == 'int':
                self.intresult(o, n, v, x)
            else:
                x = [k if t == 'float' else ('op', 'sitofp', C(64), k) for t, k in zip(ty, x)]
                self.floatresult(o, n, v, x)
            self.res.count('results compared')
        for c in combos:
            if c not in hit:
                self.bad('result', 'never succeeds on %s' % ' and '.join(c))
        for o in self.failed():
            ty = tuple(o.types.get(t) for t in toks)
            if ty not in combos:
                continue
            ats = {raw(t, k) for t, k in zip(ty, toks)}
            if not facts(o.st, ats):
                self.bad('error', 'fails on every pair of operands that are %s' % ' and '.join(ty), o.errs[0])
            elif n in ('DIV', 'MOD') and ty == ('int', 'int'):
                y = raw('int', O(0))
                if e.truth(o.st, ('eq', y)) is False and e.truth(o.st, ('eq', add(y, ONE))) is False and \
                        not any(k[0] in ('tr1', 'op') for k in o.st.tr):
                    self.bad('error', 'fails though the divisor is neither 0 nor -1', o.errs[0])
            elif n == 'DIV' and ty != ('int', 'int'):
                self.floaterror(o, ty, toks)
            self.res.count('errors explained')

    def floaterror(self, o, ty, toks):
        y = raw(ty[1], toks[1])
        y = y if ty[1] == 'float' else ('op', 'sitofp', C(64), y)
        z = self.zero(o.st, y)
        if z is False:
            self.bad('error', 'fails though the divisor is not zero', o.errs[0])

    def zero(self, st, y):
        """is the path taken when y is zero: True, False, None"""
        for k, v in st.tr.items():
            if k[0] == 'fcmp' and ((k[2] == y and k[3] == ('f', 0.0)) or (k[3] == y and k[2] == ('f', 0.0))):
                if k[1] in ('oeq', 'ueq'):
                    return v
                if k[1] in ('une', 'one'):
                    return not v
        return None

    def intresult(self, o, n, v, x):
        e = self.e
        st = o.st
        if n == 'NEG':
            want = scale(x[0], -1)
        elif n == 'ADD':
            want = add(x[0], x[1])
        elif n == 'SUB':
            want = sub(x[0], x[1])
        elif n == 'MUL':
            want = e.binop(st, 'mul', x[0], x[1], ('int', 64))
        else:
            want = ('op', 'sdiv' if n == 'DIV' else 'srem', x[0], x[1])
        want = e.res(st, want)
        same = v == want or e.truth(st, ('eq', sub(v, want)))
        if n in ('DIV', 'MOD'):
            y = x[1]
            if e.truth(st, ('eq', add(y, ONE))):
                same = same or e.truth(st, ('eq', sub(v, scale(x[0], -1) if n == 'DIV' else ZERO)))
            if e.truth(st, ('eq', sub(y, ONE))):
                same = same or e.truth(st, ('eq', sub(v, x[0] if n == 'DIV' else ZERO)))
            if e.truth(st, ('eq', x[0])):
                same = same or v == ZERO
        if not same:
            if self.plain(v, set(x)):
                self.bad('result', 'the result is %s, %s is expected' % (self.term(v), self.term(want)))
            else:
                self.note('the result is computed in a form that is not recognised')
        if n in ('ADD', 'SUB', 'MUL', 'NEG') and not facts(st, set(x)):
            self.bad('overflow', 'nothing keeps the result within 64 bits')

    def term(self, v):
        names = {raw('int', O(0)): 'right', raw('int', O(1)): 'left', raw('float', O(0)): 'right', raw('float', O(1)): 'left'}
        if v in names:
            return names[v]
        if isc(v):
            return str(v[1])
        if v[0] == 'lin':
            return ' + '.join(([str(v[1])] if v[1] else []) + [('%s' if k == 1 else '-%s' if k == -1 else str(k) + '*%s') % self.term(a) for a, k in v[2]])
        if v[0] == 'op':
            return '%s(%s)' % (v[1], ', '.join(self.term(x) for x in v[2:]))
        if v[0] == 'f':
            return str(v[1])
        return '?'

    def plain(self, v, ats):
        """a form whose value is understood: linear, or one operation on operands"""
        c, its = parts(v)
        for a, k in its:
            if a in ats:
                continue
            if a[0] == 'op' and a[1] in ('sdiv', 'srem', 'mul') and len(its) == 1 and c == 0 and k == 1 and \
                    all(x in ats for x in a[2:]):
                continue
            return False
        return True

    def floatresult(self, o, n, v, x):
        e = self.e
        if n == 'NEG':
            want = [('op', 'fneg', x[0])]
            if v not in want and not (v[0] == 'op' and v[1] in ('fneg', 'fsub') and x[0] in v[2:]):
                self.bad('result', 'the result is %s' % self.term(v)) if v == x[0] else self.note('the result is computed in a form that is not recognised')
            elif v[1] == 'fsub' and v[2] == x[0]:
                self.bad('result', 'the result is %s' % self.term(v))
            return
        op = {'ADD': 'fadd', 'SUB': 'fsub', 'MUL': 'fmul', 'DIV': 'fdiv'}[n]
        want = e.binop(o.st, op, x[0], x[1], ('fp', 64))
        if v != want:
            if v[0] == 'op' and v[1] in ('fadd', 'fsub', 'fmul', 'fdiv') and set(v[2:]) <= set(x) or v in x:
                self.bad('result', 'the result is %s, %s is expected' % (self.term(v), self.term(want)))
            elif self.truncated(v) and not facts(o.st, {a for y in x for a in atoms(y)}):
                self.bad('result', 'an operand is converted to a type that does not hold it')
            else:
                self.note('the result is computed in a form that is not recognised')
        if n == 'DIV':
            z = self.zero(o.st, x[1])
            if z is True or (z is None and not facts(o.st, atoms(x[1]))):
                self.bad('division', 'a division of numbers by zero is not reported')

    def division(self):
        for ins, z, m, a, b in self.h.arith:
            self.res.count('divisions')
            if z is not False:
                self.bad('division', 'the divisor may be zero', self.w.p.where(ins))
            elif m is not False:
                self.bad('division', 'the quotient may not fit: the divisor may be -1', self.w.p.where(ins))

    # ---- comparisons
    def relational(self):
        n = self.row.name
        e = self.e
        hit = set()
        want = {'LSS': {'lt'}, 'GRT': {'gt'}, 'LEQ': {'lt', 'eq'}, 'GEQ': {'gt', 'eq'}}[n]
        for o in self.good():
            ty = (o.types.get(O(1)), o.types.get(O(0)))
            if not set(ty) <= {'int', 'float'}:
                self.bad('operand type', 'succeeds on operands that are not known to be numbers')
                continue
            hit.add(ty)
            s = self.stack(o, 1)[0]
            self.after(o, 2, [s])
            self.next(o)
            if s[0] != 'new' or s[1] != 'bool':
                self.bad('result', 'its result is not a new bool')
                continue
            v = e.res(o.st, s[2])
            x, y = raw(ty[0], O(1)), raw(ty[1], O(0))
            if ty == ('int', 'int'):
                for rel, f in (('lt', ('le', add(sub(x, y), ONE))), ('eq', ('eq', sub(x, y))), ('gt', ('le', add(sub(y, x), ONE)))):
                    s2 = o.st.clone()
                    if not e.assume(s2, f, True):
                        continue
                    t = e.truth(s2, v) if isbool(v) or isc(v) else None
                    self.verdict(t, rel in want, 'left %s right' % {'lt': '<', 'eq': '=', 'gt': '>'}[rel], ty)
            else:
                X, Y = [k if t == 'float' else ('op', 'sitofp', C(64), k) for t, k in zip(ty, (x, y))]
                for rel in ('lt', 'eq', 'gt', 'un'):
                    if any(self.frel(k, X, Y, rel) not in (None, val) for k, val in o.st.tr.items()):
                        continue
                    t = self.frel(v, X, Y, rel)
                    if t is None and self.truncated(v) and not facts(o.st, {x, y}):
                        self.bad('result', 'compares an operand converted to a type that does not hold it (%s and %s)' % ty)
                        break
                    self.verdict(t, rel in want, {'lt': 'left < right', 'eq': 'left = right', 'gt': 'left > right', 'un': 'not a number'}[rel], ty)
            self.res.count('results compared')
        for c in [(a, b) for a in ('int', 'float') for b in ('int', 'float')]:
            if c not in hit:
                self.bad('result', 'never succeeds on %s' % ' and '.join(c))
        for o in self.failed():
            if {o.types.get(O(1)), o.types.get(O(0))} <= {'int', 'float'}:
                self.bad('error', 'fails on numbers', o.errs[0])

    def verdict(self, t, want, when, ty):
        if t is None:
            self.note('the result is computed in a form that is not recognised')
        elif t != want:
            self.bad('result', 'gives %s when %s (%s and %s)' % (str(t).lower(), when, ty[0], ty[1]))

    def truncated(self, v):
        """is the value computed from a conversion that does not keep its operand?"""
        if isinstance(v, tuple) and v:
            if v[0] == 'op' and (v[1] in LOSSY or v[1] in ('sitofp', 'uitofp') and v[2] == C(32)):
                return True
            return any(self.truncated(x) for x in v)
        return False

    def frel(self, v, X, Y, rel):
        if isc(v):
            return v[1] != 0
        if v[0] == 'not':
            r = self.frel(v[1], X, Y, rel)
            return None if r is None else not r
        if v[0] in ('and', 'or'):
            a, b = self.frel(v[1], X, Y, rel), self.frel(v[2], X, Y, rel)
            if a is None or b is None:
                return None
            return (a and b) if v[0] == 'and' else (a or b)
        if v[0] == 'fcmp' and {v[2], v[3]} == {X, Y} and X != Y:
            if v[2] == Y:
                rel = {'lt': 'gt', 'gt': 'lt'}.get(rel, rel)
            p = v[1]
            if rel == 'un':
                return p[0] == 'u' and p not in ('uno',) or p == 'uno'
            if p in ('ord', 'uno'):
                return p == 'ord'
            return rel in {'eq': ('eq',), 'ne': ('lt', 'gt'), 'lt': ('lt',), 'le': ('lt', 'eq'), 'gt': ('gt',), 'ge': ('gt', 'eq')}[p[1:]]
        return None

    def equality(self):
        n = self.row.name
        e = self.e
        q = ('s', 0, 'equal', (), '', 'i')
        for o in self.good():
            c = [x for x in o.effects if x[0] == 'compare']
            if len(c) != 1 or {c[0][1], c[0][2]} != {O(0), O(1)}:
                self.bad('operands', 'does not compare its two operands')
                continue
            s = self.stack(o, 1)[0]
            self.after(o, 2, [s])
            self.next(o)
            if s[0] != 'new' or s[1] != 'bool':
                self.bad('result', 'its result is not a new bool')
                continue
            self.boolean(o, s[2], q, n == 'EQL', 'the operands are equal')
            self.res.count('results compared')
        for o in self.failed():
            self.bad('error', 'fails on its own account', o.errs[0])

    def boolean(self, o, v, q, same, text):
        """v must be q (same) or its negation"""
        for b in (0, 1):
            s2 = o.st.clone()
            if not self.e.assume(s2, ('eq', sub(q, C(b))), True):
                continue
            t = self.e.truth(s2, v) if isbool(v) or isc(v) else None
            if t is None:
                z = self.e._iszero(s2, v) if v[0] in ('s', 'lin', 'm', 'h', 'op') else None
                t = None if z is None else not z
            if t is None:
                self.note('the result is computed in a form that is not recognised')
            elif t != ((b == 1) == same):
                self.bad('result', 'gives %s when %s is %s' % (str(t).lower(), text, 'true' if b else 'false'))

    def negation(self):
        for o in self.good():
            if o.types.get(O(0)) != 'bool':
                self.bad('operand type', 'succeeds on an operand not known to be a bool')
                continue
            s = self.stack(o, 1)[0]
            self.after(o, 1, [s])
            self.next(o)
            if s[0] != 'new' or s[1] != 'bool':
                self.bad('result', 'its result is not a new bool')
                continue
            self.boolean(o, s[2], raw('bool', O(0)), False, 'the operand')
            self.res.count('results compared')
        for o in self.failed():
            if o.types.get(O(0)) == 'bool':
                self.bad('error', 'fails on a bool', o.errs[0])

    def jump(self):
        q = raw('bool', O(0))
        sense = self.row.name == 'JUMPIFANDPOP'
        idx = add(('s', 0, 'index', (), '', 'i'), ONE)
        for o in self.good():
            if o.types.get(O(0)) != 'bool':
                self.bad('operand type', 'succeeds on an operand not known to be a bool')
                continue
            self.after(o, 1, [])
            for b in (0, 1):
                s2 = o.st.clone()
                if not self.e.assume(s2, ('eq', sub(q, C(b))), True):
                    continue
                v = unwrap(self.e.res(s2, o.index))
                want = self.opv[0] if (b == 1) == sense else idx
                if v != want:
                    self.bad('next instruction', '%s when the value is %s' % ('jumps' if v == self.opv[0] else 'does not jump to its operand', 'true' if b else 'false'))
            self.res.count('results compared')
        for o in self.failed():
            if o.types.get(O(0)) == 'bool':
                self.bad('error', 'fails on a bool', o.errs[0])

    # ---- data
    def data(self):
        n = self.row.name
        v = self.opv
        S_ = lambda name: ('s', 0, name, (), '', 'p')
        if n in ('RETURN', 'EXIT'):
            for o in self.outs:
                if not (isc(o.ret) and o.ret[1] == 0):
                    self.bad('result', 'does not end the frame')
                if o.errs and 'callee' not in o.errs:
                    self.bad('error', 'reports an error', o.errs[0])
                if n == 'EXIT':
                    self.after(o, 0, [S_('Runtime_GetLocals')])
                else:
                    self.after(o, 0, [])
                self.res.count('paths compared')
            return
        for o in self.good():
            self.res.count('paths compared')
            if n not in ('JUMP',):
                self.next(o)
            eff = self.effects(o)
            if n == 'NOPE' or n == 'POS':
                self.after(o, 0, [])
                self.no(eff)
            elif n == 'JUMP':
                self.after(o, 0, [])
                self.next(o, v[0])
                self.no(eff)
            elif n == 'POP':
                self.after(o, v[0][1], [])
                self.no(eff)
            elif n == 'NLB':
                self.after(o, 1, [('new', 'nullable', O(0))])
            elif n == 'STP':
                self.after(o, 2, [('new', 'sum', O(1), O(0))])
            elif n == 'ASS':
                self.after(o, 0, [])
                self.only(eff, [('set variable', v[0], O(0))])
            elif n == 'CHECKTYPE':
                self.after(o, 1, [])
                if ('not a member',) in o.effects:
                    self.bad('result', 'succeeds when the argument is not of the type')
                self.only([x for x in eff if x[0] != 'not a member'], [('istypeof', O(0), O(1))])
            elif n in ('SELECT', 'SELECT2'):
                sel = [x for x in o.effects if x[0] == 'select']
                if len(sel) != 1 or sel[0][1:3] != (O(1), O(0)):
                    self.bad('operands', 'does not select the top value in the one below')
                    continue
                top = ('new', 'none') if sel[0][3] == ZERO else ('selected', O(1), O(0))
                self.after(o, 2, [top] + ([O(1)] if n == 'SELECT2' else []), ' when nothing is found' if sel[0][3] == ZERO else '')
            elif n == 'INSERT':
                self.after(o, 2, [])
                self.only(eff, [('insert', O(2), O(1), O(0))])
            elif n == 'INSERT2':
                self.after(o, 2, [])
                self.only(eff, [('insert', O(1), O(0), O(2))])
            elif n in ('PUSHINT', 'PUSHFLT'):
                self.after(o, 0, [('new', 'int' if n == 'PUSHINT' else 'float', v[0])])
            elif n == 'PUSHSTR':
                t = self.stack(o, 1)[0]
                self.after(o, 0, [t])
                if t[:3] != ('new', 'string', v[0]):
                    self.bad('stack', 'does not push its operand')
                elif isc(t[3]) and t[3] != C(-1):
                    self.bad('stack', 'pushes %d bytes of its operand' % t[3][1])
            elif n == 'PUSHVAR':
                t = self.stack(o, 1)[0]
                if ('get variable', v[0], ZERO) in o.effects:
                    self.bad('result', 'succeeds when the variable does not exist')
                    continue
                self.after(o, 0, [('variable', v[0])])
            elif n in ('PUSHTRU', 'PUSHFLS'):
                t = self.stack(o, 1)[0]
                self.after(o, 0, [t])
                if t[:2] != ('new', 'bool') or not isc(t[2]) or (t[2][1] != 0) != (n == 'PUSHTRU'):
                    self.bad('stack', 'pushes %s' % self.show(t))
            elif n == 'PUSHNNE':
                self.after(o, 0, [('new', 'none')])
            elif n in ('PUSHLST', 'PUSHMAP'):
                t = self.stack(o, 1)[0]
                self.after(o, 0, [('new', 'list' if n == 'PUSHLST' else 'map') + tuple(t[2:])])
            elif n == 'PUSHTYP':
                self.after(o, 0, [S_("type of 'tok:o0'")])
            elif n == 'PUSHNNETYP':
                self.after(o, 0, [S_('nonetype')])
            elif n == 'PUSHFUN':
                self.after(o, 0, [('new', 'function', v[2], S_('Runtime_GetCurrentExecutable'), v[0], v[1],
                                   ('new', 'closure', S_('Runtime_GetClosure'), S_('Runtime_GetLocals')))])
            elif n == 'CALL':
                a, r = v[0][1], v[1][1]
                c = [x for x in o.effects if x[0] == 'call']
                if len(c) != 1 or c[0][1] != O(0) or c[0][2] != tuple(O(1 + k) for k in range(a)):
                    self.bad('operands', 'does not call the top value with the %d values below it' % a)
                    continue
                m = c[0][3]
                want = [S_('ret%d' % k) for k in range(min(m, r))] + [('new', 'none')] * max(0, r - m)
                self.after(o, a + 1, want[::-1], ' when %d of %d results are returned' % (m, r))
            else:
                self.note('its meaning is not written down')
        # errors of its own are only for what the operands lack
        for o in self.failed():
            if n == 'CHECKTYPE' and ('not a member',) in o.effects or n == 'PUSHVAR' and ('get variable', v[0], ZERO) in o.effects:
                continue
            if n in ('CHECKTYPE', 'PUSHVAR', 'SELECT', 'SELECT2', 'INSERT', 'INSERT2', 'ASS', 'POS', 'PUSHTYP', 'CALL', 'NOPE', 'JUMP') or n.startswith('PUSH'):
                if not facts(o.st, {x for x in v if x[0] == 's'}):
                    self.bad('error', 'fails though nothing is wrong with its operands', o.errs[0])
        if n == 'CALL' and v == [C(1), C(1)]:
            got = {x[3] for o in self.good() for x in o.effects if x[0] == 'call'}
            if not {0, 1, 2} <= got:
                self.bad('result', 'fails for some numbers of results')
        if n in ('SELECT', 'SELECT2'):
            if not any(x[0] == 'select' and x[3] == ZERO for o in self.good() for x in o.effects):
                self.bad('result', 'fails when nothing is found')

    def no(self, eff):
        if eff:
            self.bad('effects', 'also does: %s' % ', '.join(self.show(x) for x in eff))

    def only(self, eff, want):
        if eff != want:
            self.bad('effects', 'does: %s; expected: %s' % (', '.join(self.show(x) for x in eff) or 'nothing', ', '.join(self.show(x) for x in want)))


def one_row(job):
    vm, row, part = job
    vm, row = W[0], [r for r in W[0].tab.rows if r.name == row][0]
    res = Result()
    for opv in runs(row):
        try:
            h, e, outs = vm.run(row, opv)
        except Budget as b:
            res.note('%s: too many states' % row.name)
            res.count('undecided')
            continue
        j = Judge(vm, row, opv, h, e, outs, res)
        res.count('instructions followed')
        res.count('paths', len(outs))
        if not j.common():
            continue
        n = row.name
        if n in ARITH:
            j.arith()
            j.division()
        elif n in REL:
            j.relational()
        elif n in ('EQL', 'NQL'):
            j.equality()
        elif n == 'NOT':
            j.negation()
        elif n in ('JUMPIFANDPOP', 'JUMPIFNOTANDPOP'):
            j.jump()
        else:
            j.data()
    return res


W = [None]


def select(names, floor):
    w = World()
    W[0] = vm = VM(w)
    rows = [r.name for r in vm.tab.rows if names(r.name)]
    res = Result()
    for n in set(rows):
        if rows.count(n) > 1:
            raise Broken('the table lists %s twice' % n)
    if len(rows) < floor:
        raise Broken('%d instructions, at least %d are expected' % (len(rows), floor))
    for r in pmap(one_row, [(None, n, None) for n in rows]):
        res.merge(r)
    res.sample('handlers in %s' % vm.f.name)
    for n in rows:
        res.sample(n)
    return res


def arith_(tier):
    return select(lambda n: n in ARITH, 5)


def tests_(tier):
    return select(lambda n: n in TESTS, 8)


def data_(tier):
    return select(lambda n: n not in ARITH and n not in TESTS, 20)

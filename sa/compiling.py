"""Decides V01 (the instruction table), V02 (stack discipline of the emitted code), V03 (expressions),
V04 (control flow), V05 (functions)."""
import codegen
from codegen import *
from core import Result
from vm import VM, operand

EXPR = ('op', 'and', 'or', 'lit', 'select', 'list', 'map', 'call', 'assign')
CTRL = ('if', 'while', 'dowhile', 'block', 'return')
FUNC = ('func', 'fdecl')


def setup():
    w = World()
    tab = InstrTable(w)
    gen = Gen(w)
    codegen.WORLD[0] = (w, gen, tab)
    return w, gen, tab


# ---------------------------------------------------------------- jobs
def chunk(js):
    return [case(j) for j in js]


def follow(pick, tier, fn=chunk):
    """results of the constructs for which pick(description) holds"""
    sch = [d for d in schemas(True) if pick(d)]
    limit = 7 if tier == 'thorough' else 5
    jobs = [(k, d, loop, limit) for k, d in enumerate(sch) for loop in (False, True)]
    n = 48
    parts_ = [jobs[i::n] for i in range(n)]
    out = []
    for r in pmap(fn, [p for p in parts_ if p]):
        out += r
    out.sort(key=lambda r: r[0])
    return sch, out


def report(res, sch, out):
    for k, status, text, det, n, emits in out:
        d = sch[k]
        res.count('constructs followed')
        res.count('paths of the generator', n)
        res.count('instructions compared', len(emits))
        if status == 'undecided':
            res.note('%s: %s' % (show(d), text))
            res.count('undecided')
        elif status == 'none':
            res.add('none|' + shape(d), codegen.WORLD[0][1].D.name, 'compiles', '%s: %s' % (show(d), text))
        elif status == 'bad':
            lst, where = det
            res.add('meaning|' + shape(d), where, 'meaning', '%s: %s' % (show(d), text), lst)
        else:
            res.count('constructs that agree')
    for d in sch[:6]:
        res.sample(show(d))


def kinds(ks, floor, group):
    def go(tier):
        setup()
        sch, out = follow(lambda d: d[0] in ks, tier)
        res = Result()
        report(res, sch, out)
        refusals(res, group)
        res.need('constructs followed', floor)
        return res
    return go


exprs_ = kinds(EXPR, 1000, 'exprs')
control_ = kinds(CTRL, 1000, 'control')
funcs_ = kinds(FUNC, 200, 'funcs')


def refused():
    """(group, description, inside a loop): what has no meaning"""
    v = X('value', 'EXPR_CALL', 'EXPR_PAIR')
    E = 'exprs'
    for n in ('INT', 'FLOAT', 'STRING'):
        yield E, ('assign', [('lit', n, 'v'), X('right', *NOPAIR)]), False
    for n in ('NONE', 'TRUE', 'FALSE'):
        yield E, ('assign', [('lit', n), X('right', *NOPAIR)]), False
    for o in BIN:
        yield E, ('assign', [('op', o, [X('a'), X('b')]), X('right', *NOPAIR)]), False
    for t in (('call', X('a', *NOARW), [X('b')]), ('list', [X('a')]), ('map', []), ('func', [], S('a')), ('arw', X('a'), X('b')),
              ('and', [X('a'), X('b')]), ('op', 'NOT', [X('a')])):
        yield E, ('assign', [t, X('right', *NOPAIR)]), False
        yield E, ('assign', [('pair', [ID('x'), t]), ('call', X('a', *NOARW), [])]), False
        yield E, ('assign', [('pair', [t, ID('x')]), ('call', X('a', *NOARW), [])]), False
    yield E, ('assign', [('pair', [ID('x'), ID('y')]), v]), False
    yield E, ('assign', [('pair', [ID('x'), ID('y')]), ('pair', [X('a'), X('b')])]), False
    yield E, ('pair', [X('a'), X('b')]), False
    yield E, ('arw', X('a'), X('b')), False
    yield E, ('list', [('pair', [X('a'), X('b')])]), False
    yield E, ('op', 'ADD', [X('a'), ('arw', X('b'), X('c'))]), False
    C_ = 'control'
    yield C_, ('break',), False
    yield C_, ('if', X('test'), ('break',), None), False
    yield C_, ('if', X('test'), S('then'), ('break',)), False
    yield C_, ('block', [S('first'), ('break',)]), False
    yield C_, ('block', [('while', X('test'), S('body')), ('break',)]), False
    yield C_, ('block', [('dowhile', S('body'), X('test')), ('break',)]), False
    F = 'funcs'
    for lp in (False, True):
        yield F, ('fdecl', 'f', [], ('break',)), lp
        yield F, ('func', [], ('block', [S('first'), ('break',)])), lp
        yield F, ('func', [('p', None, X('default'))], ('if', X('test'), ('break',), None)), lp
    yield F, ('while', X('test'), ('fdecl', 'f', [], ('break',))), False


def refuse(job):
    g, d, loop = job
    w, gen, tab = codegen.WORLD[0]
    try:
        h, e, tree, outs = templates(w, gen, tab, d, loop)
    except Budget as b:
        return ('undecided', str(b))
    if h.stray or e.cuts:
        return ('undecided', 'the generator is not followed to its end')
    for st, v in outs:
        code, labels = split(st)
        return ('bad', listing(tree, code, labels))
    return ('ok', None)


def refusals(res, group):
    jobs = [x for x in refused() if x[0] == group]
    for (g, d, loop), (status, x) in zip(jobs, pmap(refuse, jobs)):
        if status == 'undecided':
            res.note('%s: %s' % (show(d), x))
        elif status == 'bad':
            res.add('refused|%s|%s' % (shape(d), show(d)), codegen.WORLD[0][1].D.name, 'refused', '%s has no meaning and is compiled to this code' % show(d), x)
        res.count('meaningless constructs')


# ---------------------------------------------------------------- stack discipline
DELTA = {'POS': 0, 'NEG': 0, 'NOT': 0, 'NLB': 0, 'ADD': -1, 'SUB': -1, 'MUL': -1, 'DIV': -1, 'MOD': -1, 'EQL': -1, 'NQL': -1,
         'LSS': -1, 'GRT': -1, 'LEQ': -1, 'GEQ': -1, 'STP': -1, 'ASS': 0, 'CHECKTYPE': -1, 'SELECT': -1, 'SELECT2': 0,
         'INSERT': -2, 'INSERT2': -2, 'PUSHINT': 1, 'PUSHFLT': 1, 'PUSHSTR': 1, 'PUSHVAR': 1, 'PUSHTRU': 1, 'PUSHFLS': 1,
         'PUSHNNE': 1, 'PUSHFUN': 1, 'PUSHLST': 1, 'PUSHMAP': 1, 'PUSHTYP': 1, 'PUSHNNETYP': 1, 'NOPE': 0,
         'JUMP': 0, 'JUMPIFANDPOP': -1, 'JUMPIFNOTANDPOP': -1}
NEED = {'POS': 1, 'NEG': 1, 'NOT': 1, 'NLB': 1, 'ASS': 1, 'CHECKTYPE': 2, 'SELECT': 2, 'SELECT2': 2, 'INSERT': 3, 'INSERT2': 3,
        'PUSHTYP': 1, 'STP': 2, 'ADD': 2, 'SUB': 2, 'MUL': 2, 'DIV': 2, 'MOD': 2, 'EQL': 2, 'NQL': 2, 'LSS': 2, 'GRT': 2, 'LEQ': 2,
        'GEQ': 2, 'JUMPIFANDPOP': 1, 'JUMPIFNOTANDPOP': 1}
ENCLOSING = ('alloc', 0, 'enclosing', ())


class Verify:
    """depth of the stack at each instruction of a template"""

    def __init__(self, tree, code, labels, isx):
        self.tree, self.code, self.labels, self.isx = tree, code, labels, isx
        self.points = 0

    def run(self, entry=0, depth=0, body=False):
        at = {entry: depth}
        todo = [entry]
        sub_ = []

        def goto(pc, d, how):
            if pc is None:
                if d != 0:
                    raise Bad('a break leaves %d values on the stack' % d)
                return
            if not 0 <= pc <= len(self.code):
                raise Bad('a jump leaves the code')
            if pc in at:
                if at[pc] != d:
                    raise Bad('instruction %d is reached with %d and with %d values on the stack' % (pc, at[pc], d))
                return
            at[pc] = d
            todo.append(pc)
        while todo:
            pc = todo.pop()
            d = at[pc]
            self.points += 1
            if pc == len(self.code):
                if body:
                    raise Bad('the code of the function runs on past its end')
                if d != (1 if self.isx else 0):
                    raise Bad('%d values are on the stack at the end instead of %d' % (d, 1 if self.isx else 0))
                continue
            x = self.code[pc]
            if x[0] == 'part':
                if x[1] == 'x':
                    goto(pc + 1, d + 1, 0)
                else:
                    if x[3] is not None and x[3] != ZERO:
                        goto(self.target(x[3]), d, 0)
                    goto(pc + 1, d, 0)
                continue
            op, ops = x[1][7:], x[2]
            v = [o[2][1] if isc(o[2]) else None for o in ops]
            if op in ('POP', 'CALL', 'RETURN') and None in v:
                raise Unknown('the operands of %s are not constants' % op)
            if op == 'POP':
                if v[0] > d:
                    raise Bad('POP takes %d of %d values' % (v[0], d))
                goto(pc + 1, d - v[0], 0)
            elif op == 'CALL':
                if v[0] + 1 > d:
                    raise Bad('CALL takes %d of %d values' % (v[0] + 1, d))
                goto(pc + 1, d - v[0] - 1 + v[1], 0)
            elif op == 'RETURN':
                if v[0] != d:
                    raise Bad('RETURN of %d values with %d on the stack of the frame' % (v[0], d))
            elif op == 'EXIT':
                pass
            elif op in DELTA:
                if d < NEED.get(op, 0):
                    raise Bad('%s needs %d values, the stack has %d' % (op, NEED[op], d))
                d2 = d + DELTA[op]
                if op.startswith('JUMP'):
                    goto(self.where(ops[0]), d2, 0)
                if op != 'JUMP':
                    goto(pc + 1, d2, 0)
                if op == 'PUSHFUN':
                    sub_.append((self.where(ops[0]), v[1]))
            else:
                raise Unknown('the instruction %s is not known' % op)
        for e, n in sub_:
            if e is None or n is None:
                raise Unknown('a function whose place or number of parameters is not known')
            self.run(e, n, True)

    def where(self, o):
        if o[1] == 'OPTP_PROMISE':
            return self.target(o[2])
        if not isc(o[2]):
            raise Unknown('a jump to an unknown place')
        return o[2][1]

    def target(self, lab):
        if lab == ENCLOSING:
            return None
        if lab not in self.labels:
            raise Bad('a jump to a label that is never placed')
        if self.labels[lab] is None:
            raise Unknown('a label whose place is not known')
        return self.labels[lab]


def verify(job):
    k, desc, loop, limit = job
    w, gen, tab = codegen.WORLD[0]
    try:
        h, e, tree, outs = templates(w, gen, tab, desc, loop)
    except Budget as b:
        return (k, 'undecided', str(b), None, 0, ())
    if h.stray or e.cuts:
        return (k, 'undecided', 'the generator is not followed to its end', None, 0, ())
    pts = 0
    for st, v in outs:
        code, labels = split(st)
        vf = Verify(tree, code, labels, desc[0] in EXPRS)
        try:
            vf.run()
        except Bad as b:
            at = [x[3] for x in code if x[0] == 'emit']
            return (k, 'bad', str(b), (listing(tree, code, labels), w.p.where(at[0]) if at else gen.D.name), len(outs), ())
        except Unknown as u:
            return (k, 'undecided', str(u), None, len(outs), ())
        pts += vf.points
    return (k, 'ok' if outs else 'none', 'no path through the generator completes', None, len(outs), (0,) * pts)


def vchunk(js):
    return [verify(j) for j in js]


def stack_(tier):
    setup()
    sch, out = follow(lambda d: True, tier, vchunk)
    res = Result()
    for k, status, text, det, n, pts in out:
        d = sch[k]
        res.count('constructs followed')
        res.count('program points with a known depth', len(pts))
        if status == 'undecided':
            res.note('%s: %s' % (show(d), text))
            res.count('undecided')
        elif status != 'ok':
            res.add('stack|' + shape(d), det[1] if det else codegen.WORLD[0][1].D.name, 'stack', '%s: %s' % (show(d), text), det[0] if det else ())
    root(res)
    for d in sch[:6]:
        res.sample(show(d))
    res.need('constructs followed', 1200)
    res.need('program points with a known depth', 4000)
    return res


def root(res):
    """a whole program: its code, then the instruction that ends it"""
    w, gen, tab = codegen.WORLD[0]
    for d in (S('program'), X('program')):
        try:
            h, e, tree, outs = templates(w, gen, tab, d, False, gen.codegen)
        except Budget as b:
            res.note('whole program: %s' % b)
            continue
        for st, v in outs:
            code, labels = split(st)
            if v == ZERO:
                continue
            res.count('whole programs')
            shapes = [x[0] if x[0] == 'part' else x[1][7:] for x in code]
            if shapes != ['part', 'EXIT'] and shapes != ['part', 'POP', 'EXIT']:
                res.add('program', gen.codegen.name, 'stack', 'the code of a program is %s, its statements and EXIT are expected' % ', '.join(shapes), listing(tree, code, labels))
        if not outs:
            res.note('whole program: no path completes')


# ---------------------------------------------------------------- locations
def measure(v):
    """how often positions and extents enter a value, None if it is not a sum of them"""
    c, its = parts(v)
    pos = ext = 0
    for a, k in its:
        if a[0] == 's' and a[2].startswith('off'):
            pos += k
        elif a[0] == 's' and a[2].startswith('len') and a[2][3:].isdigit():
            ext += k
        else:
            return None
    return pos, ext, c


def locate(job):
    k, desc, loop, limit = job
    w, gen, tab = codegen.WORLD[0]
    try:
        h, e, tree, outs = templates(w, gen, tab, desc, loop)
    except Budget as b:
        return (k, 'undecided', str(b), None, 0, ())
    n = 0
    for st, v in outs:
        code, labels = split(st)
        for x in code:
            if x[0] != 'emit':
                continue
            off, ln = x[4]
            n += 1
            o, l = measure(off), measure(ln)
            name = str(x[1])[7:]
            if o is None or l is None:
                continue
            if o[0] != 1:
                return (k, 'bad', '%s is located at %s: not a position in the source' % (name, 'the constant %d' % o[2] if not o[1] and not o[0] else 'the length of a node' if not o[0] else 'a sum of positions'), (listing(tree, code, labels), w.p.where(x[3])), n, ())
            if l[0] != 0:
                return (k, 'bad', 'the length of %s is a position in the source' % name, (listing(tree, code, labels), w.p.where(x[3])), n, ())
    return (k, 'ok', None, None, n, ())


def lchunk(js):
    return [locate(j) for j in js]


def location_(tier):
    w, gen, tab = setup()
    sch, out = follow(lambda d: True, tier, lchunk)
    res = Result()
    for k, status, text, det, n, pts in out:
        d = sch[k]
        res.count('constructs followed')
        res.count('instructions located', n)
        if status == 'undecided':
            res.note('%s: %s' % (show(d), text))
            res.count('undecided')
        elif status == 'bad':
            res.add('location|' + shape(d) + '|' + text[:40], det[1], 'location', '%s: %s' % (show(d), text), det[0])
    for r in pmap(roundtrip, [r.name for r in tab.rows]):
        res.count('locations stored and read back', r.cov.get('locations stored and read back', 0))
        res.findings += [f for f in r.findings if f.key.startswith('place|')]
        res.notes += r.notes
    frames(res)
    for d in sch[:6]:
        res.sample(show(d))
    res.need('instructions located', 10000)
    res.need('locations stored and read back', 20)
    return res


class FrameHooks(NojaHooks):
    """which instruction of a frame a location is asked for"""

    def __init__(self, w, cell):
        super().__init__(w)
        self.boundary = frozenset()
        self.cell = cell
        self.asked = []

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else (f.name if f is not None else None)
        if n in ('Executable_GetInstrOffset', 'Executable_GetInstrLength'):
            self.asked.append((ins, e.res(st, args[1]), st.clone()))
            return [(st, ('s', 0, n, (), '', 'i'))]
        return None


def frames(res):
    """a frame keeps the index of its next instruction: the one at work is before it"""
    w, gen, tab = codegen.WORLD[0]
    p = w.p
    d = p.di_struct('NormalFrame')
    if not d:
        raise Broken('struct NormalFrame was not found')
    cell = [o for n, o, ct, sz in d if n == 'index'][0]
    vm = VM(w)
    adv = set()
    for r in tab.rows:
        if r.types or r.name not in ('ADD', 'NOT', 'SELECT', 'PUSHTYP'):
            continue
        h, e, outs = vm.run(r, [])
        for o in outs:
            if o.errs and o.index is not None:
                k = sub(e.res(o.st, o.index), ('s', 0, 'index', (), '', 'i'))
                adv.add(k[1] if isc(k) else None)
    if len(adv) != 1 or None in adv:
        res.note('how far the index of a frame is ahead of the instruction at work is not known')
        return
    adv = adv.pop()
    for f in sorted(p.functions.values(), key=lambda f: f.gid):
        if not any(i.op == 'call' and i.x[0] == 'g' and i.x[1].split(':')[-1] in ('Executable_GetInstrOffset', 'Executable_GetInstrLength') for i in f.instrs()):
            continue
        h = FrameHooks(w, cell)
        e = Engine(p, w.eff, h)
        fr = Frame(f, e.act(0, f.gid, ()), e.cfg(f), 0, None, None)
        args = e.params(fr)
        try:
            e.run(fr, args, St())
        except Budget:
            res.note('%s: too many states' % f.name)
            continue
        for ins, v, st in h.asked:
            c, its = parts(v)
            if len(its) != 1 or its[0][1] != 1 or its[0][0][0] != 'm' or parts(its[0][0][1])[0] != cell:
                continue
            res.count('locations asked of a frame')
            if c != -adv:
                res.add('frame|' + f.name, p.where(ins), 'location', '%s locates a frame at its index%s; the instruction at work is at its index - %d' % (f.name, ' %+d' % c if c else '', adv))


# ---------------------------------------------------------------- the table
def table_(tier):
    w, gen, tab = setup()
    res = Result()
    p = w.p
    at = 'instruction table (%s)' % tab.gid.split(':')[0]
    for v, n in sorted(tab.opcodes.items()):
        rows = [r for r in tab.rows if r.opcode == v]
        res.count('opcodes')
        if len(rows) != 1:
            res.add('row|' + n, at, 'rows', '%s has %d rows, one is expected' % (n, len(rows)))
    seen = set()
    for r in tab.rows:
        res.count('rows')
        res.sample('%s %s' % (r.name, ' '.join(str(t)[5:] for t in r.types)))
        n = tab.opcodes.get(r.opcode)
        if r.name in seen:
            res.add('name|%s' % r.name, at, 'names', 'the name %s is listed twice' % r.name)
        seen.add(r.name)
        if n is not None and r.name != n[7:] and 'OPCODE_%s' % r.name in tab.code:
            res.add('name|%s' % r.name, at, 'names', 'the row named %s is of the instruction %s' % (r.name, n[7:]))
        if any(t is None or t == 'OPTP_PROMISE' for t in r.types):
            res.add('types|%s' % r.name, at, 'operands', 'an operand of %s has no type an executable can hold' % r.name)
    ok = not res.findings
    if ok:
        for r in pmap(roundtrip, [r.name for r in tab.rows]):
            r.findings = [f for f in r.findings if not f.key.startswith('place|')]
            res.merge(r)
        handlers(res)
    emissions(res, tier)
    res.need('opcodes', 30)
    res.need('emissions checked', 1000)
    return res


def emissions(res, tier):
    w, gen, tab = codegen.WORLD[0]
    sch, out = follow(lambda d: True, tier)
    by = {n: r for v, n in tab.opcodes.items() for r in [tab.by.get(v)] if r}
    sites = set()
    for k, status, text, det, n, emits in out:
        for op, types, where, fn in emits:
            res.count('emissions checked')
            sites.add(where)
            r = by.get(op)
            if r is None:
                res.add('emit|%s' % op, where, 'emission', '%s emits %s, which has no row' % (fn, op))
                continue
            if len(types) != len(r.types):
                res.add('emit|%s|%s' % (op, fn), where, 'emission', '%s emits %s with %d operands, its row has %d' % (fn, r.name, len(types), len(r.types)))
                continue
            for j, (a, b) in enumerate(zip(types, r.types)):
                if a != b and not (a == 'OPTP_PROMISE' and b in ('OPTP_IDX', 'OPTP_INT')) and a is not None:
                    res.add('emit|%s|%s' % (op, fn), where, 'emission', '%s emits %s with an operand %d of type %s, its row says %s' % (fn, r.name, j + 1, str(a)[5:], b[5:]))
    res.count('emitting call sites', len(sites))


def handlers(res):
    """the machine finds in the operands what the row says, and no more"""
    w, gen, tab = codegen.WORLD[0]
    vm = VM(w)
    for r in tab.rows:
        opv = [C(1) if t == 'OPTP_INT' and r.name in ('CALL', 'POP') else
               operand(k, 'p' if t == 'OPTP_STRING' else 'f' if t == 'OPTP_FLOAT' else 'i') for k, t in enumerate(r.types)]
        try:
            h, e, outs = vm.run(r, opv)
        except Budget as b:
            res.note('%s: %s' % (r.name, b))
            continue
        res.count('handlers')
        if not outs:
            res.add('handler|' + r.name, vm.f.name, 'handler', 'the code of %s cannot work on the operands of its row (%s)' % (r.name, ' '.join(t[5:] for t in r.types) or 'none'))
        for ins, k in h.undef:
            if k >= len(r.types):
                res.add('handler|' + r.name, p_where(w, ins), 'handler', 'the code of %s reads operand %d, its row has %d' % (r.name, k + 1, len(r.types)))


def p_where(w, ins):
    return w.p.where(ins)


class BuildHooks(NojaHooks):
    """storing an instruction: the bytes of the executable under construction"""

    def __init__(self, w):
        super().__init__(w)
        self.boundary = frozenset()

    def prop_atoms(self, p):
        out = set()
        for x in p or ():
            for y in x[1:]:
                if isinstance(y, tuple):
                    out |= atoms(y)
        return out

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else (f.name if f is not None else None)
        R = lambda k: e.res(st, args[k])
        if n == 'BucketList_Append2':
            a = ('alloc', 0, 'instruction', ())
            st.prop += (('instr', a, R(2)),)
            e.rng[a] = (4096, 2 ** 63)
            bad = st.clone()
            return [(st, a), (bad, ZERO)]
        if n == 'BucketList_Append':
            bad = st.clone()
            st.prop += (('data', R(1), R(2)),)
            return [(st, ONE), (bad, ZERO)]
        if n == 'BucketList_Size':
            k = sum(1 for x in st.prop if x[0] == 'data')
            a = ('s', 0, 'size%d' % k, (), '', 'i')
            e.rng[a] = (0, 2 ** 30)
            return [(st, a)]
        if n == 'Promise_Size':
            return [(st, C(8))]
        if n == 'Promise_Subscribe2':
            bad = st.clone()
            cell = [x for x in st.prop if x[0] == 'promc']
            v = e.load(fr, st, ins, add(('s', 0, 'builder', (), '', 'p'), C(self.promc)), ('int', 32), None)
            st.prop += (('subscribe', R(0), R(1), e.res(st, v)),)
            return [(st, ONE), (bad, ZERO)]
        if n == 'strlen':
            return [(st, ('s', 0, 'length of %r' % (R(0)[2],), (), '', 'i'))] if R(0)[0] == 's' else None
        return None


def roundtrip(name):
    """what is appended is what is fetched"""
    w, gen, tab = codegen.WORLD[0]
    res = Result()
    p = w.p
    row = [r for r in tab.rows if r.name == name][0]
    ap = [f for f in p.functions.values() if f.name == 'ExeBuilder_Append']
    fe = [f for f in p.functions.values() if f.name == 'Executable_Fetch']
    if not ap or not fe:
        raise Broken('ExeBuilder_Append or Executable_Fetch was not found')
    ap, fe = ap[0], fe[0]
    D = lambda s, n: [o for m, o, ct, sz in p.di_struct(s) if m == n][0]
    variants = [row.types]
    if 'OPTP_IDX' in row.types:
        variants.append(['OPTP_PROMISE' if t == 'OPTP_IDX' else t for t in row.types])
    for types in variants:
        h = BuildHooks(w)
        h.promc = D('xExeBuilder', 'promc')
        e = Unroll(p, w.eff, h)
        e.o.turns = len(tab.rows) + 5
        st = St()
        st.prop = ()
        sy = lambda n, k='i', lo=-2 ** 63, hi=2 ** 63 - 1: e.rng.setdefault(('s', 0, n, (), '', k), (lo, hi)) and ('s', 0, n, (), '', k)
        ptr = lambda n: sy(n, 'p', 4096, 2 ** 63)
        ops = ('alloc', 0, 'ops', ())
        vals = []
        for k, t in enumerate(types):
            v = ptr('string%d' % k) if t == 'OPTP_STRING' else ptr('promise%d' % k) if t == 'OPTP_PROMISE' else \
                sy('value%d' % k, 'f' if t == 'OPTP_FLOAT' else 'i')
            vals.append(v)
            st.mem[add(ops, C(k * tab.op_size + tab.op_type))] = (C(tab.otype[t]), 4, ('raw', 0))
            st.mem[add(ops, C(k * tab.op_size + tab.op_val))] = (v, 8, ('raw', 0))
        b = ptr('builder')
        for n in ('data', 'code'):
            st.mem[add(b, C(D('xExeBuilder', n)))] = (ptr(n), 8, ('raw', 0))
        st.mem[add(b, C(h.promc))] = (sy('promc', 'i', 0, 2 ** 30), 4, ('raw', 0))
        err = ptr('error')
        h.set_error(e, None, st, None, err, ZERO)
        fr = Frame(ap, e.act(0, ap.gid, ()), e.cfg(ap), 0, None, None)
        ct = p.param_ctypes(ap)[1:]
        args = e.params(fr)
        give = {'ExeBuilder*': b, 'Error*': err, 'Operand*': ops}
        ints = [C(len(types)), sy('offset', 'i', 0, 2 ** 31 - 1), sy('length', 'i', 0, 2 ** 31 - 1)]
        for k, t in enumerate(ct):
            if t in give:
                args[k] = give[t]
            elif t == 'Opcode' or t.startswith('enum'):
                args[k] = C(row.opcode)
            else:
                args[k] = ints.pop(0)
        try:
            outs = e.run(fr, args, st)
        except Budget as x:
            res.note('%s: %s' % (row.name, x))
            continue
        tag = '%s%s' % (row.name, '' if types is row.types else ' with a promise')
        if e.cuts:
            res.note('%s: a loop is not followed to its end' % tag)
            continue
        won = [s for s, v in outs if isc(v) and v[1] != 0]
        if not won:
            res.add('append|' + row.name, ap.name, 'storage', '%s cannot be appended with operands of the types in its row' % tag)
            continue
        for s in won:
            fetch(res, w, tab, row, types, vals, e, h, fe, s, D, tag, ap)
    return res


def place(res, w, row, e, s, a, D, tag):
    """the location an instruction was appended with is the one that is read back"""
    p = w.p
    exe = ('alloc', 0, 'exe', ())
    s = s.clone()
    src = ('s', 0, 'source', (), '', 'p')
    e.rng[src] = (4096, 2 ** 63)
    for n, v, sz in (('body', a, 8), ('bodyl', ONE, 4), ('src', src, 8)):
        s.mem[add(exe, C(D('xExecutable', n)))] = (v, sz, ('raw', 0))
    for fn, want in (('Executable_GetInstrOffset', 'offset'), ('Executable_GetInstrLength', 'length')):
        f = [f for f in p.functions.values() if f.name == fn]
        if not f:
            continue
        f = f[0]
        fr = Frame(f, e.act(0, f.gid, (fn,)), e.cfg(f), 0, None, None)
        try:
            outs = e.run(fr, [exe, ZERO], s.clone())
        except Budget:
            continue
        for s2, v in outs:
            v = e.res(s2, v)
            res.count('locations stored and read back')
            if v != ('s', 0, want, (), '', 'i') and (isc(v) or v[0] == 's'):
                res.add('place|%s|%s' % (row.name, fn), fn, 'location', 'the %s of %s is read back as %s' % (want, tag, v[1] if isc(v) else v[2]))


def fetch(res, w, tab, row, types, vals, e, h, fe, s, D, tag, ap):
    p = w.p
    log = s.prop
    ins = [x for x in log if x[0] == 'instr']
    if len(ins) != 1:
        res.add('append|' + row.name, ap.name, 'storage', 'appending %s stores %d instructions' % (tag, len(ins)))
        return
    a = ins[0][1]
    data = [x for x in log if x[0] == 'data']
    subs = [x for x in log if x[0] == 'subscribe']
    strs = [v for v, t in zip(vals, types) if t == 'OPTP_STRING']
    if [x[1] for x in data] != strs:
        res.add('append|' + row.name, ap.name, 'storage', 'appending %s does not store its strings in order' % tag)
        return
    for x in data:
        n = x[2]
        while n[0] == 'op' and n[1] in ('trunc', 'zext', 'sext') and len(n) == 4:
            n = n[3]
        want = ('s', 0, 'length of %r' % (x[1][2],), (), '', 'i')
        k = sub(n, want)
        if isc(k) and k[1] != 1 or isc(n):
            res.add('append|' + row.name, ap.name, 'storage', 'appending %s stores a string without its terminator' % tag if isc(k) and k[1] < 1 else
                    'appending %s does not store the length of a string plus its terminator' % tag)
            return
    place(res, w, row, e, s, a, D, tag)
    # the executable that holds this one instruction
    sy = lambda n, k='i', lo=-2 ** 63, hi=2 ** 63 - 1: e.rng.setdefault(('s', 0, n, (), '', k), (lo, hi)) and ('s', 0, n, (), '', k)
    exe = ('alloc', 0, 'exe', ())
    head = sy('head', 'p', 4096, 2 ** 63)
    for n, v, sz in (('body', a, 8), ('head', head, 8), ('bodyl', ONE, 4), ('headl', sy('headl', 'i', 0, 2 ** 31 - 1), 4)):
        s.mem[add(exe, C(D('xExecutable', n)))] = (v, sz, ('raw', 0))
    dest = {}
    for x in subs:
        for k, (v, t) in enumerate(zip(vals, types)):
            if t == 'OPTP_PROMISE' and v == x[1]:
                got = sy('resolved%d' % k)
                s.mem[x[2]] = (got, 8, ('raw', 0))
                dest[k] = got
    for k, t in enumerate(types):
        if t == 'OPTP_PROMISE' and k not in dest:
            res.add('append|' + row.name, ap.name, 'storage', 'appending %s does not wait for its promise' % tag)
            return
    for j, x in enumerate(subs):
        k = sub(x[3], ('s', 0, 'promc', (), '', 'i'))
        if isc(k) and k[1] != j + 1:
            res.add('promc|' + row.name, ap.name, 'storage', 'appending %s does not count its promise as unfulfilled before subscribing to it' % tag)
    out = ('alloc', 0, 'out', ())
    opc, cnt = ('alloc', 0, 'opcode', ()), ('alloc', 0, 'count', ())
    room = 3
    s.mem[cnt] = (C(room), 4, ('raw', 0))
    for x in (out, opc, cnt, exe):
        e.rng[x] = (4096, 2 ** 63)
    fr = Frame(fe, e.act(0, fe.gid, ('fetch',)), e.cfg(fe), 0, None, None)
    ct = p.param_ctypes(fe)[1:]
    args = e.params(fr)
    for k, t in enumerate(ct):
        args[k] = {'Executable*': exe, 'int': ZERO, 'Opcode*': opc, 'Operand*': out, 'int*': cnt}.get(t, args[k])
    try:
        outs = e.run(fr, args, s)
    except Budget as x:
        res.note('%s: %s' % (tag, x))
        return
    res.count('instructions stored and fetched')
    if not outs:
        res.add('fetch|' + row.name, fe.name, 'storage', '%s cannot be fetched' % tag)
    for s2, v in outs:
        if not (isc(v) and v[1] != 0):
            res.add('fetch|' + row.name, fe.name, 'storage', '%s is not found where it was appended' % tag)
            continue
        at = lambda q, sz: e.res(s2, s2.mem[q][0]) if q in s2.mem else None
        got = at(opc, 4)
        if got != C(row.opcode):
            res.add('fetch|' + row.name, fe.name, 'storage', '%s is fetched as another instruction' % tag)
            continue
        c = at(cnt, 4)
        if c != C(len(types)):
            res.add('fetch|' + row.name, fe.name, 'storage', '%s is fetched with %s operands' % (tag, c[1] if c and isc(c) else 'an unknown number of'))
            continue
        ns = 0
        for k, t in enumerate(types):
            want = dest.get(k, vals[k])
            t2 = row.types[k]
            if t == 'OPTP_STRING':
                want = add(head, ('s', 0, 'size%d' % ns, (), '', 'i'))
                ns += 1
            b = add(out, C(k * tab.op_size))
            gt, gv = at(add(b, C(tab.op_type)), 4), at(add(b, C(tab.op_val)), 8)
            if gt != C(tab.otype[t2]):
                res.add('fetch|' + row.name, fe.name, 'storage', 'operand %d of %s is fetched as another type' % (k + 1, tag))
            elif gv != want:
                res.add('fetch|' + row.name, fe.name, 'storage', 'operand %d of %s is not the one that was appended' % (k + 1, tag))

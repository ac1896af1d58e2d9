"""R01-R04: stack frames, calls, running sources and stack traces."""
from dispatch import *

MAXDEPTH = 16      # nested calls
MAXUSED = 16       # values of one frame


class F(Spec):
    """functions that are not operations of a type"""
    def __init__(self, w, ob, res, n):
        self.w, self.ob, self.res, self.g, self.n = w, ob, res, None, n

    def member(self, struct, n):
        for x, off, ct, z in self.ob.members('struct.' + struct):
            if x == n:
                return off, z
        raise Broken('%s has no member %s' % (struct, n))


class FrameHooks(SlotHooks):
    maybe = frozenset(('Executable_Copy', 'Source_Copy'))


def enum(w, n):
    v = w.p.enums()[0].get(n)
    if v is None:
        raise Broken(n + ' is gone')
    return v


def setup(m, st, kind=None, stack=True):
    """a runtime with a frame of the kind given (None: no frame)"""
    w = m.w
    m.rt = m.a['runtime']
    m.frame = rt(m, 'runtime', 'xRuntime', 'frame')
    m.depth = rt(m, 'runtime', 'xRuntime', 'depth')
    m.stack = rt(m, 'runtime', 'xRuntime', 'stack')
    e = m.e
    e.assume(st, ('ne', m.stack), True)
    e.assume(st, ('ne', m.rt), True)
    m.sused = rt(m, m.stack, 'xStack', 'used')
    m.ssize = rt(m, m.stack, 'xStack', 'size')
    body = [x for x in m.ob.members('struct.xStack') if x[0] == 'body']
    m.sbody = add(m.stack, C(body[0][1]))
    for x in (m.sused, m.ssize):
        e.rng[x] = (0, 2 ** 31 - 1)
    e.assume(st, ('le', sub(m.sused, m.ssize)), True)
    e.rng[m.depth] = (0, MAXDEPTH)
    if kind is None:
        e.assume(st, ('eq', m.frame), True)
        return
    e.assume(st, ('ne', m.frame), True)
    e.assume(st, ('le', sub(C(1), m.depth)), True)
    off = [o for n, o, ct, z in m.ob.members('struct.Frame') if n == 'type'][0]
    st.mem[add(m.frame, C(off))] = (C(enum(w, kind)), 4, ('struct.Frame', 1))
    off = [o for n, o, ct, z in m.ob.members('struct.Frame') if n == 'prev'][0]
    m.prev = ('m', add(m.frame, C(off)), 0, 8, 'p')
    if kind == 'FrameType_NORMAL':
        for n in ('locals', 'closure', 'exe', 'index', 'used'):
            setattr(m, n, rt(m, m.frame, 'NormalFrame', n))
        e.rng[m.used] = (0, MAXUSED)
        e.rng[m.index] = (0, 2 ** 31 - 1)
        e.assume(st, ('le', sub(m.used, m.sused)), True)
        e.assume(st, ('ne', m.exe), True)
    if kind == 'FrameType_FAILED':
        m.source = rt(m, m.frame, 'FailedFrame', 'source')


KINDS = ('FrameType_NORMAL', 'FrameType_NATIVE', 'FrameType_FAILED', None)


def unchanged(s, m, p, what, cells):
    for x, t in cells:
        now = p.at(x[1], x[3], x[4])
        if p.differ(now, x):
            s.bad(m, p, 'changes', '%s changes %s' % (what, t))
            return False
    return True


def moved_to(s, m, p, key, x, to, text):
    now = p.at(x[1], x[3], x[4])
    if p.differ(now, to):
        s.bad(m, p, key, text)
        return False
    return True


def base_cells(m, kind):
    out = [(m.frame, 'the current frame'), (m.depth, 'the number of frames'), (m.sused, 'the values on the stack')]
    if kind == 'FrameType_NORMAL':
        out.append((m.used, 'the number of values of the frame'))
    return out


def pushing(w, ob, res):
    s = F(w, ob, res, 'frames')
    for kind in KINDS:
        m = s.follow(s.fn('Runtime_Push'), ['runtime', 'error', 'obj'], pre=lambda m, st: setup(m, st, kind))
        got = set()
        for p in m.paths:
            if p.ret == ZERO:
                got.add('fails')
                if not p.reports:
                    s.bad(m, p, 'silent', 'a value is not pushed, without an error')
                if unchanged(s, m, p, 'a value that is not pushed', base_cells(m, kind)) and kind == 'FrameType_NORMAL' \
                        and p.case(('le', sub(m.used, C(MAXUSED - 1))), ('le', sub(add(m.sused, ONE), m.ssize))):
                    s.bad(m, p, 'room', 'a value is not pushed though there is room for it')
                continue
            got.add('pushed')
            if kind != 'FrameType_NORMAL':
                s.bad(m, p, 'kind', 'a value is pushed on a frame that has none')
                continue
            if p.reports:
                s.bad(m, p, 'error', 'a value is pushed and an error reported')
            if p.case(('eq', sub(m.used, C(MAXUSED)))):
                s.bad(m, p, 'limit', 'a frame takes more than %d values' % MAXUSED)
            if p.case(('eq', sub(m.sused, m.ssize))):
                s.bad(m, p, 'full', 'a value is pushed on a full stack')
            moved_to(s, m, p, 'used', m.used, add(m.used, ONE), 'the values of the frame are not one more after a value was pushed')
            moved_to(s, m, p, 'stack', m.sused, add(m.sused, ONE), 'the values on the stack are not one more after a value was pushed')
            x = p.cell(add(m.sbody, scale(m.sused, 8)))
            if x is None or x and p.differ(x, m['obj']):
                    s.bad(m, p, 'value', 'what is on top of the stack is not the value that was pushed')
        s.needs(m, ('fails', 'pushed') if kind == 'FrameType_NORMAL' else ('fails',), got)


def popping(w, ob, res):
    s = F(w, ob, res, 'frames')
    for kind in KINDS:
        def pre(m, st):
            setup(m, st, kind)
        m = s.follow(s.fn('Runtime_Pop'), ['runtime', 'error', 'to:q', 'n:w'], pre=pre)
        n = m['n']
        got = set()
        for p in m.paths:
            if p.ret == ZERO:
                got.add('fails')
                if not p.reports:
                    s.bad(m, p, 'silent', 'values are not popped, without an error')
                unchanged(s, m, p, 'popping values that are not there', base_cells(m, kind))
                if kind == 'FrameType_NORMAL' and p.case(('le', sub(n, m.used))):
                    s.bad(m, p, 'there', 'values are not popped though they are there')
                continue
            if kind != 'FrameType_NORMAL':
                s.bad(m, p, 'kind', 'values are popped from a frame that has none')
                continue
            got.add('popped')
            if p.case(('le', sub(add(m.used, ONE), n))):
                s.bad(m, p, 'below', 'more values are popped than the frame has')
                continue
            moved_to(s, m, p, 'used', m.used, sub(m.used, n), 'the values of the frame are not fewer by those popped')
            moved_to(s, m, p, 'stack', m.sused, sub(m.sused, n), 'the values on the stack are not fewer by those popped')
            lo, hi = p.e.bounds(p.st, n)
            null = p.true(('eq', m['to']))
            if null is True:
                if [x for x in p.kind('store') if root(x[1]) == m['to']]:
                    s.bad(m, p, 'null', 'popped values are stored though they were not asked for')
            elif null is False and lo == hi and hi <= 4:
                got.add('stored')
                for k in range(hi):
                    x = p.cell(add(m['to'], C(8 * k)))
                    top = ('m', p.res(add(m.sbody, scale(sub(m.sused, C(k + 1)), 8))), 0, 8, 'p')
                    if x is None or x and p.differ(x, top):
                        s.bad(m, p, 'order', 'the values popped are not those on top of the stack, the topmost first')
                        break
        s.needs(m, ('fails', 'popped', 'stored') if kind == 'FrameType_NORMAL' else ('fails',), got)
    # looking at the top
    for kind in KINDS[:3]:
        def pre(m, st):
            setup(m, st, kind)
            m.e.assume(st, ('le', m['n']), True)
        m = s.follow(s.fn('Runtime_Top'), ['runtime', 'n:i'], pre=pre)
        got = set()
        for p in m.paths:
            unchanged(s, m, p, 'looking at a value', base_cells(m, kind))
            if p.ret == ZERO:
                got.add('none')
                if kind == 'FrameType_NORMAL' and p.case(('le', sub(ONE, add(m.used, m['n'])))):
                    s.bad(m, p, 'there', 'a value of the frame cannot be looked at')
                continue
            got.add('value')
            if kind != 'FrameType_NORMAL' or p.case(('le', add(m.used, m['n']))):
                s.bad(m, p, 'below', 'values that are not of the frame can be looked at')
            elif p.differ(p.ret, ('m', p.res(add(m.sbody, scale(add(m.sused, sub(m['n'], ONE)), 8))), 0, 8, 'p')):
                s.bad(m, p, 'which', 'another value than the one asked for is looked at')
        s.needs(m, ('none', 'value') if kind == 'FrameType_NORMAL' else ('none',), got)
    for kind in KINDS[:3]:
        m = s.follow(s.fn('Runtime_GetFrameStackUsage'), ['runtime'], pre=lambda m, st: setup(m, st, kind))
        for p in m.paths:
            res.count('outcomes')
            if p.differ(p.ret, m.used if kind == 'FrameType_NORMAL' else ZERO):
                s.bad(m, p, 'count', 'the number of values of a frame is another')


def freed(p, what):
    return [x for x in p.ev if x[0] == 'ext' and x[1] == 'free' and p.same(x[2][0], what)]


def frames(w, ob, res):
    s = F(w, ob, res, 'frames')
    off = {k: s.member('Frame', k)[0] for k in ('prev', 'type')}
    spec = [('Runtime_PushFrame', ['runtime', 'error', 'closure:q', 'exe', 'index:i'], 'FrameType_NORMAL'),
            ('Runtime_PushNativeFrame', ['runtime', 'error'], 'FrameType_NATIVE'),
            ('Runtime_PushFailedFrame', ['runtime', 'error', 'source', 'offset:i'], 'FrameType_FAILED')]
    for fn, args, kind in spec:
        for cur in (None, 'FrameType_NORMAL'):
            m = s.follow(s.fn(fn), args, pre=lambda m, st: setup(m, st, cur), hooks=FrameHooks, record=('Executable_Copy', 'Executable_Free', 'Source_Copy', 'Source_Free'))
            got = set()
            for p in m.paths:
                cp = p.calls('Executable_Copy') + p.calls('Source_Copy')
                cp = [x for x in cp if x[3] != ZERO]
                fr_ = p.calls('Executable_Free') + p.calls('Source_Free')
                if p.ret == ZERO:
                    got.add('fails')
                    if not p.reports and not p.failed:
                        s.bad(m, p, 'silent', 'a frame is not entered, without an error')
                    unchanged(s, m, p, 'a frame that is not entered', base_cells(m, cur))
                    for x in cp:
                        if len([y for y in fr_ if p.same(y[2][0], x[3])]) != 1:
                            s.bad(m, p, 'leak', 'the code of a frame that is not entered is not released exactly once')
                    if any(not any(p.same(y[2][0], x[3]) for x in cp) for y in fr_):
                        s.bad(m, p, 'early', 'a frame that is not entered releases what it does not hold')
                    for x in p.kind('alloc'):
                        if x[1] == 'malloc' and x[3] != ZERO and len(freed(p, x[3])) != 1:
                            s.bad(m, p, 'leak', 'a frame that is not entered is not freed exactly once')
                    if not any(x[0] == 'failed' for x in p.ev) and not any(x[0] == 'alloc' and x[3] == ZERO for x in p.ev) and p.case(('le', sub(m.depth, C(MAXDEPTH - 1)))):
                        s.bad(m, p, 'room', 'a frame is not entered though there are fewer than %d' % MAXDEPTH)
                    continue
                got.add('entered')
                if p.failed or p.reports:
                    s.bad(m, p, 'error', 'a frame is entered after a failure')
                    continue
                if p.case(('eq', sub(m.depth, C(MAXDEPTH)))):
                    s.bad(m, p, 'limit', 'more than %d frames are entered' % MAXDEPTH)
                moved_to(s, m, p, 'depth', m.depth, add(m.depth, ONE), 'the number of frames is not one more after one was entered')
                unchanged(s, m, p, 'entering a frame', [(m.sused, 'the values on the stack')])
                new = p.at(m.frame[1], 8, 'p')
                if p.same(new, m.frame):
                    s.bad(m, p, 'frame', 'the frame entered does not become the current one')
                    continue
                if fr_ or freed(p, new):
                    s.bad(m, p, 'early', 'the frame entered, or its code, is released')
                if p.differ(p.at(add(new, C(off['type'])), 4), C(enum(w, kind))):
                    s.bad(m, p, 'type', 'the frame entered is of another kind')
                if p.differ(p.at(add(new, C(off['prev'])), 8, 'p'), m.frame):
                    s.bad(m, p, 'prev', 'the frame entered does not lead back to the one before')
                fields = []
                if kind == 'FrameType_NORMAL':
                    mp = p.calls('Object_NewMap')
                    fields = [('NormalFrame', 'closure', m['closure'], 'p'), ('NormalFrame', 'index', m['index'], 'i'), ('NormalFrame', 'used', ZERO, 'i')]
                    ex = p.calls('Executable_Copy')
                    if len(ex) == 1 and p.same(ex[0][2][0], m['exe']):
                        fields.append(('NormalFrame', 'exe', ex[0][3], 'p'))
                    else:
                        s.bad(m, p, 'exe', 'the code of the frame entered is not held')
                    if mp:
                        fields.append(('NormalFrame', 'locals', mp[-1][3], 'p'))
                    else:
                        s.bad(m, p, 'locals', 'the frame entered has no variables of its own')
                if kind == 'FrameType_FAILED':
                    sc = p.calls('Source_Copy')
                    fields = [('FailedFrame', 'offset', m['offset'], 'i')]
                    if len(sc) == 1 and p.same(sc[0][2][0], m['source']):
                        fields.append(('FailedFrame', 'source', sc[0][3], 'p'))
                    else:
                        s.bad(m, p, 'source', 'the source of the frame entered is not held')
                for st_, n, v, k in fields:
                    o, z = s.member(st_, n)
                    if p.differ(p.at(add(new, C(o)), z, k), v):
                        s.bad(m, p, 'field ' + n, 'the %s of the frame entered is another' % n)
            s.needs(m, ('entered', 'fails'), got)
    for kind in KINDS:
        m = s.follow(s.fn('Runtime_PopFrame'), ['runtime'], pre=lambda m, st: setup(m, st, kind), hooks=FrameHooks, record=('Executable_Free', 'Source_Free'))
        for p in m.paths:
            res.count('outcomes')
            if kind is None:
                if p.ret != ZERO:
                    s.bad(m, p, 'none', 'a frame is left though there is none')
                unchanged(s, m, p, 'leaving no frame', base_cells(m, kind))
                continue
            if p.ret == ZERO:
                s.bad(m, p, 'left', 'a frame cannot be left')
                continue
            moved_to(s, m, p, 'frame', m.frame, m.prev, 'leaving a frame does not lead back to the one before')
            moved_to(s, m, p, 'depth', m.depth, sub(m.depth, ONE), 'the number of frames is not one less after one was left')
            moved_to(s, m, p, 'stack', m.sused, sub(m.sused, m.used) if kind == 'FrameType_NORMAL' else m.sused, 'leaving a frame does not remove exactly its values from the stack')
            ef, sf = p.calls('Executable_Free'), p.calls('Source_Free')
            if len(freed(p, m.frame)) != (kind != 'FrameType_FAILED'):
                s.bad(m, p, 'free', 'the memory of the frame that was left is not freed exactly if it was allocated')
            if kind == 'FrameType_NORMAL' and (len(ef) != 1 or p.differ(ef[0][2][0], m.exe)):
                s.bad(m, p, 'exe', 'the code of the frame that was left is not released once')
            if kind == 'FrameType_FAILED' and (len(sf) != 1 or p.differ(sf[0][2][0], m.source)):
                s.bad(m, p, 'source', 'the source of the frame that was left is not released once')


def stack(w, ob, res):
    """the functions of the stack itself"""
    s = F(w, ob, res, 'stack')

    def pre(m, st):
        a = m.a['stack']
        m.e.assume(st, ('ne', a), True)
        m.used, m.size = rt(m, a, 'xStack', 'used'), rt(m, a, 'xStack', 'size')
        m.body = add(a, C(s.member('xStack', 'body')[0]))
        for x in (m.used, m.size):
            m.e.rng[x] = (0, 2 ** 31 - 1)
        m.e.assume(st, ('le', sub(m.used, m.size)), True)
        if 'n' in m.a and m.f.name != 'Stack_Pop':
            m.e.assume(st, ('le', m['n']), True)
    m = s.follow(s.fn('Stack_Push'), ['stack', 'item'], pre=pre)
    for p in m.paths:
        res.count('outcomes')
        if p.ret == ZERO:
            if p.case(('le', sub(add(m.used, ONE), m.size))):
                s.bad(m, p, 'full', 'a value is not pushed though there is room for it')
            unchanged(s, m, p, 'a push that fails', [(m.used, 'the number of values')])
            continue
        if p.case(('eq', sub(m.used, m.size))):
            s.bad(m, p, 'full', 'a value is pushed on a full stack')
        moved_to(s, m, p, 'used', m.used, add(m.used, ONE), 'the values are not one more after a push')
        x = p.cell(add(m.body, scale(m.used, 8)))
        if x is None or x and p.differ(x, m['item']):
            s.bad(m, p, 'value', 'the value on top is not the one pushed')
    m = s.follow(s.fn('Stack_Pop'), ['stack', 'n:w'], pre=pre)
    for p in m.paths:
        res.count('outcomes')
        if p.ret == ZERO:
            if p.case(('le', sub(m['n'], m.used))):
                s.bad(m, p, 'there', 'values are not popped though they are there')
            unchanged(s, m, p, 'a pop that fails', [(m.used, 'the number of values')])
        elif p.case(('le', sub(add(m.used, ONE), m['n']))):
            s.bad(m, p, 'empty', 'more values are popped than there are')
        else:
            moved_to(s, m, p, 'used', m.used, sub(m.used, m['n']), 'the values are not fewer by those popped')
    for fn in ('Stack_Top', 'Stack_TopRef'):
        m = s.follow(s.fn(fn), ['stack', 'n:i'], pre=pre)
        for p in m.paths:
            res.count('outcomes')
            a = add(m.body, scale(add(m.used, sub(m['n'], ONE)), 8))
            if p.ret == ZERO:
                if p.case(('le', sub(ONE, add(m.used, m['n'])))):
                    s.bad(m, p, 'there', 'a value that is there cannot be looked at')
            elif p.case(('le', add(m.used, m['n']))):
                s.bad(m, p, 'below', 'something below the stack is looked at')
            elif p.differ(p.ret, ('m', p.res(a), 0, 8, 'p') if fn == 'Stack_Top' else a):
                s.bad(m, p, 'which', 'another value than the one asked for is looked at')
    for fn, n in (('Stack_Size', 'used'), ('Stack_Capacity', 'size')):
        m = s.follow(s.fn(fn), ['stack'], pre=pre)
        for p in m.paths:
            res.count('outcomes')
            if p.differ(p.ret, getattr(m, n)):
                s.bad(m, p, 'number', 'the number given is another')
    m = s.follow(s.fn('Stack_New'), ['size:i'])
    for p in m.paths:
        al = [x for x in p.kind('alloc')]
        if p.ret == ZERO:
            continue
        res.count('outcomes')
        n = p.at(add(p.ret, C(s.member('xStack', 'size')[0])), 4)
        if p.differ(p.at(add(p.ret, C(s.member('xStack', 'used')[0])), 4), ZERO):
            s.bad(m, p, 'used', 'a new stack is not empty')
        if p.true(('le', sub(ZERO, m['size']))) is True and p.differ(n, m['size']):
            s.bad(m, p, 'size', 'a new stack is not of the size asked for')
        z = [x for x in al if x[3] == p.ret]
        if z:
            need = add(C(s.member('xStack', 'body')[0]), scale(n, 8))
            short = p.may(('le', sub(add(z[0][2], ONE), need)))
            if short:
                s.bad(m, p, 'room', 'a new stack does not have room for the values it promises')


def stack_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    stack(w, ob, res)
    pushing(w, ob, res)
    popping(w, ob, res)
    frames(w, ob, res)
    res.need('operations', 15)
    res.need('outcomes', 25)
    return res


# ------------------------------------------------------------- calls

LEAVE = ('Runtime_PushFrame', 'Runtime_PushNativeFrame', 'Runtime_PushFailedFrame', 'Runtime_PopFrame', 'Runtime_Push', 'Runtime_Top', 'Runtime_GetFrameStackUsage',
         'Runtime_CollectGarbage', 'Runtime_GetTimingTable', 'Runtime_Pop', 'runInstruction', 'Heap_GetUsagePercentage', 'TimingTable_sumCallTime', 'TimingTable_newEntry',
         'Executable_Copy', 'Executable_Free', 'Executable_GetSource', 'Source_Free', 'Source_Copy', 'Source_FromFile', 'Source_FromString', 'compile', 'assemble', 'clock')


def runs(e, st, n):
    return len([x for x in st.prop if x[0] == 'call' and x[1] == n])


class RunHooks(FrameHooks):
    """frames, values and single instructions are left to the functions that are checked on their own"""
    usage = (0, 10)
    most = 1
    runtime = None
    reads = None

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        if n == 'runInstruction':
            return self.instruction(e, fr, st, ins, f, R)
        if n == 'Runtime_GetFrameStackUsage':
            v = self.tok(e, st, n, 'i', *self.usage)
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n == 'Heap_GetUsagePercentage':
            v = ('s', 0, 'usage #%d' % len(st.prop), (), '', 'f')
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n == 'Runtime_Top':
            v = self.tok(e, st, n)
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n == 'Runtime_PopFrame':
            # fails only without a frame
            self.note(st, 'call', n, R, ONE)
            return [(st, ONE)]
        if n in ('compile', 'assemble'):
            out = self.other(e, fr, st, ins, f, n, R)
            for s, v in out:
                if v == ZERO:
                    x = self.tok(e, s, 'offset', 'i', -1, 2 ** 31 - 1)
                    e.put(fr, s, ins, R[2], x, 4, None)
                    self.note(s, 'offset', x)
            return out
        if n == 'Runtime_GetTimingTable':
            no = st.clone()
            v = self.tok(e, st, n)
            self.note(st, 'call', n, R, v)
            self.note(no, 'call', n, R, ZERO)
            return [(st, v), (no, ZERO)]
        if n == 'clock':
            return [(st, e.sym(fr, st, ins, ins.ty))]
        return super().on_call(e, fr, st, ins, f, args)

    def instruction(self, e, fr, st, ins, f, R):
        k = runs(e, st, 'runInstruction')
        self.late(e, st)
        bad = st.clone()
        self.note(bad, 'call', 'runInstruction', R, ZERO)
        self.fail(e, fr, bad, ins, R[1])
        end = st.clone()
        self.note(end, 'call', 'runInstruction', R, ZERO)
        out = [(bad, ZERO), (end, ZERO)]
        if k < self.most:
            self.note(st, 'call', 'runInstruction', R, ONE)
            self.afresh(e, st)
            out.append((st, ONE))
        else:
            self.note(st, 'cut')
        self.afresh(e, bad)
        self.afresh(e, end)
        return out

    flag = None

    def late(self, e, st):
        pass

    def afresh(self, e, st):
        """the program may be interrupted at any time"""
        if self.runtime is not None:
            v = ('s', 0, 'interrupted #%d' % len(st.prop), (), '', 'i')
            e.rng[v] = (0, 1)
            st.mem[self.runtime] = (v, 1, None)
            self.note(st, 'poll', v)

    def by_pointer(self, e, fr, st, ins, fp, ts, args):
        R = tuple(e.res(st, a) for a in args)
        if self.reads is not None and len(R) > self.reads[0]:
            a, n = self.reads
            vals = ()
            if isc(R[n]) and 0 <= R[n][1] <= 8:
                vals = tuple(e.res(st, e.load(fr, st, ins, add(R[a], C(8 * k)), PTR, None)) for k in range(R[n][1]))
                for v in vals:
                    e.rng.setdefault(v, (0, 2 ** 63))
            self.note(st, 'args', vals, isc(R[n]))
        out = super().by_pointer(e, fr, st, ins, fp, ts, args)
        for s, v in out:
            self.afresh(e, s)
        return out


def call_args(p, m, argv, a, e_, vals, none):
    """are these the values given, and none for those missing?"""
    for k, v in enumerate(vals):
        if k < a:
            want = ('m', add(argv, C(8 * k)), 0, 8, 'p')
            if p.differ(v, want):
                return False
        elif not any(p.same(v, x) for x in none):
            if v in [x for x in none] or not lost(v):
                return False
    return True


def calls(w, ob, res):
    sizes = [(e_, a) for e_ in range(0, 4) for a in range(0, 4)]
    s = Spec(w, ob, res, 't_func')
    if s.slot('call') is None:
        raise Broken('functions cannot be called')
    got = set()
    for e_, a in sizes:
        def pre(m, st):
            for n in ('argc',):
                x = m.field(n)
                st.mem[x[1]] = (C(e_), 4, None)
            st.mem.update({})
            m.e.h.err = m.a['error']
        m = s.follow('call', ['self', 'argv', C(a), 'rets', 'heap', 'error'], pre=pre, hooks=RunHooks, record=LEAVE, turns=16)
        what = '%d values for %d arguments' % (a, e_)
        for p in m.paths:
            check_frame(s, m, p, what)
            entered = [x for x in p.calls('Runtime_PushFrame')]
            none = [x[3] for x in p.calls('Object_NewNone')]
            for x in entered:
                if p.differ(x[2][0], m.field('runtime')) or p.differ(x[2][2], m.field('closure')) or p.differ(x[2][3], m.field('exe')) or p.differ(x[2][4], m.field('index')):
                    s.bad(m, p, 'frame', 'a call enters another code, place or closure than that of the function')
            pushed = p.calls('Runtime_Push')
            ran = p.calls('runInstruction')
            if any(x[3] == ZERO for x in pushed) and ran:
                s.bad(m, p, 'push', 'a call goes on after an argument could not be passed')
                continue
            if not call_args(p, m, m['argv'], a, e_, [x[2][2] for x in pushed], none):
                s.bad(m, p, 'args', 'the arguments of a call are not the values given, in their order, and none for those missing (%s)' % what)
                continue
            if ran and len(pushed) != e_:
                s.bad(m, p, 'number', 'a call passes %d arguments to a function that has %d' % (len(pushed), e_))
                continue
            if ran:
                got.add((e_, a))
            result(s, m, p, m['rets'])
            for x in p.kind('alloc'):
                if x[1] == 'malloc' and any(p.ev.index(y) < p.ev.index(z) for y in freed(p, x[3]) for z in pushed):
                    s.bad(m, p, 'early', 'the memory for the arguments is freed before they are passed')
                if x[1] == 'malloc' and x[3] != ZERO and len(freed(p, x[3])) != 1:
                    s.bad(m, p, 'leak', 'the memory for the arguments is not freed exactly once')
    res.count('outcomes', len(got))
    native(w, ob, res, sizes)
    made_functions(w, ob, res)


def check_frame(s, m, p, what):
    """one frame is entered before anything is pushed or run, and left exactly on success"""
    seq = [x for x in p.ev if x[0] == 'call' and x[1] in ('Runtime_PushFrame', 'Runtime_Push', 'runInstruction', 'Runtime_PopFrame', 'Runtime_Top', 'Runtime_GetFrameStackUsage')]
    ent = [x for x in seq if x[1] == 'Runtime_PushFrame']
    left = [x for x in seq if x[1] == 'Runtime_PopFrame']
    if len(ent) > 1 or seq and seq[0][1] != 'Runtime_PushFrame':
        s.bad(m, p, 'enter', 'a call does not enter a frame of its own first, once')
    elif ent and ent[0][3] == ZERO and len(seq) > 1:
        s.bad(m, p, 'enter', 'a call goes on though its frame could not be entered')
    elif (p.failed or p.reports) and left:
        s.bad(m, p, 'leave', 'a call that failed leaves its frame')
    elif not p.failed and not p.reports and ent and (p.ret is None or p.true(('le', add(p.ret, ONE))) is False) and (len(left) != 1 or seq[-1] != left[0]):
        s.bad(m, p, 'leave', 'a call does not leave its frame exactly once, at its end')


def result(s, m, p, rets, limit=8):
    """the results are the values left, in their order"""
    if p.failed or p.reports:
        if p.ret is not None and p.true(('le', ZERO)) is not None and p.case(('le', sub(ZERO, p.ret))):
            s.bad(m, p, 'failed', 'a call that failed gives results')
        return
    n = p.calls('Runtime_GetFrameStackUsage')
    if not n or p.ret is None:
        if p.calls('runInstruction'):
            s.bad(m, p, 'results', 'the results of a call are not looked at')
        return
    n = n[-1][3]
    if p.differ(p.ret, n):
        s.bad(m, p, 'count', 'the number of results is not the number of values the function leaves')
        return
    lo, hi = p.e.bounds(p.st, n)
    if p.case(('le', sub(C(limit + 1), n))):
        s.bad(m, p, 'many', 'more than %d results are given' % limit)
    if lo != hi:
        return
    s.res.count('results followed')
    for k in range(hi):
        x = p.cell(add(rets, C(8 * k)))
        top = [y for y in p.calls('Runtime_Top') if x and p.same(y[3], x)]
        if x is None or x and (not top and not lost(x) or top and p.differ(top[0][2][1], C(k - hi + 1))):
            s.bad(m, p, 'order', 'the results of a call are not the values the function leaves, in their order')
            return


def native(w, ob, res, sizes):
    s = Spec(w, ob, res, 't_nfunc')
    if s.slot('call') is None:
        raise Broken('native functions cannot be called')
    got = set()
    for e_, a in sizes + [(-1, 0), (-1, 1), (-1, 3)]:
        class H(RunHooks):
            reads = (1, 2)

        def pre(m, st):
            x = m.field('argc')
            st.mem[x[1]] = (C(e_), 4, None)
            m.e.h.err = m.a['error']
        m = s.follow('call', ['self', 'argv', C(a), 'rets', 'heap', 'error'], pre=pre, hooks=H, record=LEAVE, turns=16)
        want = a if e_ < 0 else e_
        for p in m.paths:
            cb = p.kind('slot')
            args = p.kind('args')
            ent = p.calls('Runtime_PushNativeFrame')
            left = p.calls('Runtime_PopFrame')
            none = [x[3] for x in p.calls('Object_NewNone')]
            for x in p.kind('alloc'):
                if x[1] == 'malloc' and x[3] != ZERO and len(freed(p, x[3])) != 1:
                    s.bad(m, p, 'leak', 'the memory for the arguments is not freed exactly once')
            if not cb:
                if not p.failed and not any(x[0] == 'alloc' and x[3] == ZERO for x in p.ev):
                    s.bad(m, p, 'call', 'a call of a native function does not call it')
                elif p.case(('le', sub(ZERO, p.ret))):
                    s.bad(m, p, 'failed', 'a call that failed gives results')
                continue
            c = cb[0]
            got.add((e_, a))
            if len(cb) > 1 or p.differ(c[1], m.field('callback')):
                s.bad(m, p, 'once', 'a call of a native function does not call it exactly once')
                continue
            at = p.ev.index(c)
            if len(ent) != 1 or ent[0][3] == ZERO or p.ev.index(ent[0]) > at or p.differ(ent[0][2][0], m.field('runtime')):
                s.bad(m, p, 'enter', 'a native function is called without a frame of its own')
                continue
            if p.differ(c[2][2], C(want)):
                s.bad(m, p, 'number', 'a native function of %s arguments called with %d is given another number' % (e_ if e_ >= 0 else 'any number of', a))
                continue
            if args and args[0][2] and not call_args(p, m, m['argv'], a, e_, args[0][1], none):
                s.bad(m, p, 'args', 'the arguments of a call are not the values given, in their order, and none for those missing (%d values for %d arguments)' % (a, e_))
            for k, x, t in ((0, m.field('runtime'), 'runtime'), (3, m['rets'], 'place for results'), (4, m['error'], 'error')):
                if p.differ(c[2][k], x):
                    s.bad(m, p, t, 'a native function is given another %s' % t)
            if p.differ(p.ret, c[3]):
                s.bad(m, p, 'result', 'the number of results of a native function is another')
            n = len([x for x in left if p.ev.index(x) > at])
            if n != 1 and p.case(('le', sub(ZERO, c[3]))):
                s.bad(m, p, 'leave', 'a native function that succeeded does not leave its frame exactly once')
            elif left and p.case(('le', add(c[3], ONE))):
                s.bad(m, p, 'leave', 'a native function that failed leaves its frame')
            for x in p.kind('alloc'):
                if x[1] == 'malloc' and p.same(root(p.res(c[2][1])) or ZERO, x[3]) and any(p.ev.index(y) < at for y in freed(p, x[3])):
                    s.bad(m, p, 'early', 'the memory for the arguments is freed before the call')
    res.count('outcomes', len(got))


def made_functions(w, ob, res):
    s = Spec(w, ob, res, 't_nfunc')
    m = s.follow(s.fn('Object_FromNativeFunction'), ['runtime', 'callback', 'argc:i', 'heap', 'error'])
    for p in m.paths:
        if p.ret != ZERO:
            res.count('outcomes')
            made(s, m, p, 't_nfunc', [(fo(m, 'runtime'), m['runtime']), (fo(m, 'callback'), m['callback']), (fo(m, 'argc'), m['argc'])])
    s = Spec(w, ob, res, 't_func')
    m = s.follow(s.fn('Object_FromNojaFunction'), ['runtime', 'name', 'exe', 'index:u', 'argc:u', 'closure:q', 'heap', 'error'], hooks=RunHooks, record=LEAVE)
    for p in m.paths:
        if p.ret == ZERO:
            continue
        res.count('outcomes')
        cp = p.calls('Executable_Copy')
        if len(cp) != 1 or p.differ(cp[0][2][0], m['exe']):
            s.bad(m, p, 'exe', 'a function does not hold its code')
            continue
        made(s, m, p, 't_func', [(fo(m, 'runtime'), m['runtime']), (fo(m, 'exe'), cp[0][3]), (fo(m, 'closure'), m['closure'])])
        for n in ('index', 'argc'):
            x = p.at(add(p.ret, fo(m, n) if isinstance(fo(m, n), tuple) else C(fo(m, n))), 4)
            if p.differ(x, m[n]):
                s.bad(m, p, n, 'the %s of a function is another' % n)


def calls_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    calls(w, ob, res)
    res.need('operations', 18)
    res.need('outcomes', 18)
    res.need('results followed', 8)
    return res


# ------------------------------------------------------------- running

def polling(w, ob, res):
    """between instructions: interruption, the callback of the embedder, collection"""
    s = Spec(w, ob, res, 't_func')
    class H(RunHooks):
        most = 2

    def pre(m, st):
        h = m.e.h
        st.mem[m.field('argc')[1]] = (ZERO, 4, None)
        m.rt = m.field('runtime')
        m.e.assume(st, ('ne', m.rt), True)
        cell = rt(m, m.rt, 'xRuntime', 'interrupt')
        h.runtime = cell[1]
        h.err = None
        h.afresh(m.e, st)
        m.cb = None
        for n, off, ct, z in m.ob.members('struct.xRuntime'):
            if n == 'callback':
                o = {x: y for x, y, c, zz in (w.p.di_struct('RuntimeCallback') or [])}
                m.cb = ('m', add(m.rt, C(off + o.get('func', 0))), 0, 8, 'p')
                m.data = ('m', add(m.rt, C(off + o.get('data', 8))), 0, 8, 'p')
        if m.cb is None:
            raise Broken('the runtime has no callback')
        m.e.rng[m.cb] = (0, 2 ** 63 - 1)
    m = s.follow('call', ['self', 'argv', C(0), 'rets', 'heap', 'error'], pre=pre, hooks=H, record=LEAVE, turns=8)
    if m is None:
        raise Broken('functions cannot be called')
    got = set()
    for p in m.paths:
        poll = None
        asked = None           # the answer of the callback since the last instruction
        stop = False
        last = None
        for k, x in enumerate(p.ev):
            if x[0] == 'poll':
                now = x[1]
                if poll is None or last == 'run':
                    poll, asked = now, None
            elif x[0] == 'slot':
                if p.differ(x[1], m.cb):
                    continue
                asked = x[3]
                if p.differ(x[2][0], m.rt) or p.differ(x[2][1], m.data):
                    s.bad(m, p, 'callback', 'the callback is given something else than the runtime and its data')
                if asked == ZERO:
                    got.add('refused')
                    stop = 'the callback asked to stop'
                last = 'cb'
                continue
            elif x[0] == 'call' and x[1] == 'Runtime_CollectGarbage':
                if p.differ(x[2][0], m.rt):
                    s.bad(m, p, 'collect', 'the garbage of something else is collected')
                if x[3] == ZERO:
                    stop = 'a collection failed'
                got.add('collected')
            elif x[0] == 'call' and x[1] == 'runInstruction':
                if stop:
                    s.bad(m, p, 'on', 'an instruction is run after %s' % stop)
                    break
                if poll is not None and p.true(('eq', poll)) is not True and p.may(('ne', poll)):
                    s.bad(m, p, 'interrupt', 'an instruction is run without looking whether the program was interrupted')
                    break
                if asked is None and p.true(('eq', m.cb)) is not True and p.may(('ne', m.cb)):
                    s.bad(m, p, 'ask', 'an instruction is run without asking the callback')
                    break
                got.add('ran')
                if x[3] == ZERO:
                    stop = 'the program ended'
                last = 'run'
                continue
        else:
            n = p.calls('runInstruction')
            cut = any(x[0] == 'cut' for x in p.ev)
            if p.true(('le', add(p.ret, ONE))) is False:
                if p.failed or p.reports:
                    s.bad(m, p, 'success', 'a program that failed or was stopped is taken for one that ended')
                elif not n or n[-1][3] != ZERO:
                    s.bad(m, p, 'end', 'a program is taken for one that ended before it did')
            elif p.true(('le', add(p.ret, ONE))) is True and not p.failed and not p.reports:
                s.bad(m, p, 'silent', 'a program fails without an error')
    for p in m.paths:
        seq = [x for x in p.ev if x[0] == 'call' and x[1] in ('runInstruction', 'Heap_GetUsagePercentage', 'Runtime_CollectGarbage')]
        for k, x in enumerate(seq):
            if x[1] != 'runInstruction' or x[3] == ZERO:
                continue
            nxt = next((j for j in range(k + 1, len(seq)) if seq[j][1] == 'runInstruction'), None)
            if nxt is None or any(y[1] == 'Runtime_CollectGarbage' for y in seq[k:nxt]):
                continue
            u = [y for y in seq[k:nxt] if y[1] == 'Heap_GetUsagePercentage']
            if not u:
                s.bad(m, p, 'look', 'between instructions it is not looked whether the heap is full')
            elif all(holds_at(p, y[3], 1000.0) for y in u):
                s.bad(m, p, 'full', 'the garbage of a heap that is more than full is not collected before the next instruction')
    s.needs(m, ('ran', 'refused', 'collected'), got)


def holds_at(p, x, v):
    """can the number be this one on the path, as far as it is compared with constants"""
    import operator
    ops = {'gt': operator.gt, 'ge': operator.ge, 'lt': operator.lt, 'le': operator.le, 'eq': operator.eq, 'ne': operator.ne}
    for k, t in p.st.tr.items():
        if x not in atoms(k):
            continue
        if k[0] == 'fcmp' and k[1][1:] in ops:
            a, b = k[2], k[3]
            if a == x and b[0] == 'f':
                r = ops[k[1][1:]](v, b[1])
            elif b == x and a[0] == 'f':
                r = ops[k[1][1:]](a[1], v)
            else:
                return False
            if r != t:
                return False
        elif k[0] != 'not':
            return False
    return True


def polling_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    polling(w, ob, res)
    res.need('operations', 1)
    res.need('outcomes', 3)
    return res

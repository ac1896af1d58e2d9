"""R06-R08: stack traces, errors, paths."""
import itertools, re
from running import *

TR = ('Executable_GetSource', 'Executable_GetInstrOffset', 'Source_GetName', 'Source_GetBody')
SPEC = re.compile(r'%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j|t)?([diuxXscp%])')


class TraceHooks(FrameHooks):
    offsets = (-1, 0, 2)

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        if n in ('Executable_GetSource', 'Source_GetName') and not fr_root(fr, n):
            no = st.clone()
            v = self.tok(e, st, n)
            e.assume(st, ('ne', v), True)
            self.note(st, 'call', n, R, v)
            self.note(no, 'call', n, R, ZERO)
            return [(st, v), (no, ZERO)]
        if n == 'Source_GetBody' and not fr_root(fr, n):
            v = self.tok(e, st, n)
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n == 'Executable_GetInstrOffset' and not fr_root(fr, n):
            out = []
            for k in self.offsets:
                s = st.clone()
                self.note(s, 'call', n, R, C(k))
                out.append((s, C(k)))
            return out
        return super().on_call(e, fr, st, ins, f, args)


def fr_root(fr, n):
    return fr.depth == 0 and fr.fn.name == n


def lines_of(p):
    """[(text with numbered holes, the values for them)] of what is printed; None if that is not known"""
    out, text, vals = [], '', []
    t = printed(p)
    if t is None:
        return None
    for x in t:
        if x[0] != 'fmt':
            return None
        f, args, i, pos = x[1], list(x[2]), 0, 0
        for mm in SPEC.finditer(f):
            text += f[pos:mm.start()]
            pos = mm.end()
            if mm.group(1) == '%':
                text += '%'
                continue
            if i >= len(args):
                return None
            v = args[i]
            i += 1
            v = p.res(v)
            s = p.m.w.p.cstr(v) if v[0] in ('g', 'lin') and mm.group(1) == 's' else None
            if s is not None:
                text += s
            elif isc(v) and mm.group(1) in 'diu':
                text += str(v[1])
            else:
                text += '\0'
                vals.append(v)
        text += f[pos:]
    for k, ln in enumerate(text.split('\n')):
        n = ln.count('\0')
        out.append((ln, vals[:n]))
        vals = vals[n:]
    if out and out[-1][0] == '':
        out.pop()
    return out


def chain(m, st, kinds):
    """a runtime whose frames, innermost first, are of the kinds given"""
    w = m.w
    F_ = {n: (o, z) for n, o, ct, z in m.ob.members('struct.Frame')}
    at = rt(m, 'runtime', 'xRuntime', 'frame')
    m.frames = []
    cell = at
    for k, kind in enumerate(kinds):
        fp = ('s', 0, 'frame %d' % k, (), '', 'p')
        m.e.assume(st, ('ne', fp), True)
        st.mem[cell[1]] = (fp, 8, ('struct.xRuntime', 0))
        st.mem[add(fp, C(F_['type'][0]))] = (C(enum(w, kind)), 4, ('struct.Frame', 1))
        cell = ('m', add(fp, C(F_['prev'][0])), 0, 8, 'p')
        m.frames.append((fp, kind))
        if kind == 'FrameType_NORMAL':
            m.e.rng[rt(m, fp, 'NormalFrame', 'index')] = (0, 2 ** 30)
            m.e.assume(st, ('ne', rt(m, fp, 'NormalFrame', 'exe')), True)
        if kind == 'FrameType_FAILED':
            so = rt(m, fp, 'FailedFrame', 'source')
            m.e.assume(st, ('ne', so), True)
            o = rt(m, fp, 'FailedFrame', 'offset')
            st.mem[o[1]] = (C(1), o[3], ('struct.FailedFrame', 2))
    st.mem[cell[1]] = (ZERO, 8, ('struct.Frame', 0))


def traces(w, ob, res):
    s = F(w, ob, res, 'trace')
    for n in range(0, 4):
        for kinds in itertools.product(KINDS[:3], repeat=n) if n < 3 else [KINDS[:3]]:
            m = s.follow(s.fn('Runtime_PrintStackTrace'), ['runtime', 'stream'], pre=lambda m, st: chain(m, st, kinds), hooks=TraceHooks if n < 2 else Short, record=TR, turns=8)
            got = set()
            for p in m.paths:
                t = lines_of(p)
                if t is None:
                    res.note('%s: what is printed is not constant text: not decided' % m.f.name)
                    continue
                if any(x[1] == 'fprintf' and p.differ(x[2][0], m['stream']) for x in p.kind('print')):
                    s.bad(m, p, 'stream', 'a part of a trace is printed elsewhere')
                got.add('printed')
                res.count('traces')
                t = t[1:]
                if len(t) != max(1, n):
                    s.bad(m, p, 'frames', 'a trace of %d frames has %d lines' % (n, len(t)))
                    continue
                if not n and re.search(r'#\d|\0', t[0][0]):
                    s.bad(m, p, 'none', 'a trace without frames has one')
                for k, (fp, kind) in enumerate(m.frames):
                    one_line(s, m, p, k, fp, kind, t[k])
            s.needs(m, ('printed',), got)
    m = s.follow(s.fn('Executable_GetInstrOffset'), ['exe', 'index:i'], pre=lambda m, st: m.e.rng.update({rt(m, 'exe', 'xExecutable', 'bodyl'): (0, 2 ** 24)}))
    ins = [o for n_, o, ct, z in ob.members('struct.Instruction') if n_ == 'offset'][0]
    size = w.p.size(('struct', 'struct.Instruction'))
    n = rt(m, 'exe', 'xExecutable', 'bodyl')
    src = rt(m, 'exe', 'xExecutable', 'src')
    got = set()
    for p in m.paths:
        res.count('outcomes')
        inside = ('le', sub(ZERO, m['index'])), ('le', sub(add(m['index'], ONE), n)), ('ne', src)
        ok = p.case(*inside)
        if ok is not None and all(p.true(x) is True for x in inside):
            got.add('offset')
            if p.ret == C(-1):
                s.bad(m, p, 'offset', 'an instruction has no place in its source')
                continue
            a = p.ret
            if a[0] == 'm':
                want = add(add(p.res(rt(m, 'exe', 'xExecutable', 'body')), scale(m['index'], size)), C(ins))
                if p.differ(a[1], want):
                    s.bad(m, p, 'offset', 'the place of another instruction is given')
        elif ok is None:
            got.add('none')
        if p.differ(p.ret, C(-1)) and any(p.case(x) for x in (('le', add(m['index'], ONE)), ('le', sub(n, m['index'])))):
            s.bad(m, p, 'none', 'something that is not an instruction has a place')
    s.needs(m, ('offset', 'none'), got)


class Short(TraceHooks):
    offsets = (2,)


def one_line(s, m, p, k, fp, kind, line):
    text, vals = line
    num = re.search(r'#(\d+)', text)
    if num is None or int(num.group(1)) != k:
        s.bad(m, p, 'number', 'the frame %d of a trace is numbered %s' % (k, num and num.group(1)))
    if kind == 'FrameType_NATIVE':
        src, off = ZERO, None
    elif kind == 'FrameType_FAILED':
        src, off = p.res(rt(m, fp, 'FailedFrame', 'source')), 1
    else:
        exe = rt(m, fp, 'NormalFrame', 'exe')
        gs = [x for x in p.calls('Executable_GetSource') if p.same(x[2][0], exe)]
        if not gs:
            s.bad(m, p, 'source', 'the source of the frame %d is not looked at' % k)
            return
        src = gs[-1][3]
        go = [x for x in p.calls('Executable_GetInstrOffset') if p.same(x[2][0], exe)]
        off = None
        if src != ZERO:
            if not go:
                s.bad(m, p, 'place', 'the place of the frame %d is not looked at' % k)
                return
            off = go[-1][3][1]
            i = rt(m, fp, 'NormalFrame', 'index')
            c = p.case(('le', sub(ONE, i)))
            if c is not None and c.differ(go[-1][2][1], sub(i, ONE)):
                s.bad(m, p, 'index', 'the place shown is not that of the instruction that was running')
            c = p.case(('eq', i))
            if c is not None and c.differ(go[-1][2][1], ZERO):
                s.bad(m, p, 'index', 'before the first instruction, the place shown is not that of the first instruction')
    name = None
    if src != ZERO:
        gn = [x for x in p.calls('Source_GetName') if p.same(x[2][0], src)]
        if not gn:
            s.bad(m, p, 'name', 'the name of the source of the frame %d is not looked at' % k)
            return
        name = gn[-1][3]
    shown = None
    if text.endswith(':\0') and len(vals) == (2 if name is not None and name != ZERO else 1):
        shown, vals = vals[-1], vals[:-1]
    if name is not None and name != ZERO:
        if len(vals) < 1 or p.differ(vals[0], name):
            s.bad(m, p, 'name', 'the name shown for the frame %d is not that of its source' % k)
    elif vals:
        s.bad(m, p, 'name', 'a frame without source or name shows one')
    if name == ZERO and '(unnamed)' not in text or src == ZERO and '(no source)' not in text:
        s.bad(m, p, 'name', 'a frame without %s is not shown as one' % ('name' if name == ZERO else 'source'))
    at = re.search(r':(\d+)$', text)
    at = C(int(at.group(1))) if at else shown
    if src == ZERO or off is None or off < 0:
        if at is not None:
            s.bad(m, p, 'line', 'a frame without a place shows a line')
        return
    if at is None:
        s.bad(m, p, 'line', 'a frame that has a place does not show its line')
        return
    body = [x[3] for x in p.calls('Source_GetBody') if p.same(x[2][0], src)]
    if not body:
        s.res.note('the text of the source is not looked at: line not decided')
        return
    bs = [('eq', sub(('m', p.res(add(body[-1], C(j))), 0, 1, 'i'), C(10))) for j in range(off)]
    for lf in itertools.product((True, False), repeat=off):
        c = p.case(*[b if x else ('ne', b[1]) for x, b in zip(lf, bs)])
        if c is not None and c.differ(at, C(1 + sum(lf))):
            s.bad(m, p, 'line', 'the line shown after %d line ends is another' % sum(lf))


def trace_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    traces(w, ob, res)
    res.need('operations', 8)
    res.need('traces', 40)
    return res


# ------------------------------------------------------------------- errors

def byte(a):
    return ('m', a, 0, 1, 'i')


class ErrorHooks(SlotHooks):
    """the functions of the C library that format"""
    def contract(self, e, fr, st, ins, f, args):
        return None

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        if n in ('_Error_Report2', 'Error_Free', 'Error_Init') and not fr_root(fr, n):
            self.note(st, 'call', n, R, ZERO)
            return [(st, None)]
        if n is None:
            return super().on_call(e, fr, st, ins, f, args)
        if n in ('vsnprintf', '__vsnprintf_chk'):
            if n[0] == '_':
                R = R[:2] + R[4:]
            old = [x for x in st.prop if x[0] == 'call' and x[1] == 'vsnprintf']
            v = old[0][3] if old else self.tok(e, st, n, 'i', 0, 2 ** 31 - 2)
            self.note(st, 'call', 'vsnprintf', R, v)
            return [(st, v)]
        if n.startswith('llvm.va_') or n in ('va_copy',):
            self.note(st, 'call', n.split('.')[1] if '.' in n else n, R, ZERO)
            return [(st, None)]
        return super().on_call(e, fr, st, ins, f, args)


def messages(w, ob, res):
    s = F(w, ob, res, 'errors')
    M = {n: (o, z) for n, o, ct, z in ob.members('struct.Error')}

    def cell(p, n):
        return p.cell(add(p.m['err'], C(M[n][0])))
    room = M['message2'][1]
    m = s.follow(s.fn('_Error_Report2'), ['err', 'type:i', 'file', 'func', 'line:i', 'fmt', 'va'], hooks=ErrorHooks)
    got = set()
    for p in m.paths:
        res.count('outcomes')
        for n, want in (('occurred', ONE), ('type', m['type']), ('file', m['file']), ('func', m['func']), ('line', m['line'])):
            v = cell(p, n)
            if v is None or v and p.differ(v, want):
                s.bad(m, p, n, 'the %s of an error is lost' % ('fact' if n == 'occurred' else n))
        vs = p.calls('vsnprintf')
        al = [x for x in p.kind('alloc')]
        if not vs:
            s.bad(m, p, 'text', 'the message of an error is not made')
            continue
        own = add(m['err'], C(M['message2'][0]))
        for k, x in enumerate(vs):
            to, size, fmt, va = x[2][:4]
            n = C(room) if p.same(to, own) else next((y[2] for y in al if p.same(y[3], to)), None)
            if n is None or p.may(('le', sub(add(n, ONE), size))):
                s.bad(m, p, 'room', 'a message is written beyond its memory')
            if p.differ(fmt, m['fmt']):
                s.bad(m, p, 'fmt', 'a message is made of something else')
            old = [p.ev.index(y) for y in vs[:k] if p.same(y[2][3], va)]
            if old and not any(y[0] == 'call' and y[1] == 'va_copy' and p.same(y[2][0], va) for y in p.ev[old[-1]:p.ev.index(x)]):
                s.bad(m, p, 'va', 'the values of a message are used up when it is made again')
        L = vs[0][3]
        msg, length, cut = cell(p, 'message'), cell(p, 'length'), cell(p, 'truncated')
        if None in (msg, length, cut):
            s.bad(m, p, 'set', 'the message of an error, its length or whether it is all there is not set')
            continue
        if False in (msg, length, cut):
            continue
        fits = p.true(('le', sub(L, C(room - 1))))
        into = [x for x in vs if p.same(x[2][0], msg)]
        if not into:
            s.bad(m, p, 'message', 'the message of an error is not the one made')
            continue
        size = into[-1][2][1]
        whole = p.may(('le', sub(size, L)))      # can the text be longer than what was asked for?
        kept = cut != ZERO
        got.add('cut' if kept else 'own' if p.same(msg, own) else 'heap')
        if whole and not kept:
            s.bad(m, p, 'cut', 'a message is cut without saying so')
        if kept and fits is True:
            s.bad(m, p, 'cut', 'a message that is all there is said to be cut')
        if kept and not any(x[3] == ZERO for x in al):
            s.bad(m, p, 'cut', 'a long message is cut though there is memory for it')
        if p.differ(length, L if not kept else sub(size, ONE)):
            s.bad(m, p, 'length', 'the length of a message is another')
        for x in al:
            if x[3] != ZERO and not p.same(x[3], msg) and not freed(p, x[3]):
                s.bad(m, p, 'leak', 'memory for a message is lost')
        cb = rt(m, 'err', 'Error', 'on_report')
        told = p.kind('slot')
        has = p.true(('ne', cb))
        if has is True and (len(told) != 1 or p.differ(told[0][1], cb) or p.differ(told[0][2][0], m['err'])):
            s.bad(m, p, 'told', 'an error is not told exactly once to whom asked for it')
        if has is False and told:
            s.bad(m, p, 'told', 'an error is told to no one')
        if told:
            last = max((i for i, x in enumerate(p.ev) if x[0] == 'store' and root(x[1]) == m['err']), default=-1)
            if p.ev.index(told[0]) < last:
                s.bad(m, p, 'told', 'an error is told before it is complete')
    s.needs(m, ('own', 'heap', 'cut'), got)

    m = s.follow(s.fn('_Error_Report'), ['err', 'type:i', 'file', 'func', 'line:i', 'fmt'], hooks=ErrorHooks)
    for p in m.paths:
        c = p.calls('_Error_Report2')
        if len(c) != 1 or any(p.differ(c[0][2][k], m[n]) for k, n in enumerate(('err', 'type', 'file', 'func', 'line', 'fmt'))):
            s.bad(m, p, 'report', 'what is reported is not what was given')

    m = s.follow(s.fn('Error_Free'), ['err'], hooks=ErrorHooks)
    msg, own = rt(m, 'err', 'Error', 'message'), add(m['err'], C(M['message2'][0]))
    got = set()
    for p in m.paths:
        res.count('outcomes')
        gone = freed(p, msg)
        oth = [x for x in p.kind('ext') if x[1] == 'free' and not p.same(x[2][0], msg)]
        if oth or len(gone) > 1:
            s.bad(m, p, 'free', 'something else than the message is freed, or twice')
        if gone and p.case(('eq', sub(msg, own))):
            s.bad(m, p, 'own', 'a message kept inside of the error is freed')
        if not gone and p.case(('ne', msg), ('ne', sub(msg, own))):
            s.bad(m, p, 'leak', 'a message in memory of its own is not freed')
        got.add('heap' if gone else 'own')
        for n in ('occurred', 'message', 'on_report'):
            clear(s, m, p, M, n, 'err')
    s.needs(m, ('heap', 'own'), got)
    for fn, args in (('Error_Init', ['err']), ('Error_Init2', ['err', 'cb'])):
        m = s.follow(s.fn(fn), args, hooks=ErrorHooks)
        for p in m.paths:
            res.count('outcomes')
            for n in ('occurred', 'message') + (('on_report',) if fn == 'Error_Init' else ()):
                clear(s, m, p, M, n, 'err')
            if fn == 'Error_Init2':
                v = [x for x in p.ev if x[0] in ('fill', 'copy', 'call') or x[0] == 'store' and p.same(x[1], add(m['err'], C(M['on_report'][0])))][-1:]
                if not v or v[0][0] == 'fill' or v[0][0] == 'store' and p.differ(v[0][2], m['cb']):
                    s.bad(m, p, 'cb', 'who asked to be told of errors is forgotten')
    vals = {'ErrorType_INTERNAL': 'Internal Error', 'ErrorType_SYNTAX': 'Syntax Error', 'ErrorType_SEMANTIC': 'Semantic Error',
            'ErrorType_RUNTIME': 'Runtime Error', 'ErrorType_UNSPECIFIED': 'Error'}
    for a, b in itertools.product(vals, vals):
        if a != 'ErrorType_UNSPECIFIED' and b != 'ErrorType_UNSPECIFIED':
            continue

        def pre(m, st):
            x = rt(m, 'error', 'Error', 'type')
            st.mem[x[1]] = (C(enum(w, a)), x[3], ('struct.Error', 0))
        m = s.follow(s.fn('Error_Print'), ['error', C(enum(w, b)), 'stream'], pre=pre, hooks=ErrorHooks)
        for p in m.paths:
            res.count('outcomes')
            t = lines_of(p)
            if t is None:
                res.note('Error_Print: what is printed is not constant text: not decided')
                continue
            name = vals[a if a != 'ErrorType_UNSPECIFIED' else b]
            msg = rt(m, 'error', 'Error', 'message')
            if len(t) != 1 or not t[0][0].startswith(name + ': \0') or p.differ(t[0][1][0], msg):
                s.bad(m, p, 'print', 'an error is not shown as %s and its message' % name)
            if any(x[1] == 'fprintf' and p.differ(x[2][0], m['stream']) for x in p.kind('print')):
                s.bad(m, p, 'stream', 'a part of an error is shown elsewhere')


def clear(s, m, p, M, n, base):
    a = p.res(add(m[base], C(M[n][0])))
    for x in reversed(p.ev):
        if x[0] == 'fill' and p.same(x[1], m[base]) and x[2] == ZERO and isc(x[3]) and x[3][1] >= M[n][0] + M[n][1]:
            return
        if x[0] == 'store' and p.same(x[1], a):
            if p.differ(x[2], ZERO):
                break
            return
        if x[0] in ('copy', 'call'):
            return
    s.bad(m, p, 'clear', 'the %s of an error that is empty is not' % n)


def reports_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    messages(w, ob, res)
    res.need('operations', 7)
    res.need('outcomes', 12)
    return res


# ---------------------------------------------------------------------- paths

SLASH = C(47)


class PathHooks(SourceHooks):
    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        if n == 'Path_MakeAbsolute' and fr_root(fr, n):
            return None
        if n == 'getcwd':
            bad = st.clone()
            self.note(bad, 'call', n, R, ZERO)
            v = self.length(e, R[0])
            e.assume(st, ('le', sub(ONE, v)), True)
            if not e.assume(st, ('le', sub(add(v, ONE), R[1])), True):
                return [(bad, ZERO)]
            self.note(st, 'call', n, R, R[0])
            return [(st, R[0]), (bad, ZERO)]
        if n == 'strlen':
            v = self.length(e, R[0])
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n == 'Runtime_GetCurrentScriptAbsolutePath' and not fr_root(fr, n):
            no = st.clone()
            v = self.tok(e, st, n)
            e.assume(st, ('ne', v), True)
            self.note(st, 'call', n, R, v)
            self.note(no, 'call', n, R, ZERO)
            # absolute, and the path of a file: it does not end with a slash
            e.assume(st, ('le', sub(C(2), self.length(e, v))), True)
            e.assume(st, ('eq', sub(byte(v), SLASH)), True)
            e.assume(st, ('ne', sub(byte(e.res(st, add(v, sub(self.length(e, v), ONE)))), SLASH)), True)
            return [(st, v), (no, ZERO)]
        if n == 'Runtime_GetCurrentScriptFolder' and not fr_root(fr, n):
            bad = st.clone()
            self.note(bad, 'call', n, R, ZERO)
            v = self.tok(e, st, n, 'i', 1, 2 ** 31)
            e.assume(st, ('le', sub(add(v, ONE), R[2])), True)
            self.note(st, 'call', n, R, v)
            return [(st, v), (bad, ZERO)]
        if n == 'makePathRelativeToScript' and not fr_root(fr, n):
            bad = st.clone()
            self.note(bad, 'call', n, R, ZERO)
            self.note(st, 'call', n, R, ONE)
            return [(st, ONE), (bad, ZERO)]
        return super().on_call(e, fr, st, ins, f, args)

    def length(self, e, a):
        v = ('s', 0, 'length of %d' % okey(a), (), '', 'i')
        e.rng.setdefault(v, (0, 2 ** 30))
        return v


def written(p, buf):
    """what was written to a buffer, in order: (kind, offset, source or value, length)"""
    out = []
    for x in p.ev:
        if x[0] == 'store' and x[3] == 1 and root(x[1]) == root(buf):
            out.append(('byte', p.res(sub(x[1], buf)), x[2], ONE))
        elif x[0] == 'copy' and root(x[1]) == root(buf):
            out.append(('copy', p.res(sub(x[1], buf)), x[2], x[3]))
        elif x[0] == 'call' and x[1] in ('strcpy', 'strncpy') and root(x[2][0]) == root(buf):
            out.append((x[1], p.res(sub(x[2][0], buf)), x[2][1], x[2][2] if x[1] == 'strncpy' else None))
    return out


def joined(s, m, p, buf, size, L, path, what):
    """a path that is not absolute was put after the folder of length L"""
    n = m.e.h.length(m.e, path) if hasattr(m.e.h, 'length') else None
    ws = written(p, buf)
    cp = [x for x in ws if x[0] != 'byte']
    if len(cp) != 1 or cp[0][0] == 'strncpy':
        s.res.note('%s: how a path is put together is not understood' % m.f.name)
        return
    kind, at, src, k = cp[0]
    if p.differ(src, path):
        s.bad(m, p, 'path', '%s is made of another path' % what)
        return
    if k is None:
        k = add(n, ONE)
    ended = not p.differ(k, add(n, ONE))
    if p.differ(k, n) and not ended:
        s.bad(m, p, 'whole', '%s is not made of the whole path' % what)
    end = p.res(add(at, n))
    if not ended:
        z = [x for x in ws if x[0] == 'byte' and p.same(x[1], end) and x[2] == ZERO]
        if not z:
            s.bad(m, p, 'end', '%s has no end' % what)
    if p.may(('le', sub(size, end))):
        s.bad(m, p, 'room', '%s is written beyond its memory' % what)
    if p.same(at, L):
        return 'after'
    if p.same(at, add(L, ONE)):
        if not [x for x in ws if x[0] == 'byte' and p.same(x[1], L) and p.same(x[2], SLASH)]:
            s.bad(m, p, 'slash', '%s has no slash after the folder' % what)
        return 'slash'
    s.bad(m, p, 'place', '%s does not follow the folder' % what)


def paths(w, ob, res):
    s = F(w, ob, res, 'paths')
    m = s.follow(s.fn('Path_MakeAbsolute'), ['path', 'buff', 'buffsize:w'], hooks=PathHooks)
    got = set()
    first = byte(m['path'])
    for p in m.paths:
        res.count('outcomes')
        ab = p.true(('eq', sub(first, SLASH)))
        if ab is None:
            s.bad(m, p, 'absolute', 'a path is taken for absolute or not without looking at it')
            continue
        if ab:
            got.add('absolute')
            if p.differ(p.ret, m['path']) and not written(p, m['buff']):
                s.bad(m, p, 'absolute', 'an absolute path is changed')
            continue
        cw = p.calls('getcwd')
        if p.ret == ZERO:
            got.add('refused')
            if cw and cw[0][3] != ZERO:
                big = p.case(('le', sub(add(add(m.e.h.length(m.e, m['buff']), C(2)), m.e.h.length(m.e, m['path'])), m['buffsize'])))
                if big is not None:
                    s.bad(m, p, 'refused', 'a path that fits is refused')
            continue
        got.add('relative')
        if not cw or cw[0][3] == ZERO or p.differ(cw[0][2][0], m['buff']) or p.differ(cw[0][2][1], m['buffsize']) and p.may(('le', sub(add(m['buffsize'], ONE), cw[0][2][1]))):
            s.bad(m, p, 'folder', 'a relative path is not put after the current folder')
            continue
        if p.differ(p.ret, m['buff']):
            s.bad(m, p, 'result', 'the absolute path is not what is given back')
        L = m.e.h.length(m.e, m['buff'])
        j = joined(s, m, p, m['buff'], m['buffsize'], L, m['path'], 'an absolute path')
        if j == 'after' and p.true(('eq', sub(byte(p.res(add(m['buff'], sub(L, ONE)))), SLASH))) is not True:
            s.bad(m, p, 'slash', 'an absolute path has no slash after the folder')
    s.needs(m, ('absolute', 'relative', 'refused'), got)

    m = s.follow(s.fn('makePathRelativeToScript'), ['runtime', 'path', 'dst', 'size:w'], hooks=PathHooks)
    got = set()
    first = byte(m['path'])
    n = m.e.h.length(m.e, m['path'])
    for p in m.paths:
        res.count('outcomes')
        ab = p.true(('eq', sub(first, SLASH)))
        fo = p.calls('Runtime_GetCurrentScriptFolder')
        if ab is None:
            s.bad(m, p, 'absolute', 'a path is taken for absolute or not without looking at it')
            continue
        if p.ret == ZERO:
            got.add('refused')
            if fo and fo[0][3] != ZERO and p.case(('le', sub(add(add(fo[0][3], n), C(1)), m['size']))) or ab and p.case(('le', sub(add(n, ONE), m['size']))):
                s.bad(m, p, 'refused', 'a path that fits is refused')
            continue
        if ab:
            got.add('absolute')
            if fo or joined(s, m, p, m['dst'], m['size'], ZERO, m['path'], 'a path') != 'after' and not res.notes:
                s.bad(m, p, 'absolute', 'an absolute path is changed')
            continue
        got.add('relative')
        if len(fo) != 1 or p.differ(fo[0][2][1], m['dst']) or p.may(('le', sub(add(m['size'], ONE), fo[0][2][2]))) or p.differ(fo[0][2][0], m['runtime']):
            s.bad(m, p, 'folder', 'a relative path is not put after the folder of the script')
            continue
        if joined(s, m, p, m['dst'], m['size'], fo[0][3], m['path'], 'the path of a file to import') == 'slash':
            s.bad(m, p, 'slash', 'a folder is followed by two slashes')
    s.needs(m, ('absolute', 'relative', 'refused'), got)

    m = s.follow(s.fn('Runtime_GetCurrentScriptFolder'), ['runtime', 'buff', 'size:w'], hooks=PathHooks, turns=6)
    got = set()
    for p in m.paths:
        res.count('outcomes')
        sc = p.calls('Runtime_GetCurrentScriptAbsolutePath')
        if len(sc) < 1:
            s.bad(m, p, 'script', 'the script that runs is not asked for')
            continue
        path = sc[-1][3]
        if p.ret == ZERO:
            got.add('refused')
            continue
        if path == ZERO:
            got.add('cwd')
            cw = p.calls('getcwd')
            if not cw or p.differ(cw[0][2][0], m['buff']) or p.may(('le', sub(add(m['size'], ONE), cw[0][2][1]))):
                s.bad(m, p, 'cwd', 'without a script, the folder is not the current one')
                continue
            L = m.e.h.length(m.e, m['buff'])
            if p.same(p.ret, L):
                if p.true(('eq', sub(byte(p.res(add(m['buff'], sub(L, ONE)))), SLASH))) is not True:
                    s.bad(m, p, 'slash', 'a folder does not end with a slash')
            elif p.same(p.ret, add(L, ONE)):
                ws = written(p, m['buff'])
                if not [x for x in ws if x[0] == 'byte' and p.same(x[1], L) and p.same(x[2], SLASH)]:
                    s.bad(m, p, 'slash', 'a folder does not end with a slash')
            else:
                s.bad(m, p, 'length', 'the length of a folder is another')
            if p.may(('le', sub(m['size'], p.ret))):
                s.bad(m, p, 'room', 'a folder is written beyond its memory')
            continue
        got.add('folder')
        L = m.e.h.length(m.e, path)
        for k in range(0, 8):
            if p.same(p.ret, sub(L, C(k))):
                break
        else:
            s.bad(m, p, 'length', 'the length of a folder is another')
            continue
        for j in range(1, k + 1):
            if p.case(('eq', sub(byte(p.res(add(path, sub(L, C(j))))), SLASH))) and j <= k and p.true(('eq', sub(byte(p.res(add(path, sub(L, C(j))))), SLASH))) is not False:
                s.bad(m, p, 'last', 'a folder ends before the last slash of the path of the script')
                break
        if p.true(('eq', sub(byte(p.res(add(path, sub(L, C(k + 1))))), SLASH))) is not True:
            s.bad(m, p, 'slash', 'a folder does not end with a slash')
        ws = written(p, m['buff'])
        cp = [x for x in ws if x[0] == 'copy']
        if len(cp) != 1 or p.differ(cp[0][1], ZERO) or p.differ(cp[0][2], path) or p.differ(cp[0][3], p.ret):
            s.bad(m, p, 'copy', 'a folder is not the start of the path of the script')
        if not [x for x in ws if x[0] == 'byte' and p.same(x[1], p.ret) and x[2] == ZERO]:
            s.bad(m, p, 'end', 'a folder has no end')
        if p.may(('le', sub(m['size'], p.ret))):
            s.bad(m, p, 'room', 'a folder is written beyond its memory')
    s.needs(m, ('folder', 'cwd', 'refused'), got)

    importing(w, ob, res, s)


def local_size(w, f, a):
    """the size of the local variable an address is in"""
    if a[0] == 'loc':
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == 'alloca' and i.res == a[2]:
                    return w.p.size(i.x)


def importing(w, ob, res, s):
    m = s.follow(s.fn('runFileRelativeToScript'), ['runtime', 'file', 'rets', 'error'], hooks=PathHooks,
                 record=('runSource', 'Source_FromFile', 'Source_Free', 'makePathRelativeToScript'))
    got = set()
    for p in m.paths:
        res.count('outcomes')
        mk, so, ru, fr_ = (p.calls(x) for x in ('makePathRelativeToScript', 'Source_FromFile', 'runSource', 'Source_Free'))
        if len(mk) != 1 or p.differ(mk[0][2][0], m['runtime']) or p.differ(mk[0][2][1], m['file']):
            s.bad(m, p, 'path', 'a file is not imported relative to the script')
            continue
        size = local_size(w, m.f, mk[0][2][2])
        if size is not None and isc(mk[0][2][3]) and mk[0][2][3][1] > size:
            s.bad(m, p, 'room', 'the path of a file is written beyond its memory')
        if mk[0][3] == ZERO:
            got.add('refused')
            if so or ru or not p.reports or p.ret == ZERO:
                s.bad(m, p, 'refused', 'a path that is too long is imported')
            continue
        if len(so) != 1 or p.differ(so[0][2][0], mk[0][2][2]):
            s.bad(m, p, 'open', 'the file imported is not the one of the path made')
            continue
        src = so[0][3]
        if src == ZERO:
            got.add('missing')
            if ru or fr_ or not p.true(('le', add(p.ret, ONE))):
                s.bad(m, p, 'missing', 'a file that is not there is imported')
            continue
        got.add('runs')
        if len(ru) != 1 or any(p.differ(ru[0][2][k], x) for k, x in enumerate((m['runtime'], src, m['rets'], m['error']))):
            s.bad(m, p, 'run', 'a file imported is not run once, with its results given back')
        elif p.differ(p.ret, ru[0][3]):
            s.bad(m, p, 'result', 'the number of results of a file imported is another')
        elif len(fr_) != 1 or p.differ(fr_[0][2][0], src) or p.ev.index(fr_[0]) < p.ev.index(ru[0]):
            s.bad(m, p, 'release', 'the source of a file imported is not released once, after it was run')
    s.needs(m, ('refused', 'missing', 'runs'), got)
    for n in range(0, 3):
        for kinds in itertools.product(KINDS[:3], repeat=n):
            m = s.follow(s.fn('Runtime_GetMostRecentExecutable'), ['runtime'], pre=lambda m, st: chain(m, st, kinds))
            for p in m.paths:
                res.count('outcomes')
                want = next((rt(m, fp, 'NormalFrame', 'exe') for fp, k in m.frames if k == 'FrameType_NORMAL'), ZERO)
                if p.differ(p.ret, want):
                    s.bad(m, p, 'recent', 'the code that runs is not that of the innermost function')
    m = s.follow(s.fn('Runtime_GetCurrentScriptAbsolutePath'), ['runtime'], hooks=ScriptHooks, record=('Runtime_GetMostRecentExecutable', 'Executable_GetSource', 'Source_GetAbsolutePath'))
    for p in m.paths:
        res.count('outcomes')
        ch = [p.calls(x) for x in ('Runtime_GetMostRecentExecutable', 'Executable_GetSource', 'Source_GetAbsolutePath')]
        v = m['runtime']
        for c in ch:
            if v == ZERO:
                break
            if len(c) < 1 or p.differ(c[-1][2][0], v):
                s.bad(m, p, 'script', 'the path of the script is not that of the source of the code that runs')
                break
            v = c[-1][3]
        else:
            if p.differ(p.ret, v):
                s.bad(m, p, 'script', 'the path of the script is another')
            continue
        if v == ZERO and p.ret != ZERO:
            s.bad(m, p, 'script', 'there is a path of a script that is not a file')


class ScriptHooks(FrameHooks):
    maybe = frozenset(('Runtime_GetMostRecentExecutable', 'Executable_GetSource', 'Source_GetAbsolutePath'))


def paths_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    paths(w, ob, res)
    res.need('operations', 3)
    res.need('outcomes', 8)
    return res

"""C02: the command."""
import itertools
from heap import *

ROOT = ('Runtime_New', 'Runtime_Free', 'Runtime_plugDefaultBuiltins', 'runFile', 'runString', 'runBytecodeFile', 'runBytecodeString', 'diagramFileAST', 'diagramStringAST',
        'Error_Print', 'Runtime_PrintStackTrace', 'Runtime_SerializeProfilingResultsToStream', 'Runtime_SerializeProfilingResultsToFile')
RUNS = {('default', False): 'runFile', ('default', True): 'runString', ('assembly', False): 'runBytecodeFile', ('assembly', True): 'runBytecodeString',
        ('diagram', False): 'diagramFileAST', ('diagram', True): 'diagramStringAST'}


class CliHooks(HeapHooks):
    quiet = True
    maybe = frozenset(('Runtime_New',))
    kept = None

    def text(self, e, st, a):
        """the constant text at a place"""
        a = e.res(st, a)
        t = self.texts.get(a)
        if t is None and a[0] in ('g', 'lin'):
            t = self.w.p.cstr(a)
        if t is None:
            r = root(a)
            d = sub(a, r) if r is not None else None
            if r in self.texts and d is not None and isc(d) and 0 <= d[1] <= len(self.texts[r]):
                t = self.texts[r][d[1]:]
        return t

    def on_load(self, e, fr, st, ins, addr, size):
        super().on_load(e, fr, st, ins, addr, size)
        if isc(addr) and addr[1] < 4096:
            self.note(st, 'null', ins.idx)

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        if n in ('strcmp', 'strncmp', 'strcasecmp'):
            a, b = self.text(e, st, R[0]), self.text(e, st, R[1])
            if a is not None and b is not None:
                if n == 'strncmp' and isc(R[2]):
                    a, b = a[:R[2][1]], b[:R[2][1]]
                if n == 'strcasecmp':
                    a, b = a.lower(), b.lower()
                return [(st, C((a > b) - (a < b)))]
        if n == 'strlen':
            a = self.text(e, st, R[0])
            if a is not None:
                return [(st, C(len(a)))]
            v = ('s', 0, 'length of %d' % okey(R[0]), (), '', 'i')
            e.rng[v] = (0, 2 ** 40)
            return [(st, v)]
        if n in ('atoi', 'atol', 'atoll', 'strtol', 'strtoul', 'strtoll', 'strtoull'):
            a = self.text(e, st, R[0])
            if a is not None:
                import re
                x = re.match(r'\s*[+-]?\d+', a)
                v = int(x.group(0)) if x else 0
                if n[0] == 's' and R[1] != ZERO:
                    e.put(fr, st, ins, R[1], add(R[0], C(x.end() if x else 0)), 8, ('at', 0))
                return [(st, C(v))]
        if n == 'fopen':
            no = st.clone()
            self.note(no, 'open', R, ZERO)
            self.opened = getattr(self, 'opened', 0) + 1
            v = self.tok(e, st, 'stream')
            region(e, v, 50 + self.opened)
            e.assume(st, ('ne', v), True)
            self.note(st, 'open', R, v)
            return [(st, v), (no, ZERO)]
        if n in ('fwrite', 'fputs', 'fputc', 'putc', 'fprintf', 'puts', 'putchar', 'printf', 'vfprintf'):
            if n in ('puts', 'putchar', 'printf'):
                self.note(st, 'print', n, R)
                return [(st, e.sym(fr, st, ins, ins.ty) if ins.res else None)]
        if n in ('signal', 'sigaction'):
            self.note(st, 'ext', n, R)
            return [(st, e.sym(fr, st, ins, ins.ty) if ins.res else None)]
        if n in ('Error_Print', '_Error_Print', 'Runtime_PrintStackTrace', 'Runtime_Free', 'Runtime_SerializeProfilingResultsToStream'):
            self.note(st, 'call', n, R, None)
            return [(st, None)]
        if n in RUNS.values() and self.kept:
            x = st.mem.get(self.kept)
            self.note(st, 'kept', e.res(st, x[0]) if x else None)
        if n == 'Runtime_New':
            for m_, o, ct, z in self.w.p.di_struct('RuntimeConfig') or []:
                x = st.mem.get(add(R[0], C(o)))
                self.note(st, 'config', m_, e.res(st, x[0]) if x else None)
        return super().on_call(e, fr, st, ins, f, args)


def arguments(m, st, words):
    m.words = []
    for k, wd in enumerate(words):
        t = ('s', 0, 'word %d' % k, (), '', 'p')
        region(m.e, t, 10 + k)
        m.h.texts[t] = wd
        for j, ch in enumerate(wd):
            st.mem[add(t, C(j))] = (C(ord(ch)), 1, ('at', 0))
        st.mem[add(t, C(len(wd)))] = (ZERO, 1, ('at', 0))
        st.mem[add(m['argv'], C(8 * k))] = (t, 8, ('at', 0))
        m.words.append(t)
    st.mem[add(m['argv'], C(8 * len(words)))] = (ZERO, 8, ('at', 0))


def wants(words):
    """what a command line asks for, by the help text"""
    d = dict(mode='default', inline=False, profile=False, output=None, heap=1024 * 1024, input=None, wrong=False)
    i = 1
    while i < len(words):
        x = words[i]
        if x in ('-h', '--help'):
            d['mode'] = 'help'
        elif x in ('-i', '--inline'):
            d['inline'] = True
        elif x in ('-a', '--assembly'):
            d['mode'] = 'assembly'
        elif x == '--diagram-ast':
            d['mode'] = 'diagram'
        elif x in ('-p', '--profile'):
            d['profile'] = True
        elif x in ('-o', '--output', '-H', '--heap'):
            i += 1
            if i == len(words) or words[i].startswith('-'):
                d['wrong'] = True
                return d
            if x in ('-o', '--output'):
                d['output'] = i
            else:
                d['heap'] = int(words[i]) if words[i].isdigit() else 0
                if not d['heap']:
                    d['wrong'] = True
                    return d
        else:
            d['input'] = i
            break
        i += 1
    if d['input'] is None and d['mode'] != 'help':
        d['wrong'] = True
    return d


def lines(tier):
    modes = [[], ['-a'], ['--assembly'], ['--diagram-ast']]
    inl = [[], ['-i'], ['--inline']]
    prof = [[], ['-p'], ['--profile']]
    outs = [[], ['-o', 'out'], ['--output', 'out']]
    hs = [[], ['-H', '4096'], ['--heap', '65536']]
    L = []
    for k, c in enumerate(itertools.product(modes, inl, prof, outs, hs)):
        groups = [x for x in c if x]
        if len(groups) <= 1 or tier == 'thorough' or k % 7 == 0 or all(len(x) and x[0].startswith(('-a', '-i', '-p', '-o', '-H', '--d')) and not x[0].startswith(('--a', '--i', '--p', '--o')) for x in groups) and k % 2 == 0:
            order = groups if k % 2 else groups[::-1]
            L.append(sum(order, []) + ['x.noja'])
    L += [['-h'], ['--help'], ['-h', 'x.noja'], [], ['-i'], ['-a'], ['-p'], ['--diagram-ast'], ['-i', '-a'], ['-o'], ['--output'], ['-o', '-p', 'x.noja'], ['-H'], ['--heap'], ['-H', '-5', 'x.noja'],
          ['-H', '0', 'x.noja'], ['-H', 'abc', 'x.noja'], ['-o', 'out'], ['-H', '4096'], ['x.noja', '-a'], ['x.noja', '-h'], ['x.noja', '-o'], ['x.noja', 'y.noja'], ['-a', 'x.noja', '-i'],
          ['-o', 'a', '-o', 'b', 'x.noja'], ['-H', '100', '-H', '200', 'x.noja'], ['-i', 'print(1)', '-p'], ['-p', '-o', 'x', '-H', '5000', '-i', 'code'], ['', 'x'], ['x']]
    out = []
    for x in L:
        if x not in out:
            out.append(x)
    return out


def code(p):
    r = p.res(p.ret)
    return r[1] & 255 if isc(r) else None


STREAMS = ('stdin', 'stdout', 'stderr')


def standard(m, st):
    """the standard streams are there, and are not any of the others"""
    for k, n in enumerate(STREAMS):
        t = ('s', 0, n, (), '', 'p')
        region(m.e, t, 40 + k)
        st.mem[('g', n)] = (t, 8, ('at', 0))


def is_stream(p, t, n):
    """is this the standard stream; nothing changes which one that is"""
    t = p.res(t)
    if t[0] == 's':
        return t[2] == n
    return False if t[0] == 'c' else None


def handlers(s, w, f):
    """the variable that holds what a signal interrupts, by what main hands to signal()"""
    h, found = None, set()

    def pre(m, st):
        m.h.texts = {}
        region(m.e, m['argv'], 1)
        arguments(m, st, ['noja', 'x'])
        standard(m, st)
    m = s.follow(f, [C(2), 'argv'], pre=pre, hooks=CliHooks, record=ROOT, turns=5, loads=8)
    for p in m.paths:
        for x in p.kind('ext'):
            if x[1] == 'signal' and isc(x[2][0]) and x[2][0][1] in (2, 15) and x[2][1][0] == 'g' and x[2][1][1] in w.p.functions:
                h = w.p.functions[x[2][1][1]]
                found.add((x[2][0][1], h.gid))
    kept = set()
    for _, g in sorted(found):
        h = w.p.functions[g]
        m = s.follow(h, [C(2)], hooks=CliHooks, record=('Runtime_Interrupt',))
        n = 0
        for p in m.paths:
            for x in p.calls('Runtime_Interrupt'):
                t = p.res(x[2][0])
                n += 1
                if t[0] == 'm' and t[1][0] == 'g':
                    kept.add(t[1])
        if not n and m.paths and not m.undecided:
            s.bad(m, m.paths[0], 'handler', 'a signal does not interrupt the program')
    return list(kept)[0] if len(kept) == 1 else None


def command(w, ob, res, tier):
    s = U(w, ob, res, 'command')
    f = s.fn('main')
    got = set()
    CliHooks.kept = handlers(s, w, f)
    if CliHooks.kept is None:
        res.note('main: what a signal does is not understood')
    for words in [['noja'] + x for x in lines(tier)]:
        def pre(m, st):
            m.h.texts = {}
            region(m.e, m['argv'], 1)
            arguments(m, st, words)
            standard(m, st)
        m = s.follow(f, [C(len(words)), 'argv'], pre=pre, hooks=CliHooks, record=ROOT, turns=len(words) + 3, loads=8)
        res.count('command lines')
        d = wants(words)
        said = '"%s"' % ' '.join(words)
        for p in m.paths:
            res.count('outcomes')
            judge(s, m, p, d, said, got, res)
    s.needs(m, ('help', 'refused', 'ran', 'failed', 'diagram', 'profile'), got)


def judge(s, m, p, d, said, got, res):
    bad = lambda key, text: s.bad(m, p, key, '%s, for a command line like %s' % (text, said))
    c = code(p)
    if p.kind('null'):
        bad('null', 'a word that is not there is read')
        return
    if c is None:
        res.note('main: the status is not understood')
        return
    runs = [x for x in p.calls() if x[1] in RUNS.values()]
    prints = p.kind('print')
    errs = [x for x in p.calls() if x[1] == 'Error_Print']

    def on(x):
        """the stream something is printed on"""
        n, R = x[1], x[2]
        if n in ('puts', 'printf', 'putchar'):
            return 'stdout'
        t = p.res(R[{'fwrite': 3, 'fputs': 1, 'fputc': 1, 'putc': 1}.get(n, 0)])
        for k in ('stdout', 'stderr'):
            if is_stream(p, t, k):
                return k
        return t
    if d['wrong']:
        got.add('refused')
        if c == 0:
            bad('status wrong', 'the command succeeds though it was given nothing it can do')
        if runs:
            bad('runs wrong', 'something is run')
        if not any(on(x) == 'stderr' for x in prints):
            bad('silent', 'it is not said what is wrong')
        return
    if d['mode'] == 'help':
        got.add('help')
        if c != 0:
            bad('status help', 'the command fails to help')
        if runs:
            bad('runs help', 'something is run')
        if not any(on(x) == 'stdout' for x in prints):
            bad('help', 'no help is printed')
        return
    want = RUNS[d['mode'], d['inline']]
    inp = m.words[d['input']]
    for x in runs:
        if x[1] != want:
            bad('what', 'something else is run than what was asked for')
        elif p.differ(x[2][0 if d['mode'] == 'diagram' else 1], inp):
            bad('input', 'something else is run than the file or code that was given')
    if len(runs) > 1:
        bad('twice', 'what was asked for is run more than once')
    opens = p.kind('open')
    closed = [x for x in p.kind('ext') if x[1] == 'fclose']
    for x in opens:
        if d['output'] is None or p.differ(x[1][0], m.words[d['output']]):
            bad('output', 'another file is written than the one that was named')
        mo = m.h.text(m.e, p.st, x[1][1])
        if mo is not None and not mo.startswith('w'):
            bad('mode', 'the output is not opened to be written')
        if x[2] != ZERO and len([y for y in closed if p.same(y[2][0], x[2])]) != 1:
            bad('closed', 'the output is not closed')
    if d['mode'] == 'diagram':
        if len(runs) != 1:
            bad('not run', 'no diagram is made')
            return
        r = runs[0][3]
        freed = [x for x in p.kind('ext') if x[1] == 'free' and p.same(x[2][0], r)]
        if r == ZERO:
            got.add('failed')
            if c == 0:
                bad('status', 'the command succeeds though it failed')
            if not [x for x in errs if is_stream(p, x[2][2], 'stderr') is not False]:
                bad('error', 'an error is not printed')
            return
        if len(freed) != 1:
            bad('leak', 'the diagram is not freed once')
        if any(x[2] == ZERO for x in opens):
            got.add('unwritable')
            if c == 0:
                bad('unwritable', 'the command succeeds though it could not write')
            return
        got.add('diagram')
        if c != 0:
            bad('status ok', 'the command fails though it did what was asked')
        mine = [x for x in prints if x[1] in ('fwrite', 'fputs') and p.same(x[2][0], r)]
        if not mine:
            if not prints:
                bad('text', 'the diagram is not written')
            else:
                res.note('main: how the diagram is written is not understood')
            return
        x = mine[0]
        to = on(x)
        if d['output'] is None:
            if to != 'stdout':
                bad('stream', 'the diagram is not written to the output')
        elif not opens or p.differ(p.res(x[2][3 if x[1] == 'fwrite' else 1]), opens[0][2]):
            bad('file', 'the diagram is not written to the file that was named')
        if x[1] == 'fwrite':
            n = scale(p.res(x[2][2]), x[2][1][1]) if isc(x[2][1]) else None
            ln = ('s', 0, 'length of %d' % okey(r), (), '', 'i')
            if n is not None and p.differ(n, ln):
                bad('length', 'not all of the diagram is written')
        return
    news = p.calls('Runtime_New')
    if len(news) != 1:
        bad('runtime', 'not one runtime is made')
        return
    rtm = news[0][3]
    conf = {x[1]: x[2] for x in p.kind('config')}
    for k, v in (('heap', C(d['heap'])), ('time', C(int(d['profile'])))):
        if conf.get(k) is not None and p.differ(conf[k], v):
            bad(k, 'the %s is not the one asked for' % {'heap': 'size of the heap', 'time': 'profiling'}[k])
    frees = [x for x in p.calls('Runtime_Free') if p.same(x[2][0], rtm)]
    if rtm == ZERO:
        if c == 0:
            bad('status new', 'the command succeeds though it failed')
        if runs:
            bad('run none', 'something is run without a runtime')
        return
    if len(frees) != 1:
        bad('free', 'the runtime is not freed once')
    order = [x[1] for x in p.calls()]
    if 'Runtime_Free' in order and any(n in ROOT and n != 'Error_Print' for n in order[order.index('Runtime_Free') + 1:]):
        bad('after', 'the runtime is used after it was freed')
    plug = p.calls('Runtime_plugDefaultBuiltins')
    if len(plug) != 1 or p.differ(plug[0][2][0], rtm):
        bad('builtins', 'the builtins are not there')
        return
    if plug[0][3] == ZERO:
        if runs:
            bad('run bare', 'something is run without builtins')
    elif len(runs) != 1:
        bad('not run', 'what was asked for is not run')
        return
    else:
        if order.index('Runtime_plugDefaultBuiltins') > order.index(runs[0][1]):
            bad('late', 'the builtins come after the program')
        seen = p.kind('kept')
        if CliHooks.kept and not (seen and seen[0][1] is not None and p.same(seen[0][1], rtm)):
            bad('interrupt', 'a signal does not reach the program that is run')
        at = {k: i for i, x in enumerate(p.ev) for k in ([x[2][0][1]] if x[0] == 'ext' and x[1] == 'signal' and isc(x[2][0]) else [])}
        run = [i for i, x in enumerate(p.ev) if x[0] == 'call' and x[1] in RUNS.values()][0]
        if not any(x[0] == 'ext' and x[1] == 'sigaction' for x in p.ev):
            for k in (2, 15):
                if at.get(k, run) >= run:
                    bad('signal', 'the program cannot be interrupted by a signal')
        if p.differ(runs[0][2][0], rtm):
            bad('runtime other', 'another runtime runs the program')
    if plug[0][3] == ZERO or runs[0][3] == ZERO:
        got.add('failed')
        if c == 0:
            bad('status', 'the command succeeds though it failed')
        e_ = plug[0][2][1] if plug[0][3] == ZERO else runs[0][2][2]
        if not [x for x in errs if is_stream(p, x[2][2], 'stderr') is not False and p.same(x[2][0], e_)]:
            bad('error', 'an error is not printed')
        if not [x for x in p.calls('Runtime_PrintStackTrace') if p.same(x[2][0], rtm)]:
            bad('trace', 'there is no stack trace of an error')
        return
    got.add('ran')
    if errs:
        bad('error none', 'an error is printed though there is none')
    if c != 0:
        bad('status ok', 'the command fails though it did what was asked')
    ser = [x for x in p.calls() if x[1].startswith('Runtime_SerializeProfilingResults')]
    if d['profile']:
        got.add('profile')
        if len(ser) != 1 or p.differ(ser[0][2][0], rtm):
            bad('profile', 'the profile is not written once')
        elif d['output'] is None:
            if ser[0][1].endswith('File') or is_stream(p, ser[0][2][1], 'stdout') is False:
                bad('profile to', 'the profile is not written to the output')
        elif ser[0][1].endswith('File') and p.differ(ser[0][2][1], m.words[d['output']]):
            bad('profile file', 'the profile is not written to the file that was named')
        elif ser[0][1].endswith('Stream') and (not opens or p.differ(ser[0][2][1], opens[0][2])):
            bad('profile file', 'the profile is not written to the file that was named')


def command_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    command(w, ob, res, tier)
    res.need('command lines', 40)
    res.need('outcomes', 150)
    return res
